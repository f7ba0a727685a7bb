#pragma once
#include "thread_pool.hpp"
