#pragma once
#include "asio/thread_pool.hpp"
