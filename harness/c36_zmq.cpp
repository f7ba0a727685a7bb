// C36: the delivery guarantee of the bus (the harness of C03) on the ZeroMQ transport, over a model of its sockets.
// params: as in c03_bus.cpp; 8 how many times a non-blocking call fails with EAGAIN
#define KNP_ZMQ_BUS
#include "zmq_model.h"
#include "c03_bus.cpp"
