// A model of the part of libzmq that the message bus uses: reliable inproc sockets in one process.
// A message that was sent is visible to the next poll of its receiver; a ROUTER reads the messages of its DEALERs in order, taking the
// next message from any of them; a PUB gives a message to every connected SUB that subscribed to it. A non-blocking call may fail with EAGAIN
// (zmq_model_again times per run).
#pragma once
#include <zmq.h>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <vector>
#include "knpsym.h"
namespace zmq_model {
struct Part { std::vector<uint8_t> data; bool more; };
struct Socket {
  int type = 0;
  unsigned number = 0;
  std::string bound;
  std::vector<Socket *> peers;                      // DEALER: its routers; SUB: its publishers
  std::vector<std::vector<uint8_t>> subscriptions;  // SUB
  std::deque<Part> in;                              // parts that can be read in order
  std::map<unsigned, std::deque<Part>> lanes;       // ROUTER: what each DEALER sent
};
struct Msg { uint8_t *data; size_t size; bool more; };
struct World {
  std::vector<Socket *> sockets;
  unsigned next = 1, again = 0;
  int error = 0;
};
inline World &world() {
  static World *w = new World();
  return *w;
}
inline Msg &get(zmq_msg_t *m) { return *reinterpret_cast<Msg *>(m); }
inline bool refuse() {
  World &w = world();
  if (!w.again || !ks::choose(2, "again")) return false;
  w.again--;
  w.error = EAGAIN;
  return true;
}
// a ROUTER with nothing at hand takes the next message of any DEALER
inline void fetch(Socket *s) {
  if (s->type != ZMQ_ROUTER || !s->in.empty()) return;
  std::vector<unsigned> from;
  for (auto &l : s->lanes) if (!l.second.empty()) from.push_back(l.first);
  if (from.empty()) return;
  const unsigned who = from[from.size() > 1 ? ks::choose(from.size(), "next") : 0];
  auto &lane = s->lanes[who];
  s->in.push_back({{0, 1, 2, 3, uint8_t(who)}, true});
  do {
    s->in.push_back(lane.front());
    lane.pop_front();
  } while (s->in.back().more && !lane.empty());
}
inline bool readable(const Socket *s) {
  if (!s->in.empty()) return true;
  for (auto &l : s->lanes) if (!l.second.empty()) return true;
  return false;
}
inline int put(Socket *s, const uint8_t *data, size_t size, int flags) {
  if ((flags & ZMQ_DONTWAIT) && refuse()) return -1;
  Part p{std::vector<uint8_t>(data, data + size), (flags & ZMQ_SNDMORE) != 0};
  if (s->type == ZMQ_DEALER) {
    ks::check(s->peers.size() == 1, "a sending socket is connected");
    if (s->peers.size() == 1) s->peers[0]->lanes[s->number].push_back(p);
  } else if (s->type == ZMQ_PUB) {
    for (Socket *o : world().sockets) {
      if (o->type != ZMQ_SUB) continue;
      bool connected = false, wanted = false;
      for (Socket *q : o->peers) connected |= q == s;
      for (auto &f : o->subscriptions) wanted |= f.size() <= size && memcmp(f.data(), data, f.size()) == 0;
      if (connected && wanted) o->in.push_back(p);
    }
  } else {
    world().error = ENOTSUP;
    return -1;
  }
  return int(size);
}
}  // namespace zmq_model
extern "C" {
int zmq_errno() { return zmq_model::world().error; }
const char *zmq_strerror(int) { return "zmq model"; }
void *zmq_ctx_new() { return new int(0); }
int zmq_ctx_term(void *c) { delete static_cast<int *>(c); return 0; }
int zmq_ctx_destroy(void *c) { return zmq_ctx_term(c); }
int zmq_ctx_shutdown(void *) { return 0; }
int zmq_ctx_set(void *, int, int) { return 0; }
int zmq_ctx_get(void *, int) { return 0; }
void *zmq_socket(void *, int type) {
  auto *s = new zmq_model::Socket();
  s->type = type;
  s->number = zmq_model::world().next++;
  zmq_model::world().sockets.push_back(s);
  return s;
}
int zmq_close(void *h) {
  auto *s = static_cast<zmq_model::Socket *>(h);
  auto &v = zmq_model::world().sockets;
  for (size_t i = 0; i < v.size(); i++) if (v[i] == s) { v.erase(v.begin() + i); break; }
  for (auto *o : v) for (size_t i = 0; i < o->peers.size(); i++) if (o->peers[i] == s) { o->peers.erase(o->peers.begin() + i); break; }
  delete s;
  return 0;
}
int zmq_bind(void *h, const char *a) { static_cast<zmq_model::Socket *>(h)->bound = a; return 0; }
int zmq_connect(void *h, const char *a) {
  auto *s = static_cast<zmq_model::Socket *>(h);
  for (auto *o : zmq_model::world().sockets)
    if (o->bound == a && ((s->type == ZMQ_DEALER && o->type == ZMQ_ROUTER) || (s->type == ZMQ_SUB && o->type == ZMQ_PUB))) { s->peers.push_back(o); return 0; }
  zmq_model::world().error = ECONNREFUSED;
  return -1;
}
int zmq_setsockopt(void *h, int option, const void *v, size_t n) {
  auto *s = static_cast<zmq_model::Socket *>(h);
  const auto *b = static_cast<const uint8_t *>(v);
  if (option == ZMQ_SUBSCRIBE && s->type == ZMQ_SUB) s->subscriptions.emplace_back(b, b + n);
  return 0;
}
int zmq_getsockopt(void *h, int option, void *v, size_t *n) {
  auto *s = static_cast<zmq_model::Socket *>(h);
  int r = 0;
  if (option == ZMQ_EVENTS) r = (zmq_model::readable(s) ? ZMQ_POLLIN : 0) | ZMQ_POLLOUT;
  else if (option == ZMQ_RCVMORE) r = s->type == ZMQ_ROUTER && !s->in.empty();
  else if (option == ZMQ_TYPE) r = s->type;
  memcpy(v, &r, sizeof r);
  *n = sizeof r;
  return 0;
}
int zmq_msg_init(zmq_msg_t *m) { zmq_model::get(m) = {nullptr, 0, false}; return 0; }
int zmq_msg_init_size(zmq_msg_t *m, size_t n) { zmq_model::get(m) = {static_cast<uint8_t *>(malloc(n ? n : 1)), n, false}; return 0; }
int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *f, void *hint) {
  zmq_msg_init_size(m, n);
  memcpy(zmq_model::get(m).data, d, n);
  if (f) f(d, hint);
  return 0;
}
int zmq_msg_close(zmq_msg_t *m) { free(zmq_model::get(m).data); return zmq_msg_init(m); }
int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) { free(zmq_model::get(d).data); zmq_model::get(d) = zmq_model::get(s); return zmq_msg_init(s); }
int zmq_msg_copy(zmq_msg_t *d, zmq_msg_t *s) {
  free(zmq_model::get(d).data);
  zmq_msg_init_size(d, zmq_model::get(s).size);
  memcpy(zmq_model::get(d).data, zmq_model::get(s).data, zmq_model::get(s).size);
  zmq_model::get(d).more = zmq_model::get(s).more;
  return 0;
}
void *zmq_msg_data(zmq_msg_t *m) { return zmq_model::get(m).data; }
size_t zmq_msg_size(const zmq_msg_t *m) { return zmq_model::get(const_cast<zmq_msg_t *>(m)).size; }
int zmq_msg_more(const zmq_msg_t *m) { return zmq_model::get(const_cast<zmq_msg_t *>(m)).more; }
int zmq_msg_get(const zmq_msg_t *m, int option) { return option == ZMQ_MORE ? zmq_msg_more(m) : 0; }
int zmq_msg_send(zmq_msg_t *m, void *h, int flags) {
  const int r = zmq_model::put(static_cast<zmq_model::Socket *>(h), zmq_model::get(m).data, zmq_model::get(m).size, flags);
  if (r >= 0) zmq_msg_close(m);
  return r;
}
int zmq_send(void *h, const void *d, size_t n, int flags) { return zmq_model::put(static_cast<zmq_model::Socket *>(h), static_cast<const uint8_t *>(d), n, flags); }
int zmq_msg_recv(zmq_msg_t *m, void *h, int flags) {
  auto *s = static_cast<zmq_model::Socket *>(h);
  if ((flags & ZMQ_DONTWAIT) && zmq_model::refuse()) return -1;
  zmq_model::fetch(s);
  if (s->in.empty()) {
    ks::check(flags & ZMQ_DONTWAIT, "a blocking receive has something to receive");
    zmq_model::world().error = EAGAIN;
    return -1;
  }
  auto &p = s->in.front();
  const size_t n = p.data.size();
  free(zmq_model::get(m).data);
  zmq_msg_init_size(m, n);
  memcpy(zmq_model::get(m).data, p.data.data(), n);
  zmq_model::get(m).more = p.more;
  s->in.pop_front();
  return int(n);
}
int zmq_recv(void *h, void *d, size_t n, int flags) {
  zmq_msg_t m;
  zmq_msg_init(&m);
  const int r = zmq_msg_recv(&m, h, flags);
  if (r > 0) memcpy(d, zmq_msg_data(&m), size_t(r) < n ? size_t(r) : n);
  zmq_msg_close(&m);
  return r;
}
int zmq_poll(zmq_pollitem_t *items, int n, long) {
  int ready = 0;
  for (int i = 0; i < n; i++) {
    auto *s = static_cast<zmq_model::Socket *>(items[i].socket);
    items[i].revents = 0;
    if ((items[i].events & ZMQ_POLLIN) && zmq_model::readable(s)) items[i].revents |= ZMQ_POLLIN;
    if ((items[i].events & ZMQ_POLLOUT)) items[i].revents |= ZMQ_POLLOUT;
    ready += items[i].revents != 0;
  }
  return ready;
}
void zmq_version(int *a, int *b, int *c) { *a = 4; *b = 3; *c = 5; }
}
