#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef future
#undef async
#undef launch
#undef deque
#undef sleep_for
#include "simsock.h"
#include <signal.h>
#include <cstdarg>
#include <poll.h>
#include <sys/uio.h>

namespace sim {
std::vector<std::string> problems;
namespace {
const int BASE = 500;
struct End { std::deque<unsigned char> in; bool closed = false, wr_shut = false, rd_shut = false; int lost = 0; };
struct Conn { End e[2]; bool failed = false, loopback = false; int host[2] = {0, 0}; int who[2] = {0, 0}; };
struct Sock {
  bool open = false, listening = false;
  int host = 0, port = 0;
  std::size_t backlog = 0;
  std::shared_ptr<std::deque<int>> queue;     // accepted-side descriptors not handed out yet
  std::shared_ptr<Conn> conn;
  int side = 0, who = 0;
  int generation = 0;
};
std::vector<Sock> S;
Config C;
std::map<std::pair<int, int>, std::pair<long, long>> T;

int fresh() {
  for (std::size_t i = 0; i < S.size(); i++) if (!S[i].open) { int g = S[i].generation; S[i] = Sock(); S[i].generation = g + 1; S[i].open = true; return BASE + (int)i; }
  S.emplace_back();
  S.back().open = true;
  return BASE + (int)S.size() - 1;
}
Sock* at(int fd) {
  if (fd < BASE || fd >= BASE + (int)S.size() || !S[fd - BASE].open) return nullptr;
  return &S[fd - BASE];
}
ssize_t fail(int e) { errno = e; return -1; }
std::size_t amount(std::size_t k) {
  if (!C.shorts || k <= 1) return k;
  int c = coop::choose(k > 2 ? 3 : 2);
  return c == 0 ? k : c == 1 ? 1 : k / 2;
}
}  // namespace

void reset(const Config& c) { S.clear(); S.reserve(4096); T.clear(); C = c; problems.clear(); }
std::pair<int, int> pair(int ha, int hb) {
  auto c = std::make_shared<Conn>();
  int a = fresh(), b = fresh();
  c->host[0] = ha; c->host[1] = hb;
  S[a - BASE].conn = c; S[a - BASE].side = 0; S[a - BASE].host = ha;
  S[b - BASE].conn = c; S[b - BASE].side = 1; S[b - BASE].host = hb;
  return {a, b};
}
void abort_connection(int fd) { auto* s = at(fd); if (s && s->conn) s->conn->failed = true; }
std::pair<long, long> traffic(int from, int to) { return T[{from, to}]; }
int open_sockets() { int n = 0; for (auto& s : S) n += s.open; return n; }
int listeners() { int n = 0; for (auto& s : S) n += s.open && s.listening; return n; }
bool is_open(int fd) { return at(fd) != nullptr; }
std::string peer_of(int fd) { auto* s = at(fd); return s && s->conn ? "10.0.0." + std::to_string(s->conn->host[1 - s->side] + 1) : ""; }

ssize_t do_read(int fd, void* dst, std::size_t n) {
  coop::point();
  auto* s = at(fd);
  if (!s) return fail(EBADF);
  if (!s->conn) return fail(ENOTCONN);
  auto c = s->conn;
  auto& me = c->e[s->side];
  auto& peer = c->e[1 - s->side];
  if (!n) return 0;
  coop::wait_until([&] { return !me.in.empty() || peer.closed || peer.wr_shut || c->failed || me.rd_shut; });
  if (c->failed) return fail(ECONNRESET);
  if (me.in.empty()) return 0;
  std::size_t k = amount(std::min(n, me.in.size()));
  for (std::size_t i = 0; i < k; i++) { ((unsigned char*)dst)[i] = me.in.front(); me.in.pop_front(); }
  T[{c->who[1 - s->side], c->who[s->side]}].second += (long)k;
  return (ssize_t)k;
}

ssize_t do_write(int fd, const void* src, std::size_t n, bool nosignal) {
  coop::point();
  auto* s = at(fd);
  if (!s) return fail(EBADF);
  if (!s->conn) return fail(ENOTCONN);
  auto c = s->conn;
  auto& me = c->e[s->side];
  auto& peer = c->e[1 - s->side];
  if (!n) return 0;
  auto broken = [&]() -> ssize_t {
    struct sigaction sa;
    sigaction(SIGPIPE, nullptr, &sa);
    if (!nosignal && sa.sa_handler == SIG_DFL) {
      problems.push_back("killed by SIGPIPE");
      coop::bad("the process is killed: it wrote to a connection whose peer is gone");
    }
    return fail(EPIPE);
  };
  if (me.wr_shut || c->failed) return c->failed && me.lost++ == 0 ? fail(ECONNRESET) : broken();
  if (peer.closed) {     // the first write after the peer is gone may seem to work
    if (me.lost++ == 0) return (ssize_t)amount(n);
    return broken();
  }
  coop::wait_until([&] { return peer.in.size() < C.capacity || peer.closed || c->failed; });
  if (c->failed) return fail(ECONNRESET);
  if (peer.closed) { me.lost++; return (ssize_t)n; }
  std::size_t k = amount(std::min(n, C.capacity - peer.in.size()));
  for (std::size_t i = 0; i < k; i++) peer.in.push_back(((const unsigned char*)src)[i]);
  T[{c->who[s->side], c->who[1 - s->side]}].first += (long)k;
  return (ssize_t)k;
}

ssize_t do_peek(int fd, void* dst, std::size_t n, bool all) {
  coop::point();
  auto* s = at(fd);
  if (!s) return fail(EBADF);
  if (!s->conn) return fail(ENOTCONN);
  auto c = s->conn;
  auto& me = c->e[s->side];
  auto& peer = c->e[1 - s->side];
  std::size_t want = all ? std::min(n, C.capacity) : std::min<std::size_t>(n, 1);
  coop::wait_until([&] { return me.in.size() >= want || peer.closed || peer.wr_shut || c->failed || me.rd_shut; });
  if (c->failed) return fail(ECONNRESET);
  std::size_t k = std::min(n, me.in.size());
  for (std::size_t i = 0; i < k; i++) ((unsigned char*)dst)[i] = me.in[i];
  return (ssize_t)k;
}

int do_close(int fd) {
  coop::point();
  auto* s = at(fd);
  if (!s) return (int)fail(EBADF);
  if (s->conn) s->conn->e[s->side].closed = true;
  if (s->listening) {
    for (int q : *s->queue) if (at(q)) { at(q)->conn->failed = true; at(q)->open = false; }
    s->queue->clear();
  }
  s->open = false;
  s->listening = false;
  s->conn.reset();
  return 0;
}

int do_shutdown(int fd, int how) {
  coop::point();
  auto* s = at(fd);
  if (!s) return (int)fail(EBADF);
  if (!s->conn) return (int)fail(ENOTCONN);
  if (how != SHUT_RD) s->conn->e[s->side].wr_shut = true;
  if (how != SHUT_WR) s->conn->e[s->side].rd_shut = true;
  return 0;
}

int host_of(uint32_t addr) {     // network byte order
  uint32_t a = ntohl(addr);
  if (a == 0 || a == 0x7f000001u) return coop::tag() % 256;
  if ((a >> 8) == 0x0a0000u) return (int)(a & 255) - 1;
  return -1;
}

}  // namespace sim

extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)
using namespace sim;

REAL(ssize_t, read, int fd, void* b, size_t n) { return coop::active() && fd >= BASE ? do_read(fd, b, n) : __real_read(fd, b, n); }
REAL(ssize_t, recv, int fd, void* b, size_t n, int f) {
  if (!coop::active() || fd < BASE) return __real_recv(fd, b, n, f);
  if (f & MSG_PEEK) return do_peek(fd, b, n, f & MSG_WAITALL);
  if (f & MSG_WAITALL) {
    std::size_t o = 0;
    while (o < n) { ssize_t k = do_read(fd, (char*)b + o, n - o); if (k <= 0) return o ? (ssize_t)o : k; o += k; }
    return (ssize_t)o;
  }
  return do_read(fd, b, n);
}
REAL(ssize_t, write, int fd, const void* b, size_t n) { return coop::active() && fd >= BASE ? do_write(fd, b, n, false) : __real_write(fd, b, n); }
REAL(ssize_t, send, int fd, const void* b, size_t n, int f) {
  return coop::active() && fd >= BASE ? do_write(fd, b, n, f & MSG_NOSIGNAL) : __real_send(fd, b, n, f);
}
REAL(int, close, int fd) { return coop::active() && fd >= BASE ? do_close(fd) : __real_close(fd); }
REAL(int, shutdown, int fd, int how) { return coop::active() && fd >= BASE ? do_shutdown(fd, how) : __real_shutdown(fd, how); }

REAL(int, socket, int d, int t, int p) {
  if (!coop::active()) return __real_socket(d, t, p);
  coop::point();
  int fd = fresh();
  at(fd)->host = coop::tag() % 256;
  at(fd)->who = coop::tag() / 256;
  return fd;
}
REAL(int, setsockopt, int fd, int l, int o, const void* v, socklen_t n) { return coop::active() && fd >= BASE ? (at(fd) ? 0 : (int)fail(EBADF)) : __real_setsockopt(fd, l, o, v, n); }
REAL(int, bind, int fd, const struct sockaddr* a, socklen_t n) {
  if (!coop::active() || fd < BASE) return __real_bind(fd, a, n);
  auto* s = at(fd);
  if (!s) return (int)fail(EBADF);
  s->port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  return 0;
}
REAL(int, listen, int fd, int backlog) {
  if (!coop::active() || fd < BASE) return __real_listen(fd, backlog);
  coop::point();
  auto* s = at(fd);
  if (!s) return (int)fail(EBADF);
  s->listening = true;
  s->backlog = (std::size_t)(backlog < 0 ? 0 : backlog);
  s->queue = std::make_shared<std::deque<int>>();
  return 0;
}
static void name_peer(int fd, struct sockaddr* a, socklen_t* n) {
  auto* s = at(fd);
  struct sockaddr_in in;
  memset(&in, 0, sizeof in);
  in.sin_family = AF_INET;
  in.sin_port = htons((uint16_t)(40000 + fd));
  in.sin_addr.s_addr = htonl(s->conn->loopback ? 0x7f000001u : 0x0a000001u + (uint32_t)s->conn->host[1 - s->side]);
  memcpy(a, &in, std::min<std::size_t>(sizeof in, n ? *n : sizeof in));
  if (n) *n = sizeof in;
}
REAL(int, accept, int fd, struct sockaddr* a, socklen_t* n) {
  if (!coop::active() || fd < BASE) return __real_accept(fd, a, n);
  coop::point();
  auto* s = at(fd);
  if (!s || !s->listening) return (int)fail(EINVAL);
  auto q = s->queue;
  coop::wait_until([q] { return !q->empty(); });
  int i = coop::choose((int)q->size());      // usually in order of arrival
  int r = (*q)[i];
  q->erase(q->begin() + i);
  if (a) name_peer(r, a, n);
  return r;
}
REAL(int, connect, int fd, const struct sockaddr* a, socklen_t n) {
  if (!coop::active() || fd < BASE) return __real_connect(fd, a, n);
  coop::point();
  auto* s = at(fd);
  if (!s) return (int)fail(EBADF);
  if (s->conn) return (int)fail(EISCONN);
  auto* in = (const struct sockaddr_in*)a;
  int host = host_of(in->sin_addr.s_addr), port = ntohs(in->sin_port);
  if (host < 0) return (int)fail(ENETUNREACH);
  auto find = [&]() -> Sock* {
    for (auto& l : S) if (l.open && l.listening && l.host == host && l.port == port) return &l;
    return nullptr;
  };
  if (!find()) return (int)fail(ECONNREFUSED);
  coop::wait_until([&] { auto* l = find(); return !l || l->queue->size() < l->backlog + 1; });
  auto* l = find();
  if (!l) return (int)fail(ECONNREFUSED);
  auto c = std::make_shared<Conn>();
  c->host[0] = coop::tag() % 256;
  c->who[0] = coop::tag() / 256;
  c->who[1] = l->who;
  c->loopback = ntohl(in->sin_addr.s_addr) == 0x7f000001u;
  c->host[1] = host;
  auto queue = l->queue;
  int other = fresh();
  s = at(fd);
  s->conn = c; s->side = 0;
  at(other)->conn = c; at(other)->side = 1; at(other)->host = host;
  queue->push_back(other);
  return 0;
}

// the other ways to say the same
REAL(ssize_t, sendto, int fd, const void* b, size_t n, int f, const struct sockaddr* a, socklen_t l) {
  return coop::active() && fd >= BASE ? __wrap_send(fd, b, n, f) : __real_sendto(fd, b, n, f, a, l);
}
REAL(ssize_t, recvfrom, int fd, void* b, size_t n, int f, struct sockaddr* a, socklen_t* l) {
  return coop::active() && fd >= BASE ? __wrap_recv(fd, b, n, f) : __real_recvfrom(fd, b, n, f, a, l);
}
REAL(ssize_t, writev, int fd, const struct iovec* v, int n) {
  if (!coop::active() || fd < BASE) return __real_writev(fd, v, n);
  std::string all;
  for (int i = 0; i < n; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return do_write(fd, all.data(), all.size(), false);
}
REAL(ssize_t, sendmsg, int fd, const struct msghdr* m, int f) {
  if (!coop::active() || fd < BASE) return __real_sendmsg(fd, m, f);
  std::string all;
  for (size_t i = 0; i < m->msg_iovlen; i++) all.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return do_write(fd, all.data(), all.size(), f & MSG_NOSIGNAL);
}
static ssize_t scatter(int fd, const struct iovec* v, size_t n, int f) {
  size_t all = 0;
  for (size_t i = 0; i < n; i++) all += v[i].iov_len;
  std::string got(all, '\0');
  ssize_t k = __wrap_recv(fd, &got[0], all, f);
  size_t o = 0;
  for (size_t i = 0; i < n && k > 0 && o < (size_t)k; i++) {
    size_t m = std::min(v[i].iov_len, (size_t)k - o);
    memcpy(v[i].iov_base, got.data() + o, m);
    o += m;
  }
  return k;
}
REAL(ssize_t, readv, int fd, const struct iovec* v, int n) {
  return coop::active() && fd >= BASE ? scatter(fd, v, (size_t)n, 0) : __real_readv(fd, v, n);
}
REAL(ssize_t, recvmsg, int fd, struct msghdr* m, int f) {
  return coop::active() && fd >= BASE ? scatter(fd, m->msg_iov, m->msg_iovlen, f) : __real_recvmsg(fd, m, f);
}
REAL(int, accept4, int fd, struct sockaddr* a, socklen_t* n, int f) {
  return coop::active() && fd >= BASE ? __wrap_accept(fd, a, n) : __real_accept4(fd, a, n, f);
}
REAL(int, getpeername, int fd, struct sockaddr* a, socklen_t* n) {
  if (!coop::active() || fd < BASE) return __real_getpeername(fd, a, n);
  auto* s = at(fd);
  if (!s || !s->conn) return (int)fail(s ? ENOTCONN : EBADF);
  return name_peer(fd, a, n), 0;
}
REAL(int, poll, struct pollfd* p, nfds_t n, int ms) {
  if (!coop::active() || !n || p[0].fd < BASE) return __real_poll(p, n, ms);
  coop::point();
  auto look = [=] {
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      auto* s = at(p[i].fd);
      if (!s) p[i].revents = POLLNVAL;
      else if (s->listening) { if (!s->queue->empty()) p[i].revents = POLLIN; }
      else if (!s->conn) p[i].revents = POLLHUP;
      else {
        auto& me = s->conn->e[s->side];
        auto& peer = s->conn->e[1 - s->side];
        if (s->conn->failed) p[i].revents = POLLERR | POLLIN | POLLOUT | POLLHUP;
        if (!me.in.empty() || peer.closed || peer.wr_shut) p[i].revents |= POLLIN;
        if (peer.closed || peer.in.size() < C.capacity) p[i].revents |= POLLOUT;
      }
      p[i].revents &= p[i].events | POLLNVAL | POLLERR | POLLHUP;
      k += p[i].revents != 0;
    }
    return k;
  };
  if (ms < 0) coop::wait_until([=] { return look() > 0; });
  else if (!look() && ms > 0) coop::doze([=] { return look() > 0; }, (long)ms * 1000000);
  return look();
}
}
