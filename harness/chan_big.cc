// Long messages over real sockets and real threads; the kernel's short reads and writes are simulated.
#include <errno.h>
#include <sys/socket.h>
#include <atomic>
#include <iostream>
#include <mutex>
#include <random>
#include <sstream>
#include <thread>
#include "scl/net/mem_channel.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/threaded_sender.h"
#include "util.h"
using std::string;

static std::atomic<unsigned long> shorten{0};        // 0: leave the calls alone
static std::size_t cut(std::size_t n) {
  static thread_local std::mt19937_64 g(shorten.load() * 7919 + std::hash<std::thread::id>()(std::this_thread::get_id()));
  if (!shorten || n < 2) return n;
  switch (g() % 4) {
    case 0: return 1 + g() % n;
    case 1: return 1 + g() % std::min<std::size_t>(n, 64);
    case 2: return 1 + g() % std::min<std::size_t>(n, 70000);
    default: return n;
  }
}
extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)
REAL(ssize_t, read, int fd, void* b, size_t n) { return __real_read(fd, b, cut(n)); }
REAL(ssize_t, write, int fd, const void* b, size_t n) { return __real_write(fd, b, cut(n)); }
REAL(ssize_t, recv, int fd, void* b, size_t n, int f) { return __real_recv(fd, b, (f & MSG_WAITALL) ? n : cut(n), f); }
REAL(ssize_t, send, int fd, const void* b, size_t n, int f) { return __real_send(fd, b, cut(n), f); }
}

static unsigned char code(int dir, long k) { return (unsigned char)((k * 7 + k / 251 + dir * 101 + 3) % 251); }
struct Op { char k; long n; };
struct Thread { int end; std::vector<Op> ops; };

int main() {
  string line;
  // run NAME KIND0 KIND1 SEED, then a line per thread: END op op ...
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name, k0, k1;
    unsigned long seed;
    is >> kw >> name >> k0 >> k1 >> seed;
    std::vector<Thread> prog;
    while (std::getline(std::cin, line) && line != "end") {
      std::istringstream ls(line);
      prog.emplace_back();
      ls >> prog.back().end;
      string w;
      while (ls >> w) prog.back().ops.push_back({w[0], w.size() > 1 ? std::stol(w.substr(1)) : 0});
    }
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      std::shared_ptr<scl::Channel> ch[2];
      shorten = seed;
      if (k0 == "mem") {
        auto p = scl::InMemoryChannel::CreatePaired();
        ch[0] = p[0]; ch[1] = p[1];
      } else if (k0 == "self") {
        ch[0] = scl::InMemoryChannel::CreateSelfConnecting();
      } else {
        int fd[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) _exit(5);
        int sz = 4096;
        for (int i = 0; i < 2; i++) setsockopt(fd[i], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
        const string* k[2] = {&k0, &k1};
        for (int i = 0; i < 2; i++)
          if (*k[i] == "tcp") ch[i] = std::make_shared<scl::TcpChannel>(fd[i]);
          else ch[i] = std::make_shared<scl::ThreadedSenderChannel>(fd[i]);
      }
      std::mutex m;
      string hist;
      auto ev = [&](int t, int k, char op, int end, long n, int ok, const string& data) {
        std::lock_guard<std::mutex> l(m);
        hist += "[" + std::to_string(t) + "," + std::to_string(k) + ",\"" + op + "\"," + std::to_string(end) + "," +
                std::to_string(n) + "," + std::to_string(ok) + ",[" + data + "]],";
      };
      long sent[2] = {0, 0}, got[2] = {0, 0};
      std::vector<std::thread> th;
      for (int t = 0; t < (int)prog.size(); t++)
        th.emplace_back([&, t] {
          int e = prog[t].end;
          for (auto& op : prog[t].ops) {
            ev(t + 1, 0, op.k == 'r' ? 'R' : op.k, e, op.n, 1, "");
            int ok = 1;
            string data;
            try {
              if (op.k == 's') {
                std::vector<unsigned char> b(op.n);
                for (long i = 0; i < op.n; i++) b[i] = code(e, sent[e] + i);
                sent[e] += op.n;
                ch[e]->Send(b.data(), (std::size_t)op.n);
                std::fill(b.begin(), b.end(), 252);
              } else if (op.k == 'r') {
                std::vector<unsigned char> b(op.n, 253);
                ch[e]->Recv(b.data(), (std::size_t)op.n);
                int d = k0 == "self" ? 0 : 1 - e;
                long at = got[e];
                for (long i = 0; i < op.n && at >= 0; i++) if (b[i] != code(d, got[e] + i)) at = -1;
                got[e] += op.n;
                if (op.n) data = std::to_string(at);
              } else if (op.k == 'c') ch[e]->Close();
              else if (op.k == 'x') ch[e].reset();
            } catch (const std::exception&) { ok = 0; }
            ev(t + 1, 1, op.k == 'r' ? 'R' : op.k, e, op.n, ok, data);
          }
        });
      for (auto& t : th) t.join();
      emit("{\"ev\":[" + hist + "[0,2,\"end\",0,0,0,[]]],\"blocked\":[],\"trouble\":\"\"}");
      _exit(0);
    }, 60);
    for (auto& x : out) std::cout << name << "\t" << x << "\n";
    std::cout << name << "\tdone\n" << std::flush;
  }
}
