// Typed messages: sequences of values over real channels, and receives of announced sizes.
#include <errno.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <atomic>
#include <cstdlib>
#include <iostream>
#include <mutex>
#include <new>
#include <random>
#include <sstream>
#include <thread>
#include "scl/net/mem_channel.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/threaded_sender.h"
#include "math_common.h"
using std::string;

static std::atomic<std::size_t> most{0};
static std::atomic<bool> watch{false};
void* operator new(std::size_t n) {
  if (watch && n > most) most = n;
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }

static std::atomic<unsigned long> shorten{0};        // 0: leave the calls alone
static std::size_t cut(std::size_t n) {
  static thread_local std::mt19937_64 g(shorten.load() * 7919 + std::hash<std::thread::id>()(std::this_thread::get_id()));
  if (!shorten || n < 2) return n;
  return g() % 3 ? 1 + g() % n : n;
}
extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__); ret __wrap_##name(__VA_ARGS__)
REAL(ssize_t, read, int fd, void* b, size_t n) { return __real_read(fd, b, cut(n)); }
REAL(ssize_t, write, int fd, const void* b, size_t n) { return __real_write(fd, b, cut(n)); }
REAL(ssize_t, recv, int fd, void* b, size_t n, int f) { return __real_recv(fd, b, (f & MSG_WAITALL) ? n : cut(n), f); }
REAL(ssize_t, send, int fd, const void* b, size_t n, int f) { return __real_send(fd, b, cut(n), f); }
}

using M61 = scl::FF<61>;
using M127 = scl::FF<127>;
using Z5 = scl::Z2k<5>;
using Z61 = scl::Z2k<61>;
using Z128 = scl::Z2k<128>;
using S7 = Small<7>;
struct Pod { char a; int b; double c; };
enum class Colour : short { red = 3, green = -5 };

// ---- making, showing, sending and receiving a value of type A
template <typename T> T make(std::mt19937_64& g) {
  unsigned char b[64];
  for (auto& x : b) x = (unsigned char)g();
  return T::Read(b);
}
template <> unsigned char make(std::mt19937_64& g) { return (unsigned char)g(); }
template <> int make(std::mt19937_64& g) { return (int)g(); }
template <> unsigned long make(std::mt19937_64& g) { return g(); }
template <> double make(std::mt19937_64& g) { return (double)(long)g(); }
template <> Colour make(std::mt19937_64& g) { return g() % 2 ? Colour::red : Colour::green; }
template <> Pod make(std::mt19937_64& g) { return Pod{(char)g(), (int)g(), (double)(int)g()}; }
template <typename T> string show(const T& x) {
  if constexpr (std::is_same_v<T, Pod>) return std::to_string((int)x.a) + "/" + std::to_string(x.b) + "/" + std::to_string(x.c);
  else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>) return hex((const unsigned char*)&x, sizeof x);
  else return raw_bytes(x);
}
// what: 's' one value, 'v' std::vector, 'V' scl::Vec, 'M' scl::Mat; a, b: sizes
template <typename T>
string handle(scl::Channel& ch, bool send, char what, int a, int b, unsigned long seed, const std::function<void(const string&)>& before) {
  std::mt19937_64 g(seed);
  if (what == 's') {
    T x = make<T>(g);
    if (send) { before(show(x)); ch.Send(x); return ""; }
    T y = make<T>(g);
    ch.Recv(y);
    return show(y);
  }
  string o;
  if (what == 'v') {
    std::vector<T> x;
    for (int i = 0; i < a; i++) x.push_back(make<T>(g));
    if (send) {
      for (auto& e : x) o += show(e) + " ";
      before(o);
      ch.Send(x);
      return "";
    }
    for (auto& e : x) e = make<T>(g);
    ch.Recv(x);
    if ((int)x.size() != a) o = "resized ";
    for (auto& e : x) o += show(e) + " ";
    return o;
  }
  if constexpr (!std::is_arithmetic_v<T> && !std::is_enum_v<T> && !std::is_same_v<T, Pod>) {
    if (what == 'V') {
      if (send) {
        std::vector<T> x;
        for (int i = 0; i < a; i++) x.push_back(make<T>(g));
        scl::Vec<T> v(x);
        o = std::to_string(a) + ":";
        for (auto& e : x) o += show(e) + " ";
        before(o);
        ch.Send(v);
        return "";
      }
      scl::Vec<T> v(g() % 4);
      ch.Recv(v);
      o = std::to_string(v.Size()) + ":";
      for (std::size_t i = 0; i < v.Size(); i++) o += show(v[i]) + " ";
      return o;
    }
    if (send) {
      scl::Mat<T> m(a, b);
      o = std::to_string(a) + "x" + std::to_string(b) + ":";
      for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { m(i, j) = make<T>(g); o += show(m(i, j)) + " "; }
      before(o);
      ch.Send(m);
      return "";
    }
    scl::Mat<T> m(1 + g() % 3, 1 + g() % 3);
    ch.Recv(m);
    o = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols()) + ":";
    for (std::size_t i = 0; i < m.Rows(); i++) for (std::size_t j = 0; j < m.Cols(); j++) o += show(m(i, j)) + " ";
    return o;
  }
  _exit(6);
}
static string dispatch(scl::Channel& ch, bool send, const string& type, char what, int a, int b, unsigned long seed, const std::function<void(const string&)>& before) {
#define T(name, ...) if (type == name) return handle<__VA_ARGS__>(ch, send, what, a, b, seed, before)
  T("u8", unsigned char); T("i32", int); T("u64", unsigned long); T("f64", double); T("enum", Colour); T("pod", Pod);
  T("m61", M61); T("m127", M127); T("z5", Z5); T("z61", Z61); T("z128", Z128); T("s7", S7);
#undef T
  _exit(7);
}

// ---- a connection whose far end announces sizes and goes on sending for ever
struct Feed final : scl::Channel {
  std::vector<unsigned char> head;
  unsigned long long read = 0;
  static unsigned char at(unsigned long long i) { return (unsigned char)((i * 37 + i / 200 * 11 + 5) % 251); }
  void Close() override {}
  void Send(const unsigned char*, std::size_t) override { _exit(8); }
  void Recv(unsigned char* d, std::size_t n) override {
    if (n > (1u << 31)) throw std::runtime_error("too much");
    for (std::size_t i = 0; i < n; i++, read++) d[i] = read < head.size() ? head[read] : at(read - head.size());
  }
};
template <typename T>
string announced(char what, unsigned long a, unsigned long b) {
  Feed f;
  auto put = [&](unsigned long x) { for (int i = 0; i < 4; i++) f.head.push_back((unsigned char)(x >> (8 * i))); };
  put(a);
  if (what == 'M') put(b);
  scl::Vec<T> v;
  scl::Mat<T> m(1, 1);
  int ok = 1;
  most = 0;
  watch = true;
  try {
    if (what == 'V') f.scl::Channel::Recv(v); else f.scl::Channel::Recv(m);
  } catch (const std::exception&) { ok = 0; }
  watch = false;
  unsigned long r = what == 'V' ? v.Size() : m.Rows(), c = what == 'V' ? 0 : m.Cols();
  string data = "", sent = "";
  if (ok) {
    unsigned long n = what == 'V' ? r : r * c;
    std::vector<unsigned char> e(T::ByteSize());
    for (unsigned long i = 0; i < n; i++) {
      for (std::size_t k = 0; k < e.size(); k++) e[k] = Feed::at(i * e.size() + k);
      T x = T::Read(e.data());
      T y = what == 'V' ? v[i] : m(i / c, i % c);
      if (n <= 64) { data += show(y) + " "; sent += show(x) + " "; }
      else if (!(x == y)) { data = "different at " + std::to_string(i); break; }
    }
  }
  auto pr = [](unsigned long x) { return "[" + std::to_string(x >> 25) + "," + std::to_string(x & ((1 << 25) - 1)) + "]"; };
  auto two = [&](unsigned long x, unsigned long y) { return "[" + pr(x) + (what == 'M' ? "," + pr(y) : "") + "]"; };
  long limit = what == 'V' ? long(MAX_VEC_READ_SIZE) : long(MAX_MAT_READ_SIZE);
  auto clip = [](unsigned long long x) { return std::to_string(std::min<unsigned long long>(x, 2000000000)); };
  return "{\"kind\":\"" + string(1, what) + "\",\"limit\":" + std::to_string(limit) + ",\"dims\":" + two(a, b) + ",\"read\":" + clip(f.read) +
         ",\"most\":" + clip(most) + ",\"ok\":" + std::to_string(ok) + ",\"got\":" + (ok ? two(r, c) : "[]") + ",\"bytes\":" +
         std::to_string(T::ByteSize()) + ",\"data\":\"" + data + "\",\"sent\":\"" + sent + "\"}";
}
static string announce(const string& type, char what, unsigned long a, unsigned long b) {
#define T(name, ...) if (type == name) return announced<__VA_ARGS__>(what, a, b)
  T("m61", M61); T("m127", M127); T("z5", Z5); T("z128", Z128); T("s7", S7);
#undef T
  _exit(7);
}

struct Op { bool send; int end; string type; char what; int a, b; unsigned long seed; };

int main() {
  string line;
  // seq NAME KIND0 KIND1 SEED N, then a line per thread: end n-ops, ops ...; or: ann TYPE WHAT A B
  std::vector<string> batch;
  auto flush = [&] {
    std::size_t done = 0;
    while (done < batch.size()) {
      auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
        struct rlimit rl{3ul << 30, 3ul << 30};
        setrlimit(RLIMIT_AS, &rl);
        for (std::size_t i = done; i < batch.size(); i++) {
          std::istringstream is(batch[i]);
          string type, what;
          unsigned long a, b;
          is >> type >> what >> a >> b;
          emit(announce(type, what[0], a, b));
        }
        _exit(0);
      }, 120);
      for (auto& x : out) std::cout << "ann\t" << x << "\n";
      if (out.empty()) _exit(9);
      done += out.size();
    }
    batch.clear();
  };
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name, k0, k1;
    is >> kw;
    if (kw == "ann") { string rest; std::getline(is, rest); batch.push_back(rest); continue; }
    unsigned long seed;
    is >> k0 >> k1 >> seed;
    std::vector<std::vector<Op>> prog;
    while (std::getline(std::cin, line) && line != "end") {
      std::istringstream ls(line);
      prog.emplace_back();
      Op o;
      while (ls >> o.send >> o.end >> o.type >> o.what >> o.a >> o.b >> o.seed) prog.back().push_back(o);
    }
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      std::shared_ptr<scl::Channel> ch[2];
      if (k0 == "mem") {
        auto p = scl::InMemoryChannel::CreatePaired();
        ch[0] = p[0]; ch[1] = p[1];
      } else if (k0 == "self") {
        ch[0] = scl::InMemoryChannel::CreateSelfConnecting();
      } else {
        int fd[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) _exit(5);
        const string* k[2] = {&k0, &k1};
        for (int i = 0; i < 2; i++)
          if (*k[i] == "tcp") ch[i] = std::make_shared<scl::TcpChannel>(fd[i]);
          else ch[i] = std::make_shared<scl::ThreadedSenderChannel>(fd[i]);
      }
      shorten = seed;
      std::mutex m;
      string hist;
      bool self = k0 == "self";
      std::vector<std::thread> th;
      for (auto& p : prog)
        th.emplace_back([&] {
          for (auto& o : p) {
            auto log = [&](char k, int d, string v) {
              if (v.size() > 6000) {
                unsigned long h = 1469598103934665603ul;
                for (unsigned char x : v) h = (h ^ x) * 1099511628211ul;
                v = v.substr(0, 40) + "... " + std::to_string(v.size()) + " " + std::to_string(h);
              }
              std::lock_guard<std::mutex> l(m);
              hist += (hist.empty() ? "" : ",") + string("[\"") + k + "\"," + std::to_string(d) + ",\"" + o.what + o.type + "\",\"" + v + "\"]";
            };
            string v = dispatch(*ch[o.end], o.send, o.type, o.what, o.a, o.b, o.seed, [&](const string& x) { log('s', o.end, x); });
            if (!o.send) log('r', self ? 0 : 1 - o.end, v);
          }
        });
      for (auto& t : th) t.join();
      emit("{\"ev\":[" + hist + "],\"done\":1,\"ann\":{}}");
      _exit(0);
    }, 60);
    for (auto& x : out) std::cout << "seq\t" << x << "\n";
    std::cout << "seq\tdone\n";
  }
  flush();
}
