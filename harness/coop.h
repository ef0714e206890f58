// Force-included before every source (-include coop.h): the threads, locks, condition variables, futures
// and deques of the code under test become those of a cooperative scheduler, which runs one schedule at a
// time and can be told which thread goes next at every step.
#pragma once
#include <bits/stdc++.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/types.h>
#include <unistd.h>

namespace coop {
void point();                                    // another thread may run here
void wait_until(const std::function<bool()>& p);  // blocks the current thread until p holds
int choose(int n);                               // any of n outcomes; 0 is the usual one
int pick(int n);                                 // any of n outcomes, all equally usual
int spawn(std::function<void()> f);              // starts a thread, returns its number
bool finished(int t);
int self();
void nap(long ns = 0);                           // a sleep: everyone else who can do something goes first
void doze(const std::function<bool()>& p, long ns);   // a sleep that ends early when p holds
long& now();                                     // nanoseconds since the start of the run; passes only when everyone sleeps
void bad(const std::string& what);               // a misuse that no correct code commits
int &tag();                                      // a number of the current thread that its children inherit
bool active();                                   // inside a scheduled run
}  // namespace coop

namespace std {
namespace chrono {
struct coop_clock {
  using duration = std::chrono::nanoseconds;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<coop_clock>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point(duration(coop::now() += 1000)); }
  static std::time_t to_time_t(const time_point& t) noexcept { return t.time_since_epoch().count() / 1000000000; }
};
}  // namespace chrono
template <typename D>
long coop_ns(const D& d) { return (long)std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }
// true: p holds, false: the time is over
template <typename D, typename P>
bool coop_until(const D& d, P p) {
  if (!p() && coop_ns(d) > 0) coop::doze(p, coop_ns(d));
  return p();
}

class coop_mutex {
 public:
  coop_mutex() = default;
  coop_mutex(const coop_mutex&) = delete;
  coop_mutex& operator=(const coop_mutex&) = delete;
  ~coop_mutex() { if (owner >= 0) coop::bad("mutex destroyed while locked"); owner = -9; }
  void lock() {
    coop::point();
    if (owner == coop::self()) coop::bad("mutex locked twice by one thread");
    coop::wait_until([this] { return owner < 0; });
    owner = coop::self();
  }
  bool try_lock() {
    coop::point();
    if (owner >= 0) return false;
    owner = coop::self();
    return true;
  }
  void unlock() {
    if (owner != coop::self()) coop::bad("mutex unlocked by a thread that does not hold it");
    owner = -1;
    coop::point();
  }
  template <typename D> bool try_lock_for(const D& d) {
    coop::point();
    if (!coop_until(d, [this] { return owner < 0; })) return false;
    owner = coop::self();
    return true;
  }
  int owner = -1;
};

class coop_recursive_mutex {
 public:
  void lock() {
    if (depth && m.owner == coop::self()) { depth++; return; }
    m.lock();
    depth = 1;
  }
  bool try_lock() {
    if (depth && m.owner == coop::self()) { depth++; return true; }
    if (!m.try_lock()) return false;
    depth = 1;
    return true;
  }
  void unlock() { if (--depth == 0) m.unlock(); }
 private:
  coop_mutex m;
  int depth = 0;
};

class coop_condition_variable {
 public:
  coop_condition_variable() = default;
  coop_condition_variable(const coop_condition_variable&) = delete;
  coop_condition_variable& operator=(const coop_condition_variable&) = delete;
  template <typename L>
  void wait(L& lock) {
    auto me = std::make_shared<bool>(coop::choose(2) == 1);   // true: wakes up for no reason
    if (!*me) waiters.push_back(me);
    lock.mutex()->owner = -1;
    coop::wait_until([me] { return *me; });
    auto* m = lock.mutex();
    coop::wait_until([m] { return m->owner < 0; });
    m->owner = coop::self();
  }
  template <typename L, typename P>
  void wait(L& lock, P p) { while (!p()) wait(lock); }
  template <typename L, typename D>
  std::cv_status wait_for(L& lock, const D& d) {
    auto me = std::make_shared<bool>(coop::choose(2) == 1);
    if (!*me) waiters.push_back(me);
    auto* m = lock.mutex();
    m->owner = -1;
    bool woken = coop_until(d, [me] { return *me; });
    if (!woken) waiters.erase(std::remove(waiters.begin(), waiters.end(), me), waiters.end());
    coop::wait_until([m] { return m->owner < 0; });
    m->owner = coop::self();
    return woken ? std::cv_status::no_timeout : std::cv_status::timeout;
  }
  template <typename L, typename D, typename P>
  bool wait_for(L& lock, const D& d, P p) {
    long end = coop::now() + coop_ns(d);
    while (!p()) {
      if (wait_for(lock, std::chrono::nanoseconds(end - coop::now())) == std::cv_status::timeout) return p();
    }
    return true;
  }
  template <typename L, typename T>
  std::cv_status wait_until(L& lock, const T& t) { return wait_for(lock, t - T::clock::now()); }
  template <typename L, typename T, typename P>
  bool wait_until(L& lock, const T& t, P p) { return wait_for(lock, t - T::clock::now(), p); }
  void notify_one() noexcept {
    coop::point();
    if (waiters.empty()) return;
    int i = coop::pick((int)waiters.size());
    *waiters[i] = true;
    waiters.erase(waiters.begin() + i);
  }
  void notify_all() noexcept {
    coop::point();
    for (auto& w : waiters) *w = true;
    waiters.clear();
  }
 private:
  std::vector<std::shared_ptr<bool>> waiters;
};

class coop_thread {
 public:
  coop_thread() = default;
  template <typename F, typename... A>
  explicit coop_thread(F&& f, A&&... a) {
    auto call = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
    id = coop::spawn([call] { std::apply([](auto&& g, auto&&... x) { std::invoke(std::move(g), std::move(x)...); }, *call); });
    coop::point();
  }
  coop_thread(coop_thread&& o) : id(o.id) { o.id = -1; }
  coop_thread& operator=(coop_thread&& o) {
    if (id >= 0) coop::bad("assignment to a joinable thread");
    id = o.id;
    o.id = -1;
    return *this;
  }
  ~coop_thread() { if (id >= 0) coop::bad("joinable thread destroyed"); }
  bool joinable() const { return id >= 0; }
  void join() {
    if (id < 0) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
    int t = id;
    coop::wait_until([t] { return coop::finished(t); });
    id = -1;
  }
  void detach() { id = -1; }
  int get_id() const { return id; }
  static unsigned hardware_concurrency() { return 4; }
 private:
  int id = -1;
};

template <typename T>
struct coop_state {
  std::exception_ptr error;
  std::conditional_t<std::is_void_v<T>, bool, std::optional<std::conditional_t<std::is_void_v<T>, int, T>>> value{};
  bool set = false;
};
template <typename T>
class coop_future {
 public:
  coop_future() = default;
  coop_future(int t, std::shared_ptr<coop_state<T>> e) : id(t), st(e) {}
  coop_future(coop_future&& o) : id(o.id), st(std::move(o.st)) { o.id = -1; o.st = nullptr; }
  coop_future& operator=(coop_future&& o) {
    settle();
    id = o.id; st = std::move(o.st);
    o.id = -1; o.st = nullptr;
    return *this;
  }
  ~coop_future() { settle(); }
  bool valid() const { return st != nullptr; }
  void wait() const {
    if (!st) throw std::future_error(std::future_errc::no_state);
    auto e = st;
    int t = id;
    coop::wait_until([e, t] { return e->set && (t < 0 || coop::finished(t)); });
  }
  template <typename D>
  std::future_status wait_for(const D& d) const {
    if (!st) throw std::future_error(std::future_errc::no_state);
    coop::point();
    auto e = st;
    return coop_until(d, [e] { return e->set; }) ? std::future_status::ready : std::future_status::timeout;
  }
  T get() {
    wait();
    auto e = st;
    id = -1; st = nullptr;
    if (e->error) std::rethrow_exception(e->error);
    if constexpr (!std::is_void_v<T>) return std::move(*e->value);
  }
 private:
  void settle() { if (st && id >= 0) wait(); id = -1; st = nullptr; }   // the last reference to an async state waits
  int id = -1;                                                        // the thread of an async call
  std::shared_ptr<coop_state<T>> st;
};
template <typename T>
class coop_promise {
 public:
  coop_promise() : st(std::make_shared<coop_state<T>>()) {}
  coop_promise(coop_promise&&) = default;
  coop_promise& operator=(coop_promise&&) = default;
  coop_future<T> get_future() { return coop_future<T>(-1, st); }
  template <typename... V> void set_value(V&&... v) {
    if constexpr (!std::is_void_v<T>) st->value.emplace(std::forward<V>(v)...);
    st->set = true;
    coop::point();
  }
  void set_exception(std::exception_ptr e) { st->error = e; st->set = true; coop::point(); }
  ~coop_promise() { if (st && !st->set) { st->error = std::make_exception_ptr(std::future_error(std::future_errc::broken_promise)); st->set = true; } }
 private:
  std::shared_ptr<coop_state<T>> st;
};

enum class coop_launch { coop_async = 1, deferred = 2 };

template <typename F, typename... A>
auto coop_async(coop_launch, F&& f, A&&... a) {
  using T = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>;
  auto e = std::make_shared<coop_state<T>>();
  auto call = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
  int t = coop::spawn([call, e] {
    auto go = [&] { return std::apply([](auto&& g, auto&&... x) { return std::invoke(std::move(g), std::move(x)...); }, *call); };
    try {
      if constexpr (std::is_void_v<T>) go(); else e->value.emplace(go());
    } catch (...) { e->error = std::current_exception(); }
    e->set = true;
  });
  coop::point();
  return coop_future<T>(t, e);
}
template <typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, coop_launch>>>
auto coop_async(F&& f, A&&... a) { return coop_async(coop_launch::coop_async, std::forward<F>(f), std::forward<A>(a)...); }

// a deque whose operations can be interrupted and whose misuse is noticed
template <typename T, typename Alloc = std::allocator<T>>
class coop_deque {
 public:
  bool empty() const { touch(); return d.empty(); }
  std::size_t size() const { touch(); return d.size(); }
  T& front() { touch(); if (d.empty()) coop::bad("front of an empty deque"); return d.front(); }
  T& back() { touch(); if (d.empty()) coop::bad("back of an empty deque"); return d.back(); }
  void pop_front() { Busy b(this); if (d.empty()) coop::bad("pop from an empty deque"); coop::point(); d.pop_front(); }
  void pop_back() { Busy b(this); if (d.empty()) coop::bad("pop from an empty deque"); coop::point(); d.pop_back(); }
  void push_back(const T& x) { Busy b(this); coop::point(); d.push_back(x); }
  void push_back(T&& x) { Busy b(this); coop::point(); d.push_back(std::move(x)); }
  void push_front(const T& x) { Busy b(this); coop::point(); d.push_front(x); }
  template <typename... A> void emplace_back(A&&... a) { Busy b(this); coop::point(); d.emplace_back(std::forward<A>(a)...); }
  void clear() { Busy b(this); coop::point(); d.clear(); }
  auto begin() { touch(); return d.begin(); }
  auto end() { return d.end(); }
 private:
  void touch() const {
    coop::point();
    if (busy) coop::bad("deque used during another thread's change");
  }
  struct Busy {
    explicit Busy(coop_deque* q) : q(q) { q->touch(); q->busy = true; }
    ~Busy() { q->busy = false; }
    coop_deque* q;
  };
  bool busy = false;
  std::deque<T, Alloc> d;
};

namespace this_thread {
template <typename D>
void coop_sleep_for(const D& d) {
  coop::nap(std::max(0L, coop_ns(d)));
}
template <typename T>
void coop_sleep_until(const T& t) { coop_sleep_for(t - T::clock::now()); }
inline void coop_yield() { coop::nap(1000); }
}

}  // namespace std

#define mutex coop_mutex
#define timed_mutex coop_mutex
#define recursive_mutex coop_recursive_mutex
#define steady_clock coop_clock
#define system_clock coop_clock
#define high_resolution_clock coop_clock
#define promise coop_promise
#define yield coop_yield
#define sleep_until coop_sleep_until
#define condition_variable coop_condition_variable
#define condition_variable_any coop_condition_variable
#define thread coop_thread
#define future coop_future
#define async coop_async
#define launch coop_launch
#define deque coop_deque
#define sleep_for coop_sleep_for
