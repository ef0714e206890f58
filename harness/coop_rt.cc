// The scheduler behind coop.h, and the exploration of schedules.
#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef future
#undef async
#undef launch
#undef deque
#undef sleep_for
#include "coop_rt.h"
#include <ucontext.h>

namespace coop {
namespace {

struct Thread {
  ucontext_t ctx;
  std::unique_ptr<char[]> stack;
  std::function<void()> body;
  std::function<bool()> ready;   // empty: runnable
  bool done = false, napping = false;
  std::function<bool()> early;      // wakes a napping thread
  long wake = 0;                    // or the time when it wakes up
  int tag = 0;
  struct { void* a = nullptr; unsigned b = 0; } eh;   // the exception state of the thread
};

struct Run {
  std::vector<std::unique_ptr<Thread>> threads;
  ucontext_t main;
  int cur = -1;
  std::string trouble;
  bool dead = false;
  std::size_t steps = 0;
  long now = 0;
};

Run* R = nullptr;
Options O;
// the decisions of the current run
std::vector<Decision> path;
std::size_t pos = 0;
int spent = 0;
std::mt19937_64* rng = nullptr;
std::vector<std::unique_ptr<char[]>> stacks;
const std::size_t STACK = 256 * 1024;

// takes decision number `pos`: as prescribed, or by default / at random
int decide(int n, bool costly, int dflt) {
  if (n <= 1) return 0;
  int c;
  if (pos < path.size()) {
    c = path[pos].chosen;
    if (c >= n) c = 0;
    path[pos].n = n;
    path[pos].costly = costly;
    path[pos].dflt = dflt;
  } else {
    c = dflt;
    if (rng) c = costly ? ((*rng)() % 8 == 0 ? int((*rng)() % n) : dflt) : int((*rng)() % n);
    path.push_back({c, n, costly, dflt});
  }
  path[pos].spent_before = spent;
  if (costly && c != dflt) spent++;
  pos++;
  return c;
}

bool ready(Thread& t) { return !t.done && (!t.ready || t.ready()); }

void to_main() {
  auto& t = *R->threads[R->cur];
  swapcontext(&t.ctx, &R->main);
}

void entry(int i) {
  auto& t = *R->threads[i];
  try { t.body(); }
  catch (const std::exception& e) { bad(std::string("uncaught exception: ") + e.what()); }
  catch (...) { bad("uncaught exception"); }
  t.done = true;
  to_main();
}

}  // namespace

bool active() { return R && R->cur >= 0; }
int self() { return R ? R->cur : -1; }
int& tag() { static int none; return active() ? R->threads[R->cur]->tag : none; }
bool finished(int t) { return R->threads[t]->done; }
void bad(const std::string& what) {
  if (!R) return;
  if (R->trouble.empty()) R->trouble = what;
  R->dead = true;
  if (R->cur >= 0) to_main();
}
void point() {
  if (!active()) return;
  to_main();
}
void wait_until(const std::function<bool()>& p) {
  if (!active()) { if (!p()) std::abort(); return; }
  if (p()) return;
  auto& t = *R->threads[R->cur];
  t.ready = p;
  to_main();
  t.ready = nullptr;
}
void nap(long ns) {
  if (!active()) return;
  R->threads[R->cur]->napping = true;
  R->threads[R->cur]->wake = R->now + ns;
  to_main();
}
void doze(const std::function<bool()>& p, long ns) {
  if (!active()) return;
  auto& t = *R->threads[R->cur];
  t.napping = true;
  t.wake = R->now + ns;
  t.early = p;
  to_main();
  t.early = nullptr;
}
long& now() {
  static long outside = 0;
  return R ? R->now : outside;
}
int choose(int n) { return active() ? decide(n, true, 0) : 0; }
int pick(int n) { return active() ? decide(n, false, 0) : 0; }
int spawn(std::function<void()> f) {
  auto t = std::make_unique<Thread>();
  if (stacks.empty()) t->stack.reset(new char[STACK]);
  else { t->stack = std::move(stacks.back()); stacks.pop_back(); }
  t->body = std::move(f);
  t->tag = tag();
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = t->stack.get();
  t->ctx.uc_stack.ss_size = STACK;
  t->ctx.uc_link = &R->main;
  int id = (int)R->threads.size();
  makecontext(&t->ctx, (void (*)())entry, 1, id);
  R->threads.push_back(std::move(t));
  return id;
}

Outcome once(const std::function<void()>& setup) {
  Run run;
  R = &run;
  pos = 0;
  spent = 0;
  setup();
  int last = -1;
  Outcome out;
  while (!run.dead) {
    std::vector<int> en, naps;
    for (int i = 0; i < (int)run.threads.size(); i++) {
      auto& t = *run.threads[i];
      if (!ready(t)) continue;
      if (t.napping && t.early && t.early()) t.napping = false;
      (t.napping ? naps : en).push_back(i);
    }
    if (en.empty() && !naps.empty()) {      // only sleepers are left: time passes until the first of them wakes up
      long first = LONG_MAX;
      for (int i : naps) first = std::min(first, run.threads[i]->wake);
      run.now = std::max(run.now, first);
      for (int i : naps) if (run.threads[i]->wake <= run.now) { run.threads[i]->napping = false; en.push_back(i); }
      last = -1;
    }
    if (en.empty()) break;
    if (++run.steps > O.max_steps) { run.trouble = "no end after " + std::to_string(O.max_steps) + " steps"; break; }
    int c;
    auto it = std::find(en.begin(), en.end(), last);
    if (it != en.end()) c = decide((int)en.size(), true, int(it - en.begin()));   // a preemption costs
    else c = decide((int)en.size(), false, 0);
    int k = en[c];
    auto& t = *run.threads[k];
    run.cur = last = k;
    void* eh = (void*)abi::__cxa_get_globals();
    memcpy(eh, &t.eh, sizeof(void*) + sizeof(unsigned));
    swapcontext(&run.main, &t.ctx);
    memcpy(&t.eh, eh, sizeof(void*) + sizeof(unsigned));
    memset(eh, 0, sizeof(void*) + sizeof(unsigned));
    run.cur = -1;
  }
  out.trouble = run.trouble;
  for (int i = 0; i < (int)run.threads.size(); i++) if (!run.threads[i]->done) out.blocked.push_back(i);
  path.resize(pos);
  out.path = path;
  R = nullptr;
  for (auto& t : run.threads) stacks.push_back(std::move(t->stack));    // a blocked thread is never unwound
  return out;
}

// Depth-first over all decisions with at most `budget` costly ones, then random schedules.
std::size_t explore(const Options& o, const std::function<void()>& setup, const std::function<bool(const Outcome&)>& report) {
  O = o;
  rng = nullptr;
  std::size_t n = 0;
  path.clear();
  for (;;) {
    Outcome out = once(setup);
    n++;
    if (!report(out)) return n;
    if (n >= o.max_runs) { out.complete = false; break; }
    // the next path: change the last decision that can still be changed
    int i = (int)path.size() - 1;
    for (; i >= 0; i--) {
      auto& d = path[i];
      // order of choices: dflt first, then 0, 1, ... without dflt
      int nxt = d.chosen == d.dflt ? 0 : d.chosen + 1;
      if (nxt == d.dflt) nxt++;
      if (nxt >= d.n) continue;
      if (d.costly && d.spent_before + 1 > o.budget) continue;
      d.chosen = nxt;
      break;
    }
    if (i < 0) break;
    path.resize(i + 1);
  }
  std::mt19937_64 g(o.seed);
  rng = &g;
  for (std::size_t k = 0; k < o.random_runs; k++) {
    path.clear();
    Outcome out = once(setup);
    n++;
    if (!report(out)) break;
  }
  rng = nullptr;
  return n;
}

Outcome replay(const std::vector<int>& choices, const Options& o, const std::function<void()>& setup) {
  O = o;
  rng = nullptr;
  path.clear();
  for (int c : choices) path.push_back({c, 0, false, 0});
  return once(setup);
}

}  // namespace coop
