// Deterministic cooperative simulation of the parties: fibers, recording channels, a seeded or
// scripted scheduler. Nothing of the code under test is changed: parties talk through scl::Channel.
#pragma once
#include <ucontext.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include "scl/net/channel.h"
#include "scl/net/network.h"

namespace sim {

struct Rng {  // splitmix64: the same numbers everywhere
  std::uint64_t s;
  explicit Rng(std::uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return next() % n; }
};

inline std::string limbs61(std::uint64_t v) {  // 5 limbs of 13 bits (top one keeps the rest)
  std::string o = "[";
  for (int i = 0; i < 5; i++) {
    if (i) o += ",";
    o += std::to_string(v & 8191);
    v >>= 13;
  }
  return o + "]";
}

struct World;

struct Fiber {
  ucontext_t ctx;
  std::vector<char> stack;
  std::function<void()> body;
  int party = 0;        // 0-based
  bool started = false, finished = false;
  int waiting_on = -1;  // party whose message it needs, -1 if runnable
  std::size_t need = 0;
  std::function<bool()> cond;  // extra condition it waits for
  // current operation and the slice being recorded
  std::string op;
  int lay = 0;
  std::vector<std::vector<std::uint8_t>> s, r;
  bool dirty = false;
};

struct World {
  int n;
  Rng rng;
  std::uint64_t yield_permille = 0;  // chance of giving up the baton at a send or receive
  std::vector<std::vector<std::deque<std::uint8_t>>> q;  // q[from][to]
  std::vector<std::unique_ptr<Fiber>> fibers;
  Fiber* cur = nullptr;
  ucontext_t main_ctx;
  std::vector<std::string> events;
  std::vector<int> script;  // scripted order of parties (one entry per operation), empty: random
  std::size_t script_pos = 0;
  bool blocked_in_script = false;
  bool record = true;

  World(int n_, std::uint64_t seed) : n(n_), rng(seed), q(n_, std::vector<std::deque<std::uint8_t>>(n_)) {}

  Fiber& add(int party, std::function<void()> body) {
    fibers.emplace_back(new Fiber);
    Fiber& f = *fibers.back();
    f.party = party;
    f.body = std::move(body);
    f.s.resize(n);
    f.r.resize(n);
    return f;
  }

  static std::string vals(const std::vector<std::uint8_t>& b) {
    std::string o = "[";
    std::size_t i = 0;
    for (; i + 8 <= b.size(); i += 8) {
      std::uint64_t v;
      std::memcpy(&v, b.data() + i, 8);
      if (i) o += ",";
      o += limbs61(v);
    }
    if (i < b.size()) {  // bytes that are not a whole field element: something the specification refuses
      if (i) o += ",";
      o += "[" + std::to_string(b.size() - i) + "]";
    }
    return o + "]";
  }

  void flush(Fiber& f, bool done) {
    if (record && (f.dirty || done)) {
      std::ostringstream o;
      o << "{\"e\":\"slice\",\"p\":" << f.party + 1 << ",\"op\":\"" << f.op << "\",\"lay\":" << f.lay << ",\"done\":" << (done ? "true" : "false");
      for (int k = 0; k < 2; k++) {
        auto& v = k ? f.r : f.s;
        o << (k ? ",\"r\":[" : ",\"s\":[");
        for (int j = 0; j < n; j++) o << (j ? "," : "") << vals(v[j]);
        o << "]";
      }
      o << "}";
      events.push_back(o.str());
    }
    for (int j = 0; j < n; j++) { f.s[j].clear(); f.r[j].clear(); }
    f.dirty = false;
  }

  void event(const std::string& e) {
    if (cur && cur->dirty) flush(*cur, false);
    events.push_back(e);
  }

  void yield() {  // back to the scheduler
    Fiber* f = cur;
    flush(*f, false);
    swapcontext(&f->ctx, &main_ctx);
  }
  void maybe_yield() {
    if (yield_permille && rng.below(1000) < yield_permille) yield();
  }

  // dealt sharings may be replaced by multiples of themselves (any multiple is as valid a sharing)
  std::function<void(int from, int to, const std::string& op, std::size_t idx, std::uint8_t* v)> dealer;
  std::map<std::string, std::size_t> dealt;
  static bool dealing(const std::string& op) {
    return op == "IndS" || op == "UnpS" || op == "ZeroS" || op == "ZProdS" || op == "FIS" || op == "PrepS";
  }

  void send(int from, int to, const std::uint8_t* p0, std::size_t len) {
    std::vector<std::uint8_t> copy(p0, p0 + len);
    std::uint8_t* p = copy.data();
    if (dealer && dealing(cur->op) && len % 8 == 0) {
      std::size_t& k = dealt[cur->op + "/" + std::to_string(from) + "/" + std::to_string(to)];
      for (std::size_t i = 0; i < len; i += 8) dealer(from, to, cur->op, k++, p + i);
    }
    auto& d = q[from][to];
    d.insert(d.end(), p, p + len);
    auto& v = cur->s[to];
    v.insert(v.end(), p, p + len);
    cur->dirty = true;
    maybe_yield();
  }
  void recv(int me, int from, std::uint8_t* p, std::size_t len) {
    while (q[from][me].size() < len) {
      cur->waiting_on = from;
      cur->need = len;
      if (!script.empty()) blocked_in_script = true;
      yield();
    }
    cur->waiting_on = -1;
    auto& d = q[from][me];
    std::copy(d.begin(), d.begin() + len, p);
    d.erase(d.begin(), d.begin() + len);
    auto& v = cur->r[from];
    v.insert(v.end(), p, p + len);
    cur->dirty = true;
    maybe_yield();
  }

  void wait_for(std::function<bool()> c) {
    Fiber* f = cur;
    f->cond = c;
    while (!c()) yield();
    f->cond = nullptr;
  }

  // run one named operation of the current fiber
  void op(const std::string& name, const std::function<void()>& f, int lay = 0) {
    cur->op = name;
    cur->lay = lay;
    f();
    flush(*cur, true);
    yield();
  }

  static void tramp(unsigned lo, unsigned hi) {
    World* w = reinterpret_cast<World*>((std::uintptr_t(hi) << 32) | lo);
    Fiber* f = w->cur;
    try {
      f->body();
    } catch (const std::exception& e) {
      std::string why = e.what();
      for (auto& c : why) if (c == '"' || c == '\\' || (unsigned char)c < 32) c = '\'';
      w->event("{\"e\":\"abort\",\"p\":" + std::to_string(f->party + 1) + ",\"op\":\"" + f->op + "\",\"why\":\"" + why + "\"}");
    } catch (...) {
      w->event("{\"e\":\"abort\",\"p\":" + std::to_string(f->party + 1) + ",\"op\":\"" + f->op + "\",\"why\":\"?\"}");
    }
    f->finished = true;
    swapcontext(&f->ctx, &w->main_ctx);
  }

  void resume(Fiber& f) {
    cur = &f;
    if (!f.started) {
      f.started = true;
      getcontext(&f.ctx);
      f.stack.resize(4 << 20);
      f.ctx.uc_stack.ss_sp = f.stack.data();
      f.ctx.uc_stack.ss_size = f.stack.size();
      f.ctx.uc_link = nullptr;
      std::uintptr_t a = reinterpret_cast<std::uintptr_t>(this);
      makecontext(&f.ctx, (void (*)())tramp, 2, unsigned(a & 0xffffffffu), unsigned(a >> 32));
    }
    swapcontext(&main_ctx, &f.ctx);
    cur = nullptr;
  }

  bool runnable(Fiber& f) {
    if (f.finished) return false;
    if (f.cond && !f.cond()) return false;
    if (f.waiting_on < 0) return true;
    return q[f.waiting_on][f.party].size() >= f.need;
  }

  // true: everybody finished; false: deadlock
  bool run() {
    for (;;) {
      std::vector<Fiber*> ready;
      bool all = true;
      for (auto& f : fibers) {
        if (!f->finished) all = false;
        if (runnable(*f)) ready.push_back(f.get());
      }
      if (all) return true;
      if (ready.empty()) {
        std::string who;
        for (auto& f : fibers)
          if (!f->finished) who += (who.empty() ? "" : ",") + std::to_string(f->party + 1) + ":" + f->op;
        events.push_back("{\"e\":\"deadlock\",\"who\":\"" + who + "\"}");
        return false;
      }
      Fiber* pick = nullptr;
      if (script_pos < script.size()) {
        int want = script[script_pos++];
        for (auto* f : ready) if (f->party == want) { pick = f; break; }
        if (!pick) blocked_in_script = true;
      }
      if (!pick) pick = ready[rng.below(ready.size())];
      resume(*pick);
    }
  }
};

class SimChannel final : public scl::Channel {
 public:
  SimChannel(World& w, int me, int peer) : w(w), me(me), peer(peer) {}
  void Close() override {}
  void Send(const unsigned char* src, std::size_t n) override { w.send(me, peer, src, n); }
  void Recv(unsigned char* dst, std::size_t n) override { w.recv(me, peer, dst, n); }
  World& w;
  int me, peer;
};

inline std::shared_ptr<scl::Network> make_network(World& w, int me) {
  std::vector<std::shared_ptr<scl::Channel>> cs;
  for (int j = 0; j < w.n; j++) cs.push_back(std::make_shared<SimChannel>(w, me, j));
  return std::make_shared<scl::Network>(cs);
}

}  // namespace sim
