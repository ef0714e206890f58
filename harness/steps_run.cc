// Evaluates chains of protocol steps and records what ran.
#include <array>
#include <iostream>
#include <sstream>
#include "scl/p/simple.h"
#include "util.h"
using std::string;
using std::to_string;

struct Ctx {
  long value = 1;
  string log;
  // per depth: what the step of that number does
  std::vector<std::array<int, 4>> plan;      // a, b, throws, nested length
  Ctx* self = this;              // there is one context: a copy is recognised by it
};
static const int DEPTH = 9;
struct Carry {                   // handed on, never copied
  Carry(long v) : v(v) {}
  Carry(const Carry& o) : v(o.v), copied(true) {}
  Carry(Carry&& o) : v(o.v), copied(o.copied) { o.v = -1; }
  long v;
  bool copied = false;
};

template <int D> struct Step;
struct Last : scl::LastProtocolStep<Last, Ctx> {
  Last(long c, int base) : carry(c), base(base) {}
  long Finalize(Ctx& x) {
    x.log += "[\"last\"," + to_string(base) + "," + to_string(carry.v) + "," + to_string(x.value) + "," + (x.self == &x && !carry.copied ? "1" : "0") + "],";
    if (base < (int)x.plan.size() && x.plan[base][2]) throw std::runtime_error("step");
    x.value = (x.value + 1) % 1009;
    return (carry.v * 7 + x.value) % 1009;
  }
  Carry carry;
  int base;
};
template <int D> long go(long carry, int base, Ctx& x) {
  if constexpr (D == 0) { Last l(carry, base); return scl::Evaluate(l, x); }
  else { Step<D> s(carry, base); return scl::Evaluate(s, x); }
}
template <int D = DEPTH> long dispatch(int len, long carry, int base, Ctx& x) {
  if constexpr (D == 0) return go<0>(carry, base, x);
  else return len == D ? go<D>(carry, base, x) : dispatch<D - 1>(len, carry, base, x);
}
template <int D> struct Step : scl::ProtocolStep<Step<D>, Ctx> {       // D steps are left, this one included
  Step(long c, int base) : carry(c), base(base) {}
  auto Run(Ctx& x) {
    auto& p = x.plan[base];
    x.log += "[\"step\"," + to_string(base) + "," + to_string(carry.v) + "," + to_string(x.value) + "," + (x.self == &x && !carry.copied ? "1" : "0") + "],";
    if (p[2]) throw std::runtime_error("step");
    x.value = (x.value * p[0] + p[1]) % 1009;
    if (p[3] >= 0) carry.v = (carry.v + dispatch<2>(p[3], x.value, (int)x.plan.size() - 1 - p[3], x)) % 1009;
    long c = (carry.v * 3 + x.value) % 1009;
    if constexpr (D == 1) return Last(c, base + 1);
    else return Step<D - 1>(c, base + 1);
  }
  Carry carry;
  int base;
};

int main() {
  string line;
  // LEN CARRY NPLAN (a b throws nested)*
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    int len, n;
    long carry;
    is >> len >> carry >> n;
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      Ctx x;
      x.plan.resize(n);
      for (auto& p : x.plan) for (auto& v : p) is >> v;
      string r = "-1", ok = "true";
      try { r = to_string(dispatch(len, carry, 0, x)); } catch (const std::runtime_error&) { ok = "false"; }
      emit("{\"log\":[" + x.log + "[\"end\",0,0,0,0]],\"ok\":" + ok + ",\"r\":" + r + ",\"value\":" + to_string(x.value) + "}");
    }, 20);
    std::cout << out.at(0) << "\n" << std::flush;
  }
}
