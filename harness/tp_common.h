// Run scripts, circuits and headers shared by the TurboPack and DN07 harnesses.
#pragma once
#include <fstream>
#include <map>
#include "sim.h"
#include "util.h"
#include "tp/circuits.h"

using tp::FF;
using GateP = std::shared_ptr<tp::Gate>;

static FF from_u64(std::uint64_t v) {
  unsigned char b[8];
  std::memcpy(b, &v, 8);
  return FF::Read(b);
}
static std::string lim(const FF& x) {
  unsigned char b[8];
  x.Write(b);
  std::uint64_t v;
  std::memcpy(&v, b, 8);
  return sim::limbs61(v);
}

struct Cmd { std::string k; std::uint64_t a = 0, b = 0; };
struct Run {
  std::string id, mode, variant;
  int n, t, k;
  std::uint64_t seed = 0, yield = 0;
  std::vector<Cmd> cmds;                           // circuit construction
  std::vector<std::vector<std::uint64_t>> inputs;  // per party
  std::map<int, std::uint64_t> lam;                // dummy masks per gate id
  std::uint64_t lam_const = 0;
  std::vector<int> script;
  bool cfg = false;
  std::vector<std::uint64_t> cin, cout;
  std::uint64_t width = 0, depth = 0;
  std::uint64_t timeout = 120;
  bool record = true, whole = false;
  std::uint64_t scale = 0;       // dealers multiply their sharings by different constants
  std::string only_op;           // only this dealing, by this party, of this index stays; all others become zero
  int only_party = 0;
  std::size_t only_idx = 0;
  int only_neg = 0;              // ... with the opposite sign
};

struct Party {
  tp::Circuit c;
  std::vector<GateP> g;  // by id - 1
  std::vector<std::string> desc;
  int layers = 1;
};

static std::string gate_desc(const char* op, std::uint64_t a, std::uint64_t b, int lay) {
  return std::string("{\"g\":\"") + op + "\",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"lay\":" + std::to_string(lay) + "}";
}

static void build(const Run& r, Party& p) {
  if (r.cfg) {
    tp::CircuitConfig cc;
    cc.n_parties = r.n;
    cc.inp_gates.assign(r.cin.begin(), r.cin.end());
    cc.out_gates.assign(r.cout.begin(), r.cout.end());
    cc.width = r.width;
    cc.depth = r.depth;
    cc.batch_size = r.k;
    p.c = tp::Circuit::FromConfig(cc);
    // gate ids in the order the specification gives them: inputs, then per layer and pair: add, mul, mul; outputs
    std::uint64_t ni = 0;
    for (auto x : r.cin) ni += x;
    for (std::uint64_t i = 0; i < ni; i++) p.g.push_back(p.c.GetInputGate(i));
    for (std::uint64_t d = 0; d < r.depth; d++)
      for (std::uint64_t i = 0; i < r.width / 2; i++) {
        auto m1 = p.c.GetMultGate(d, 2 * i), m2 = p.c.GetMultGate(d, 2 * i + 1);
        p.g.push_back(m1->GetRight());
        p.g.push_back(m1);
        p.g.push_back(m2);
      }
    std::uint64_t no = 0;
    for (auto x : r.cout) no += x;
    for (std::uint64_t i = 0; i < no; i++) p.g.push_back(p.c.GetOutputGate(i));
    p.layers = r.depth;
    return;
  }
  p.c = tp::Circuit(r.n, r.k);
  int lay = 1;
  for (auto& m : r.cmds) {
    if (m.k == "in") p.g.push_back(p.c.Input(m.a));
    else if (m.k == "add") p.g.push_back(p.c.Add(p.g[m.a - 1], p.g[m.b - 1]));
    else if (m.k == "mul") p.g.push_back(p.c.Mult(p.g[m.a - 1], p.g[m.b - 1]));
    else if (m.k == "out") p.g.push_back(p.c.Output(m.a, p.g[m.b - 1]));
    else if (m.k == "layer") { p.c.NewLayer(); lay++; }
    else if (m.k == "last") p.c.LastLayer();
    else if (m.k == "closein") p.c.CloseInputs();
    else if (m.k == "closeout") p.c.CloseOutputs();
  }
  p.layers = lay;
}

static std::string header(const Run& r) {
  std::ostringstream o;
  o << "\"id\":\"" << r.id << "\",\"n\":" << r.n << ",\"t\":" << r.t << ",\"k\":" << r.k << ",\"mode\":\"" << r.mode
    << "\",\"variant\":\"" << r.variant << "\",\"gates\":[";
  int lay = 1;
  bool first = true;
  if (!r.cfg)
    for (auto& m : r.cmds) {
      if (m.k == "layer") { lay++; continue; }
      if (m.k != "in" && m.k != "add" && m.k != "mul" && m.k != "out") continue;
      if (!first) o << ",";
      first = false;
      if (m.k == "in") o << gate_desc("in", m.a + 1, 0, 0);
      if (m.k == "add") o << gate_desc("add", m.a, m.b, 0);
      if (m.k == "mul") o << gate_desc("mul", m.a, m.b, lay);
      if (m.k == "out") o << gate_desc("out", m.a + 1, m.b, 0);
    }
  o << "],\"layers\":" << (r.cfg ? (int)r.depth : lay) << ",\"cfg\":";
  if (r.cfg) {
    o << "{\"is\":true,\"inp\":[";
    for (std::size_t i = 0; i < r.cin.size(); i++) o << (i ? "," : "") << r.cin[i];
    o << "],\"out\":[";
    for (std::size_t i = 0; i < r.cout.size(); i++) o << (i ? "," : "") << r.cout[i];
    o << "],\"width\":" << r.width << ",\"depth\":" << r.depth << "}";
  } else o << "{\"is\":false}";
  o << ",\"inputs\":[";
  for (int p = 0; p < r.n; p++) {
    o << (p ? "," : "") << "[";
    for (std::size_t i = 0; i < r.inputs[p].size(); i++) o << (i ? "," : "") << sim::limbs61(r.inputs[p][i]);
    o << "]";
  }
  o << "],\"lam\":[";
  bool f = true;
  for (auto& kv : r.lam) { o << (f ? "" : ",") << "[" << kv.first << "," << sim::limbs61(kv.second) << "]"; f = false; }
  o << "],\"lamc\":" << sim::limbs61(r.lam_const);
  return o.str();
}


static void set_dealer(const Run& r, sim::World& w) {
  if (r.scale) {
    std::vector<FF> m;
    sim::Rng g(r.scale);
    for (int p = 0; p < r.n; p++) m.push_back(from_u64((g.next() >> 4) | 1));
    w.dealer = [m](int from, int, const std::string&, std::size_t, std::uint8_t* v) { (FF::Read(v) * m[from]).Write(v); };
  } else if (!r.only_op.empty()) {
    w.dealer = [r](int from, int, const std::string& op, std::size_t idx, std::uint8_t* v) {
      if (op != r.only_op || from != r.only_party || idx != r.only_idx) FF(0).Write(v);
      else if (r.only_neg) (FF(0) - FF::Read(v)).Write(v);
    };
  }
}

template <typename F>
int run_script(int argc, char** argv, F execute) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  Run r;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    if (!(s >> k)) continue;
    if (k == "run") {
      r = Run();
      s >> r.id >> r.mode >> r.variant >> r.n >> r.t >> r.k >> r.seed >> r.yield;
      r.inputs.resize(r.n);
    } else if (k == "cfg") {
      r.cfg = true;
      s >> r.width >> r.depth;
      std::uint64_t x;
      for (int i = 0; i < r.n; i++) { s >> x; r.cin.push_back(x); }
      for (int i = 0; i < r.n; i++) { s >> x; r.cout.push_back(x); }
    } else if (k == "input") {
      int p;
      std::uint64_t x;
      s >> p;
      while (s >> x) r.inputs.at(p).push_back(x);
    } else if (k == "lam") {
      int g;
      std::uint64_t x;
      s >> g >> x;
      r.lam[g] = x;
    } else if (k == "lamc") s >> r.lam_const;
    else if (k == "order") { int p; while (s >> p) r.script.push_back(p); }
    else if (k == "norecord") r.record = false;
    else if (k == "whole") r.whole = true;
    else if (k == "scale") s >> r.scale;
    else if (k == "only") s >> r.only_op >> r.only_party >> r.only_idx >> r.only_neg;
    else if (k == "timeout") s >> r.timeout;
    else if (k == "end") {
      auto ev = hutil::forked([&](const std::function<void(const std::string&)>& emit) { execute(r, emit); }, r.timeout);
      out << "{" << header(r) << ",\"ev\":[" << hutil::join(ev) << "]}\n";
      out.flush();
    } else {
      Cmd c;
      c.k = k;
      s >> c.a >> c.b;
      r.cmds.push_back(c);
    }
  }
  return 0;
}
