// Executes scripts of calls on the circuit API and records every call's result.
//   circ_run SCRIPT OUT.ndjson
#include <sstream>
#include "tp_common.h"
#include "tp/dn07.h"

using Emit = std::function<void(const std::string&)>;

struct Api {
  std::vector<tp::Circuit> c;                    // one replica per party
  std::vector<std::vector<GateP>> g;             // [replica][gate id - 1]
  std::vector<tp::DN07> dn;
  std::vector<std::shared_ptr<tp::InputBatch>> ib;
  std::vector<std::shared_ptr<tp::OutputBatch>> ob;
  std::vector<std::shared_ptr<tp::MultBatch>> mb;
  std::vector<std::string> gk;                   // kind of each gate
  int n = 0, k = 0;
};

static std::string num(std::uint64_t v) { return std::to_string(v); }
static int find_gate(Api& a, const GateP& x) {
  for (std::size_t i = 0; i < a.g[0].size(); i++) if (a.g[0][i] == x) return i + 1;
  return 0;
}
static std::string vals(const std::vector<FF>& v) {
  std::string o = "[";
  for (std::size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + lim(v[i]);
  return o + "]";
}
static std::vector<FF> rd(std::istream& s, std::size_t m) {
  std::vector<FF> v;
  std::uint64_t x;
  for (std::size_t i = 0; i < m && (s >> x); i++) v.push_back(from_u64(x));
  return v;
}

// one call: returns the JSON of its result value; exceptions are refusals
static std::string call(Api& a, const std::string& op, std::istringstream& s, std::string& args) {
  auto U = [&]() { long long x = 0; s >> x; args += (args.empty() ? "" : ",") + std::to_string(x); return (std::size_t)x; };
  auto ALL = [&](auto f) { for (int i = 0; i < (int)a.c.size(); i++) f(i); };
  auto& c0 = a.c;
  if (op == "circuit") {
    a = Api();
    a.n = U(); a.k = U();
    for (int i = 0; i < a.n; i++) a.c.emplace_back(a.n, a.k);
    a.g.resize(a.n);
    return "0";
  }
  if (op == "cfg") {  // cfg parties batch width depth |inp| inp.. |out| out..
    tp::CircuitConfig cc;
    cc.n_parties = U(); cc.batch_size = U(); cc.width = U(); cc.depth = U();
    std::size_t m = U(); for (std::size_t i = 0; i < m; i++) cc.inp_gates.push_back(U());
    m = U(); for (std::size_t i = 0; i < m; i++) cc.out_gates.push_back(U());
    std::vector<tp::Circuit> nc;
    for (std::size_t i = 0; i < std::max<std::size_t>(1, cc.n_parties); i++) nc.push_back(tp::Circuit::FromConfig(cc));
    a = Api();
    a.n = cc.n_parties; a.k = cc.batch_size; a.c = nc;
    a.g.resize(a.n);
    for (int p = 0; p < a.n; p++) {
      auto& G = a.g[p];
      for (std::size_t i = 0; i < cc.ComputeNumberOfInputs(); i++) G.push_back(a.c[p].GetInputGate(i));
      for (std::size_t d = 0; d < cc.depth; d++)
        for (std::size_t i = 0; i < cc.width / 2; i++) {
          auto m1 = a.c[p].GetMultGate(d, 2 * i), m2 = a.c[p].GetMultGate(d, 2 * i + 1);
          G.push_back(m1->GetRight()); G.push_back(m1); G.push_back(m2);
        }
      for (std::size_t i = 0; i < cc.ComputeNumberOfOutputs(); i++) G.push_back(a.c[p].GetOutputGate(i));
    }
    return "0";
  }
  if (op == "in") { auto o = U(); ALL([&](int i) { a.g[i].push_back(c0[i].Input(o)); }); return "0"; }
  if (op == "add") { auto x = U(), y = U(); ALL([&](int i) { a.g[i].push_back(c0[i].Add(a.g[i][x - 1], a.g[i][y - 1])); }); return "0"; }
  if (op == "mul") { auto x = U(), y = U(); ALL([&](int i) { a.g[i].push_back(c0[i].Mult(a.g[i][x - 1], a.g[i][y - 1])); }); return "0"; }
  if (op == "out") { auto o = U(), y = U(); ALL([&](int i) { a.g[i].push_back(c0[i].Output(o, a.g[i][y - 1])); }); return "0"; }
  if (op == "layer") { ALL([&](int i) { c0[i].NewLayer(); }); return "0"; }
  if (op == "last") { ALL([&](int i) { c0[i].LastLayer(); }); return "0"; }
  if (op == "closein") { ALL([&](int i) { c0[i].CloseInputs(); }); return "0"; }
  if (op == "closeout") { ALL([&](int i) { c0[i].CloseOutputs(); }); return "0"; }
  if (op == "net") {
    auto nets = scl::Network::CreateFullInMemory(a.n);
    ALL([&](int i) { c0[i].SetNetwork(std::make_shared<scl::Network>(nets[i]), i); });
    return "0";
  }
  if (op == "corr") { ALL([&](int i) { c0[i].GenCorrelator(); }); return "0"; }
  if (op == "thr") { auto t = U(); ALL([&](int i) { c0[i].SetThreshold(t); }); return "0"; }
  // clear evaluation, on replica r
  if (op == "setclear") {  // setclear r m  len v.. len v..
    auto r = U(), m = U();
    std::vector<std::vector<FF>> v;
    for (std::size_t i = 0; i < m; i++) { std::size_t len; s >> len; v.push_back(rd(s, len)); }
    args += ",[";
    for (std::size_t i = 0; i < m; i++) args += (i ? "," : "") + vals(v[i]);
    args += "]";
    c0.at(r).SetClearInputs(v);
    return "0";
  }
  if (op == "setflat") {
    auto r = U(), m = U();
    auto v = rd(s, m);
    args += "," + vals(v);
    c0.at(r).SetClearInputsFlat(v);
    return "0";
  }
  if (op == "gin") {
    auto r = U(), x = U();
    auto v = rd(s, 1);
    args += "," + vals(v);
    std::dynamic_pointer_cast<tp::InputGate>(a.g.at(r)[x - 1])->ClearInput(v[0]);
    return "0";
  }
  if (op == "getclear") { auto r = U(), x = U(); return lim(a.g.at(r)[x - 1]->GetClear()); }
  if (op == "outs") {
    auto r = U();
    auto v = c0.at(r).GetClearOutputs();
    std::string o = "[";
    for (std::size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + vals(v[i]);
    return o + "]";
  }
  if (op == "outsflat") { auto r = U(); return vals(c0.at(r).GetClearOutputsFlat()); }
  if (op == "mu") { auto x = U(); auto v = rd(s, 1); args += "," + vals(v); a.g[0][x - 1]->_SetDummyMu(v[0]); return "0"; }
  if (op == "getmu") { auto x = U(); return lim(a.g[0][x - 1]->GetMu()); }
  if (op == "learned") { auto x = U(); return a.g[0][x - 1]->IsLearned() ? "1" : "0"; }
  if (op == "metrics") {
    auto& c = c0[0];
    return "[" + num(c.GetDepth()) + "," + num(c.GetWidth()) + "," + num(c.GetSize()) + "," + num(c.GetNInputs()) + "," + num(c.GetNOutputs()) +
           "," + num(c.GetNInputBatches()) + "," + num(c.GetNOutputBatches()) + "," + num(c.GetNMultBatches()) + "]";
  }
  if (op == "lookin") { auto o = U(), i = U(); auto x = c0[0].GetInputGate(o, i); return "[" + num(find_gate(a, x)) + "," + num(x->GetOwner()) + "]"; }
  if (op == "lookinf") { auto i = U(); auto x = c0[0].GetInputGate(i); return "[" + num(find_gate(a, x)) + "," + num(x->GetOwner()) + "]"; }
  if (op == "lookout") { auto o = U(), i = U(); auto x = c0[0].GetOutputGate(o, i); return "[" + num(find_gate(a, x)) + "," + num(x->GetOwner()) + "]"; }
  if (op == "lookoutf") { auto i = U(); auto x = c0[0].GetOutputGate(i); return "[" + num(find_gate(a, x)) + "," + num(x->GetOwner()) + "]"; }
  if (op == "lookmul") { auto l = U(), i = U(); return "[" + num(find_gate(a, c0[0].GetMultGate(l, i))) + "]"; }
  if (op == "parents") { auto x = U(); auto& q = a.g[0][x - 1]; return "[" + num(q->GetLeft() ? find_gate(a, q->GetLeft()) : 0) + "," + num(q->GetRight() ? find_gate(a, q->GetRight()) : 0) + "]"; }
  if (op == "batches") {  // contents of all batches (padding = 0), as the correlator sees them
    c0[0].PopulateDummyCorrelator();
    c0[0].MapCorrToCircuit();
    auto corr = c0[0].GetCorrelator();
    std::vector<std::string> o;
    auto one = [&](const std::string& kind, int own, auto get) {
      std::string t = "{\"kind\":\"" + kind + "\",\"own\":" + num(own) + ",\"g\":[";
      bool zero = true;
      for (int i = 0; i < a.k; i++) {
        GateP x = get(i);
        int id = find_gate(a, x);
        if (id == 0 && (!x->IsPadding() || !(x->GetMu() == FF(0)) || !(x->GetDummyLambda() == FF(0)))) zero = false;
        if (id != 0 && x->IsPadding()) zero = false;
        t += (i ? "," : "") + num(id);
      }
      o.push_back(t + "],\"pad\":" + (zero ? "true" : "false") + "}");
    };
    for (auto& kv : corr.mMapInputBatch) one("in", kv.first->GetOwner() + 1, [&](int i) { return kv.first->GetInputGate(i); });
    for (auto& kv : corr.mMapOutputBatch) one("out", kv.first->GetOwner() + 1, [&](int i) { return kv.first->GetOutputGate(i); });
    for (auto& kv : corr.mMapMultBatch) one("mul", 0, [&](int i) { return kv.first->GetMultGate(i); });
    std::sort(o.begin(), o.end());
    return "[" + hutil::join(o) + "]";
  }
  // batches built by hand: ibatch owner k; iapp idx owner
  if (op == "ibatch") { auto o = U(), k = U(); a.ib.push_back(std::make_shared<tp::InputBatch>(o, k)); return "0"; }
  if (op == "obatch") { auto o = U(), k = U(); a.ob.push_back(std::make_shared<tp::OutputBatch>(o, k)); return "0"; }
  if (op == "mbatch") { auto k = U(); a.mb.push_back(std::make_shared<tp::MultBatch>(k)); return "0"; }
  if (op == "iapp") { auto b = U(), o = U(); auto x = std::make_shared<tp::InputGate>(o); a.ib.at(b)->Append(x); return a.ib[b]->HasRoom() ? "1" : "0"; }
  if (op == "oapp") { auto b = U(), o = U(); auto x = std::make_shared<tp::OutputGate>(o); a.ob.at(b)->Append(x); return a.ob[b]->HasRoom() ? "1" : "0"; }
  if (op == "mapp") { auto b = U(); auto x = std::make_shared<tp::MultGate>(); a.mb.at(b)->Append(x); return a.mb[b]->HasRoom() ? "1" : "0"; }
  if (op == "iroom") { auto b = U(); return a.ib.at(b)->HasRoom() ? "1" : "0"; }
  if (op == "oroom") { auto b = U(); return a.ob.at(b)->HasRoom() ? "1" : "0"; }
  if (op == "mroom") { auto b = U(); return a.mb.at(b)->HasRoom() ? "1" : "0"; }
  if (op == "iprep") { auto b = U(); a.ib.at(b)->_DummyPrep(FF(3)); return "0"; }
  if (op == "oprep") { auto b = U(); a.ob.at(b)->_DummyPrep(FF(3)); return "0"; }
  if (op == "mprep") { auto b = U(); a.mb.at(b)->_DummyPrep(FF(3), FF(2), FF(1)); return "0"; }
  // protocol in lock step
  if (op == "prep") {
    ALL([&](int i) { c0[i].FIPrepSend(); });
    ALL([&](int i) { c0[i].FIPrepRecv(); });
    ALL([&](int i) { c0[i].GenProdPartiesSendP1(); });
    ALL([&](int i) { c0[i].GenProdP1ReceivesAndSends(); });
    ALL([&](int i) { c0[i].GenProdPartiesReceive(); });
    ALL([&](int i) { c0[i].MapCorrToCircuit(); });
    ALL([&](int i) { c0[i].PrepMultPartiesSendP1(); });
    ALL([&](int i) { c0[i].PrepMultP1ReceivesAndSends(); });
    ALL([&](int i) { c0[i].PrepMultPartiesReceive(); });
    ALL([&](int i) { c0[i].PrepIOPartiesSendOwner(); });
    ALL([&](int i) { c0[i].PrepIOOwnerReceives(); });
    return "0";
  }
  if (op == "dummy") { auto v = rd(s, 1); ALL([&](int i) { c0[i]._DummyPrep(v[0]); }); return "0"; }
  if (op == "setin") {  // setin party m v..
    auto p = U(), m = U();
    auto v = rd(s, m);
    args += "," + vals(v);
    c0.at(p).SetInputs(v);
    return "0";
  }
  if (op == "online") {
    ALL([&](int i) { c0[i].InputOwnerSendsP1(); });
    ALL([&](int i) { c0[i].InputP1Receives(); });
    for (std::size_t l = 0; l < c0[0].GetDepth(); l++) {
      ALL([&](int i) { c0[i].MultP1Sends(l); });
      ALL([&](int i) { c0[i].MultPartiesReceive(l); });
      ALL([&](int i) { c0[i].MultPartiesSend(l); });
      ALL([&](int i) { c0[i].MultP1Receives(l); });
    }
    ALL([&](int i) { c0[i].OutputP1SendsMu(); });
    ALL([&](int i) { c0[i].OutputOwnerReceivesMu(); });
    return "0";
  }
  if (op == "result") { auto p = U(); return vals(c0.at(p).GetOutputs()); }
  // DN07 in lock step
  if (op == "dnew") { auto n = U(), t = U(); tp::DN07 d(n, t); return "0"; }
  if (op == "dn") {
    auto t = U();
    std::vector<tp::DN07> nd;
    ALL([&](int) { nd.emplace_back(a.n, t); });
    a.dn = nd;
    ALL([&](int i) { a.dn[i].SetCircuit(c0[i]); });
    return "0";
  }
  if (op == "dnsetin") {
    auto p = U(), m = U();
    auto v = rd(s, m);
    args += "," + vals(v);
    a.dn.at(p).SetInputs(v);
    return "0";
  }
  if (op == "dnrun") {
    auto& d = a.dn;
    ALL([&](int i) { d[i].PrepPartiesSend(); });
    ALL([&](int i) { d[i].PrepPartiesReceive(); });
    ALL([&](int i) { d[i].FDMapPrepToGates(); });
    ALL([&](int i) { d[i].FDMultPartiesSendP1(); });
    ALL([&](int i) { d[i].FDMultP1Receives(); });
    ALL([&](int i) { d[i].InputPartiesSendOwners(); });
    ALL([&](int i) { d[i].InputOwnersReceiveAndSendParties(); });
    ALL([&](int i) { d[i].InputPartiesReceive(); });
    for (std::size_t l = 0; l < c0[0].GetDepth(); l++) {
      ALL([&](int i) { d[i].MultPartiesSendP1(l); });
      ALL([&](int i) { d[i].MultP1ReceivesAndSendsParties(l); });
      ALL([&](int i) { d[i].MultPartiesReceive(l); });
    }
    ALL([&](int i) { d[i].OutputPartiesSendOwners(); });
    ALL([&](int i) { d[i].OutputOwnersReceive(); });
    return "0";
  }
  if (op == "dnresult") { auto p = U(), m = U(); std::vector<FF> v; for (std::size_t i = 0; i < m; i++) v.push_back(a.dn.at(p).GetOutput(p, i)); return vals(v); }
  fprintf(stderr, "unknown call %s\n", op.c_str());
  _exit(9);
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line, id;
  std::vector<std::string> lines;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    if (!(s >> k)) continue;
    if (k == "run") { s >> id; lines.clear(); continue; }
    if (k != "end") { lines.push_back(line); continue; }
    auto ev = hutil::forked([&](const Emit& emit) {
      Api a;
      for (auto& l : lines) {
        std::istringstream t(l);
        std::string op, args, v = "0", ok = "true";
        t >> op;
        try {
          v = call(a, op, t, args);
        } catch (const std::exception&) {
          ok = "false";
        }
        emit("{\"op\":\"" + op + "\",\"a\":[" + args + "],\"ok\":" + ok + ",\"v\":" + v + "}");
      }
      emit("{\"op\":\"end\",\"a\":[],\"ok\":true,\"v\":0}");
    }, 60);
    for (auto& e : ev) if (e.rfind("{\"e\":\"crash\"", 0) == 0) e = "{\"op\":\"crash\",\"a\":[],\"ok\":false,\"v\":0," + e.substr(1);
    out << "{\"id\":\"" << id << "\",\"ev\":[" << hutil::join(ev) << "]}\n";
    out.flush();
  }
  return 0;
}
