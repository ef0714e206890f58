// Runs TurboPack executions described by a script on the real code and records them.
//   tp_run SCRIPT OUT.ndjson
#include "tp_common.h"

static std::string ids(const std::vector<int>& v) {
  std::string o = "[";
  for (std::size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::to_string(v[i]);
  return o + "]";
}

// the preprocessing a party holds, by wire and by batch (batches are named by the wires in their slots, 0 = padding)
static std::string corr_event(const Run& r, int p, Party& P) {
  auto corr = P.c.GetCorrelator();
  std::map<tp::Gate*, int> id;
  for (std::size_t i = 0; i < P.g.size(); i++) id[P.g[i].get()] = i + 1;
  auto gid = [&](const GateP& g) { auto it = id.find(g.get()); return it == id.end() ? 0 : it->second; };
  std::ostringstream o;
  o << "{\"e\":\"corr\",\"p\":" << p + 1 << ",\"ind\":[";
  for (std::size_t i = 0; i < P.g.size(); i++) {
    auto it = corr.mMapIndShrs.find(P.g[i]);
    o << (i ? "," : "") << (it == corr.mMapIndShrs.end() ? std::string("[]") : lim(it->second));
  }
  o << "],\"mb\":[";
  std::map<std::vector<int>, std::string> m;
  std::map<std::vector<int>, int> cnt;
  for (auto& kv : corr.mMapMultBatch) {
    std::vector<int> g;
    for (int i = 0; i < r.k; i++) g.push_back(gid(kv.first->GetMultGate(i)));
    cnt[g]++;
    auto& d = kv.second;
    m[g] = "{\"g\":" + ids(g) + ",\"a\":" + lim(d.mShrA) + ",\"b\":" + lim(d.mShrB) + ",\"c\":" + lim(d.mShrC) +
           ",\"o\":[" + lim(d.mShrO1) + "," + lim(d.mShrO2) + "," + lim(d.mShrO3) + "]}";
  }
  bool f = true;
  for (auto& kv : m)
    if (cnt[kv.first] == 1) { o << (f ? "" : ",") << kv.second; f = false; }
  o << "],\"nmb\":" << corr.mMapMultBatch.size() << ",\"io\":[";
  std::map<std::vector<int>, std::string> io;
  int nio = 0;
  for (auto& kv : corr.mMapInputBatch) {
    std::vector<int> g = {0, (int)kv.first->GetOwner() + 1};
    for (int i = 0; i < r.k; i++) g.push_back(gid(kv.first->GetInputGate(i)));
    io[g] = lim(kv.second.mShrO);
    nio++;
  }
  for (auto& kv : corr.mMapOutputBatch) {
    std::vector<int> g = {1, (int)kv.first->GetOwner() + 1};
    for (int i = 0; i < r.k; i++) g.push_back(gid(kv.first->GetOutputGate(i)));
    io[g] = lim(kv.second.mShrO);
    nio++;
  }
  f = true;
  for (auto& kv : io) {
    std::vector<int> g(kv.first.begin() + 2, kv.first.end());
    o << (f ? "" : ",") << "{\"kind\":\"" << (kv.first[0] ? "out" : "in") << "\",\"own\":" << kv.first[1] << ",\"g\":" << ids(g)
      << ",\"o\":" << kv.second << "}";
    f = false;
  }
  o << "],\"nio\":" << nio << "}";
  return o.str();
}

// values of the gates selected by `sel`, as [[id, value], ...]
static std::string gate_vals(const char* e, int p, Party& P, const std::function<bool(tp::Gate*)>& sel,
                             const std::function<FF(tp::Gate*)>& get) {
  std::string o = std::string("{\"e\":\"") + e + "\",\"p\":" + std::to_string(p + 1) + ",\"v\":[";
  bool f = true;
  for (std::size_t i = 0; i < P.g.size(); i++)
    if (sel(P.g[i].get())) {
      o += (f ? "[" : ",[") + std::to_string(i + 1) + "," + lim(get(P.g[i].get())) + "]";
      f = false;
    }
  return o + "]}";
}

static std::string lam_event(int p, Party& P) {
  return gate_vals("lam", p, P, [&](tp::Gate* g) {
    if (auto* i = dynamic_cast<tp::InputGate*>(g)) return (int)i->GetOwner() == p;
    if (auto* o = dynamic_cast<tp::OutputGate*>(g)) return (int)o->GetOwner() == p;
    return false; }, [](tp::Gate* g) { return g->GetDummyLambda(); });
}

static void prep_dummy(const Run& r, Party& P) {
  if (r.variant == "d1") P.c._DummyPrep(from_u64(r.lam_const));
  else if (r.variant == "d2") {
    P.c.SetDummyLambdas(from_u64(r.lam_const));
    P.c.PopulateDummyLambdas();
    P.c.PrepFromDummyLambdas();
  } else if (r.variant == "d3") {
    for (auto& kv : r.lam) {
      tp::Gate* g = P.g.at(kv.first - 1).get();
      if (auto* i = dynamic_cast<tp::InputGate*>(g)) i->SetLambda(from_u64(kv.second));
      else if (auto* m = dynamic_cast<tp::MultGate*>(g)) m->SetDummyLambda(from_u64(kv.second));
    }
    P.c.PopulateDummyLambdas();
    P.c.PrepFromDummyLambdas();
  } else P.c._DummyPrep();  // d4
}

static void party_body(const Run& r, sim::World& w, Party& P, int p, bool* recv_done) {
  auto& c = P.c;
  if (r.mode == "fi" || r.variant == "d5") {
    if (r.mode == "fi") {
      if (r.variant == "sep") {
        w.op("IndS", [&] { c.GenIndShrsPartiesSend(); });
        w.op("IndR", [&] { c.GenIndShrsPartiesReceive(); });
        w.op("UnpS", [&] { c.GenUnpackedShrPartiesSend(); });
        w.op("UnpR", [&] { c.GenUnpackedShrPartiesReceive(); });
        w.op("ZeroS", [&] { c.GenZeroPartiesSend(); });
        w.op("ZeroR", [&] { c.GenZeroPartiesReceive(); });
        w.op("ZProdS", [&] { c.GenZeroForProdPartiesSend(); });
        w.op("ZProdR", [&] { c.GenZeroForProdPartiesReceive(); });
      } else {  // "seq": one send half then one receive half; "conc": both at once
        w.op("FIS", [&] { c.FIPrepSend(); });
        if (r.variant == "conc") w.wait_for([=] { return *recv_done; });
        else w.op("FIR", [&] { c.FIPrepRecv(); });
      }
      w.op("ProdS", [&] { c.GenProdPartiesSendP1(); });
      w.op("ProdP1", [&] { c.GenProdP1ReceivesAndSends(); });
      w.op("ProdR", [&] { c.GenProdPartiesReceive(); });
    } else {
      if (r.lam_const) c.PopulateDummyCorrelator(from_u64(r.lam_const));
      else c.PopulateDummyCorrelator();
    }
    w.op("Map", [&] { c.MapCorrToCircuit(); });
    w.event(corr_event(r, p, P));
    w.op("MultPrepS", [&] { c.PrepMultPartiesSendP1(); });
    w.op("MultPrepP1", [&] { c.PrepMultP1ReceivesAndSends(); });
    w.op("IOPrepS", [&] { c.PrepIOPartiesSendOwner(); });
    w.op("MultPrepR", [&] { c.PrepMultPartiesReceive(); });
    w.op("IOPrepR", [&] { c.PrepIOOwnerReceives(); });
    w.event(lam_event(p, P));
  } else {
    prep_dummy(r, P);
  }
  std::vector<FF> in;
  for (auto v : r.inputs[p]) in.push_back(from_u64(v));
  c.SetInputs(in);
  if (r.whole) {
    w.op("Online", [&] { c.RunProtocol(); });
  } else {
    w.op("InS", [&] { c.InputOwnerSendsP1(); });
    w.op("InP1", [&] { c.InputP1Receives(); });
    for (int l = 0; l < P.layers; l++) {
      w.op("P1S", [&] { c.MultP1Sends(l); }, l + 1);
      w.op("PR", [&] { c.MultPartiesReceive(l); }, l + 1);
      w.op("PS", [&] { c.MultPartiesSend(l); }, l + 1);
      w.op("P1R", [&] { c.MultP1Receives(l); }, l + 1);
    }
    w.op("OutS", [&] { c.OutputP1SendsMu(); });
    w.op("OutR", [&] { c.OutputOwnerReceivesMu(); });
  }
  if (p == 0)
    w.event(gate_vals("mu", p, P, [](tp::Gate*) { return true; }, [](tp::Gate* g) { return g->GetMu(); }));
  std::string o = "{\"e\":\"out\",\"p\":" + std::to_string(p + 1) + ",\"v\":[";
  auto out = c.GetOutputs();
  for (std::size_t i = 0; i < out.size(); i++) o += (i ? "," : "") + lim(out[i]);
  w.event(o + "]}");
}

static void execute(const Run& r, const std::function<void(const std::string&)>& emit) {
  sim::World w(r.n, r.seed);
  w.yield_permille = r.yield;
  w.script = r.script;
  set_dealer(r, w);
  w.record = r.record;
  std::vector<Party> ps(r.n);
  std::vector<char> recv_done(r.n, 0);
  try {
    for (int p = 0; p < r.n; p++) {
      build(r, ps[p]);
      ps[p].c.SetNetwork(sim::make_network(w, p), p);
      if (r.mode == "fi" || r.variant == "d5") {
        ps[p].c.GenCorrelator();
        ps[p].c.SetThreshold(r.t);
      }
    }
  } catch (const std::exception& e) {
    emit(std::string("{\"e\":\"abort\",\"p\":0,\"op\":\"setup\",\"why\":\"") + e.what() + "\"}");
    return;
  }
  for (int p = 0; p < r.n; p++) {
    w.add(p, [&, p] { party_body(r, w, ps[p], p, (bool*)&recv_done[p]); });
    if (r.mode == "fi" && r.variant == "conc")
      w.add(p, [&, p] {
        w.op("FIR", [&] { ps[p].c.FIPrepRecv(); });
        recv_done[p] = 1;
      });
  }
  w.run();
  for (auto& e : w.events) emit(e);
  if (w.blocked_in_script) emit("{\"e\":\"blocked\"}");
  std::size_t left = 0;
  for (auto& a : w.q) for (auto& b : a) left += b.size();
  emit("{\"e\":\"end\",\"left\":" + std::to_string(left) + "}");
}

int main(int argc, char** argv) { return run_script(argc, argv, execute); }
