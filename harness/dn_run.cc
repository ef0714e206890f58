// Runs DN07 executions described by a script on the real code and records them.
//   dn_run SCRIPT OUT.ndjson        (variant: sep = interactive preprocessing, dz = all zero, dc = constant lamc)
#include "tp_common.h"
#include "tp/dn07.h"

static void party_body(const Run& r, sim::World& w, Party& P, tp::DN07& d, int p) {
  if (r.variant == "sep") {
    w.op("PrepS", [&] { d.PrepPartiesSend(); });
    w.op("PrepR", [&] { d.PrepPartiesReceive(); });
  } else if (r.variant == "dz") d.DummyPrep();
  else d.DummyPrep(from_u64(r.lam_const));
  w.op("Map", [&] { d.FDMapPrepToGates(); });
  w.op("FDS", [&] { d.FDMultPartiesSendP1(); });
  w.op("FDR", [&] { d.FDMultP1Receives(); });
  std::vector<FF> in;
  for (auto v : r.inputs[p]) in.push_back(from_u64(v));
  d.SetInputs(in);
  w.op("InS", [&] { d.InputPartiesSendOwners(); });
  w.op("InO", [&] { d.InputOwnersReceiveAndSendParties(); });
  w.op("InR", [&] { d.InputPartiesReceive(); });
  for (int l = 0; l < P.layers; l++) {
    w.op("MS", [&] { d.MultPartiesSendP1(l); }, l + 1);
    if (r.whole) w.op("MP1", [&] { d.MultP1ReceivesAndSendsParties(l); }, l + 1);
    else {
      w.op("MP1R", [&] { d.MultP1Receives(l); }, l + 1);
      w.op("MP1S", [&] { d.MultP1SendsParties(l); }, l + 1);
    }
    w.op("MR", [&] { d.MultPartiesReceive(l); }, l + 1);
  }
  w.op("OutS", [&] { d.OutputPartiesSendOwners(); });
  w.op("OutR", [&] { d.OutputOwnersReceive(); });
  std::string s = "{\"e\":\"shares\",\"p\":" + std::to_string(p + 1) + ",\"v\":[";
  for (std::size_t i = 0; i < P.g.size(); i++) s += (i ? "," : "") + lim(P.g[i]->GetDn07Share());
  w.event(s + "]}");
  std::size_t mine = 0;
  for (auto& g : P.g)
    if (auto* o = dynamic_cast<tp::OutputGate*>(g.get())) mine += (int)o->GetOwner() == p;
  std::string o = "{\"e\":\"out\",\"p\":" + std::to_string(p + 1) + ",\"v\":[";
  for (std::size_t i = 0; i < mine; i++) o += (i ? "," : "") + lim(d.GetOutput(p, i));
  w.event(o + "]}");
}

static void execute(const Run& r, const std::function<void(const std::string&)>& emit) {
  sim::World w(r.n, r.seed);
  w.yield_permille = r.yield;
  w.script = r.script;
  set_dealer(r, w);
  std::vector<Party> ps(r.n);
  std::vector<tp::DN07> dn;
  try {
    for (int p = 0; p < r.n; p++) {
      build(r, ps[p]);
      ps[p].c.SetNetwork(sim::make_network(w, p), p);
      dn.emplace_back(r.n, r.t);
      dn.back().SetCircuit(ps[p].c);
    }
  } catch (const std::exception& e) {
    emit(std::string("{\"e\":\"abort\",\"p\":0,\"op\":\"setup\",\"why\":\"") + e.what() + "\"}");
    return;
  }
  for (int p = 0; p < r.n; p++) w.add(p, [&, p] { party_body(r, w, ps[p], dn[p], p); });
  w.run();
  for (auto& e : w.events) emit(e);
  if (w.blocked_in_script) emit("{\"e\":\"blocked\"}");
  std::size_t left = 0;
  for (auto& a : w.q) for (auto& b : a) left += b.size();
  emit("{\"e\":\"end\",\"left\":" + std::to_string(left) + "}");
}

int main(int argc, char** argv) { return run_script(argc, argv, execute); }
