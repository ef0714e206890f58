// Lock-step TurboPack and DN07 runs with recorded messages.
#pragma once
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "tp/circuits.h"
#include "tp/dn07.h"
using tp::FF;
struct Log { std::string step; std::map<std::pair<std::string, std::pair<int, int>>, std::vector<FF>> sent; };  // (step, from, to)
struct Rec : scl::Channel {
  std::shared_ptr<scl::Channel> c; Log* log; int from, to;
  void Close() override { c->Close(); }
  void Send(const unsigned char* s, std::size_t n) override {
    for (std::size_t i = 0; i + 8 <= n; i += 8) log->sent[{log->step, {from, to}}].push_back(FF::Read(s + i));
    c->Send(s, n);
  }
  void Recv(unsigned char* d, std::size_t n) override { c->Recv(d, n); }
};
struct Lock {
  int n, t, k; Log log; std::vector<tp::Circuit> c; std::vector<tp::DN07> d;
  Lock(int n, int t, int k, const std::function<void(tp::Circuit&)>& mk) : n(n), t(t), k(k) {
    auto nets = scl::Network::CreateFullInMemory(n);
    for (int i = 0; i < n; i++) {
      c.emplace_back(n, k);
      mk(c[i]);
      std::vector<std::shared_ptr<scl::Channel>> ch;
      for (int j = 0; j < n; j++) {
        auto r = std::make_shared<Rec>();
        r->c = std::shared_ptr<scl::Channel>(nets[i].Party(j), [](scl::Channel*) {});
        r->log = &log; r->from = i; r->to = j;
        ch.push_back(r);
      }
      keep = nets;
      c[i].SetNetwork(std::make_shared<scl::Network>(ch), i);
    }
  }
  std::vector<scl::Network> keep;
  void all(const std::string& s, const std::function<void(int)>& f) { log.step = s; for (int i = 0; i < n; i++) f(i); }
  void fi() {
    all("corr", [&](int i) { c[i].GenCorrelator(); c[i].SetThreshold(t); });
    all("IndS", [&](int i) { c[i].GenIndShrsPartiesSend(); });
    all("UnpS", [&](int i) { c[i].GenUnpackedShrPartiesSend(); });
    all("ZeroS", [&](int i) { c[i].GenZeroPartiesSend(); });
    all("ZProdS", [&](int i) { c[i].GenZeroForProdPartiesSend(); });
    all("R", [&](int i) { c[i].FIPrepRecv(); });
    all("ProdS", [&](int i) { c[i].GenProdPartiesSendP1(); });
    all("ProdP1", [&](int i) { c[i].GenProdP1ReceivesAndSends(); });
    all("ProdR", [&](int i) { c[i].GenProdPartiesReceive(); });
    all("map", [&](int i) { c[i].MapCorrToCircuit(); });
  }
  void fd() {
    all("MultS", [&](int i) { c[i].PrepMultPartiesSendP1(); });
    all("MultP1", [&](int i) { c[i].PrepMultP1ReceivesAndSends(); });
    all("MultR", [&](int i) { c[i].PrepMultPartiesReceive(); });
    all("IOS", [&](int i) { c[i].PrepIOPartiesSendOwner(); });
    all("IOR", [&](int i) { c[i].PrepIOOwnerReceives(); });
  }
  void online(const std::vector<std::vector<FF>>& in) {
    all("in", [&](int i) { c[i].SetInputs(in[i]); });
    all("InS", [&](int i) { c[i].InputOwnerSendsP1(); });
    all("InR", [&](int i) { c[i].InputP1Receives(); });
    for (std::size_t l = 0; l < c[0].GetDepth(); l++) {
      std::string s = std::to_string(l);
      all("P1S" + s, [&](int i) { c[i].MultP1Sends(l); });
      all("PR" + s, [&](int i) { c[i].MultPartiesReceive(l); });
      all("PS" + s, [&](int i) { c[i].MultPartiesSend(l); });
      all("P1R" + s, [&](int i) { c[i].MultP1Receives(l); });
    }
    all("OutS", [&](int i) { c[i].OutputP1SendsMu(); });
    all("OutR", [&](int i) { c[i].OutputOwnerReceivesMu(); });
  }
  void dn(const std::vector<std::vector<FF>>& in) {
    for (int i = 0; i < n; i++) { d.emplace_back(n, t); d[i].SetCircuit(c[i]); }
    all("PrepS", [&](int i) { d[i].PrepPartiesSend(); });
    all("PrepR", [&](int i) { d[i].PrepPartiesReceive(); });
    all("Map", [&](int i) { d[i].FDMapPrepToGates(); });
    all("FDS", [&](int i) { d[i].FDMultPartiesSendP1(); });
    all("FDR", [&](int i) { d[i].FDMultP1Receives(); });
    all("in", [&](int i) { d[i].SetInputs(in[i]); });
    all("InS", [&](int i) { d[i].InputPartiesSendOwners(); });
    all("InO", [&](int i) { d[i].InputOwnersReceiveAndSendParties(); });
    all("InR", [&](int i) { d[i].InputPartiesReceive(); });
    for (std::size_t l = 0; l < c[0].GetDepth(); l++) {
      std::string s = std::to_string(l);
      all("MS" + s, [&](int i) { d[i].MultPartiesSendP1(l); });
      all("MP1R" + s, [&](int i) { d[i].MultP1Receives(l); });
      all("MP1S" + s, [&](int i) { d[i].MultP1SendsParties(l); });
      all("MR" + s, [&](int i) { d[i].MultPartiesReceive(l); });
    }
    all("OutS", [&](int i) { d[i].OutputPartiesSendOwners(); });
    all("OutR", [&](int i) { d[i].OutputOwnersReceive(); });
  }
  std::vector<FF> col(const std::string& step, int to, std::size_t idx) {  // the idx-th value everybody sent to `to`
    std::vector<FF> v;
    for (int p = 0; p < n; p++) v.push_back(log.sent[{step, {p, to}}].at(idx));
    return v;
  }
  std::vector<FF> row(const std::string& step, int from, std::size_t idx) {  // the idx-th value `from` sent to everybody
    std::vector<FF> v;
    for (int p = 0; p < n; p++) v.push_back(log.sent[{step, {from, p}}].at(idx));
    return v;
  }
};
// value at x of the polynomial through (i+1, ys[i])
static FF at(const std::vector<FF>& ys, long x, std::size_t m = 0) {
  if (!m) m = ys.size();
  FF r(0);
  for (std::size_t i = 0; i < m; i++) {
    FF w(1);
    for (std::size_t j = 0; j < m; j++) if (j != i) w = w * (FF((int)(x - (long)j - 1)) / FF((int)((long)i - (long)j)));
    r = r + w * ys[i];
  }
  return r;
}
static int degree(const std::vector<FF>& ys) {  // least d such that the first d+1 values determine the others
  for (std::size_t d = 0; d + 1 < ys.size(); d++) {
    bool ok = true;
    for (std::size_t j = d + 1; j < ys.size() && ok; j++) ok = at(ys, j + 1, d + 1) == ys[j];
    if (ok) return d;
  }
  return (int)ys.size() - 1;
}
#define EXPECT(c) do { if (!(c)) { printf("does not hold: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
