// Explores the schedules of network creation and of discovery among simulated hosts.
#include "scl/net/config.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#include "scl/net/network.h"
#include "scl/net/tcp_utils.h"
#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef future
#undef async
#undef launch
#undef deque
#undef sleep_for
#include "coop_rt.h"
#include "simsock.h"
#include "util.h"
using std::string;
using std::to_string;

// A party: its host, how late it starts, and what it does then.
struct Who { int host = 0, delay = 0; std::vector<string> ops; };

static std::vector<int> nums(const string& s) {       // "3:17:-2" -> 3 17 -2
  std::vector<int> r;
  std::istringstream is(s);
  string x;
  while (std::getline(is, x, ':')) r.push_back((int)std::stoll(x));
  return r;
}

int main() {
  string line;
  // run NAME KIND PORT CAPACITY BUDGET MAXRUNS RANDOM SEED ME, order i.., then a line per party: HOST:PORT DELAY op ..
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name, kind;
    int dport, me;
    coop::Options o;
    sim::Config sc;
    is >> kw >> name >> kind >> dport >> sc.capacity >> o.budget >> o.max_runs >> o.random_runs >> o.seed >> me;
    o.max_steps = 30000;
    std::vector<int> order, ports;
    std::vector<Who> who;
    while (std::getline(std::cin, line) && line != "end") {
      std::istringstream ls(line);
      string w;
      ls >> w;
      if (w == "order") {
        int x;
        while (ls >> x) order.push_back(x);
        continue;
      }
      who.emplace_back();
      auto v = nums(w);
      who.back().host = v[0];
      ports.push_back(v[1]);
      ls >> who.back().delay;
      while (ls >> w) who.back().ops.push_back(w);
    }
    int n = (int)who.size();
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      std::set<string> seen;
      string hist;
      std::vector<int> ids;
      struct World { std::vector<scl::Network> net; std::vector<std::shared_ptr<scl::Channel>> remote; };
      auto addr = [](int h) { return "10.0.0." + to_string(h + 1); };
      auto setup = [&] {
        hist.clear();
        ids.clear();
        sim::reset(sc);
        auto* w = new World();
        coop::spawn([&, w] {
          w->net.resize(n);
          if (kind == "full") w->net = scl::Network::CreateFullInMemory(n);
          if (kind == "mock") {
            auto m = scl::Network::CreateMock(me, n);
            w->net[me] = m.first;
            w->remote = m.second;
          }
          for (int p = 0; p < n; p++) ids.push_back(coop::spawn([&, w, p] {
            coop::tag() = who[p].host;
            for (int d = 0; d < who[p].delay; d++) coop::nap(300000000);
            auto ev = [&](const string& k, long a, long b) { hist += "[" + to_string(p) + ",\"" + k + "\"," + to_string(a) + "," + to_string(b) + "],"; };
            auto table = [&](bool ok, const scl::NetworkConfig* c) {
              hist += "[" + to_string(p) + ",\"table\"," + (ok ? "1," : "0,") + (c ? to_string(c->Id()) : "0") + ",[";
              for (std::size_t i = 0; c && i < c->NetworkSize(); i++) {
                auto q = c->GetParty((unsigned)i);
                hist += string(i ? "," : "") + "[" + to_string((long)q.id) + ",\"" + q.hostname + "\"," + to_string(q.port) + "]";
              }
              hist += "]],";
            };
            try {
              if (kind == "tcp" || kind == "thr") {
                std::vector<scl::Party> ps;
                for (int i : order) ps.push_back({(unsigned)i, addr(who[i].host), ports[i]});
                scl::NetworkConfig cfg((unsigned)p, ps);
                w->net[p] = kind == "tcp" ? scl::Network::Create(cfg) : scl::Network::CreateThreadedSenders(cfg);
                ev("created", (long)w->net[p].Size(), 0);
              } else if (kind == "full" || (kind == "mock" && p == me)) ev("created", (long)w->net[p].Size(), 0);
              for (auto& op : who[p].ops) {
                auto v = nums(op.substr(1));
                if (op[0] == 's' || op[0] == 'r') {
                  scl::Channel* ch = kind == "mock" && p != me ? w->remote[p].get() : w->net[p].Party((unsigned)v[0]);
                  if (op[0] == 's') {
                    std::vector<unsigned char> b(v.back(), (unsigned char)v[1]);
                    ev("s", v[0], v[1]);
                    ch->Send(b.data(), b.size());
                  } else {
                    std::vector<unsigned char> b(v.back(), 253);
                    ch->Recv(b.data(), b.size());
                    bool same = true;
                    for (auto x : b) same = same && x == b[0];
                    ev("r", v[0], same ? b[0] : -1);
                  }
                } else if (op[0] == 'S') {            // run the discovery server as id v0 with port v1 for v2 parties
                  ev("server", v[0], v[1]);
                  auto c = scl::DiscoveryServer(dport, (std::size_t)v[2]).Run(scl::Party{(unsigned)v[0], addr(who[p].host), v[1]});
                  table(true, &c);
                } else if (op[0] == 'C') {            // run a discovery client as id v0 with port v1 towards host v2
                  ev("client", v[0], v[1]);
                  auto c = scl::DiscoveryClient(addr(v[2]), dport).Run((unsigned)v[0], v[1]);
                  table(true, &c);
                } else if (op[0] == 'Q') {            // a client that leaves after v1 bytes of its announcement
                  int fd = scl::details::ConnectAsClient(addr(v[0]), dport);
                  unsigned char b[8] = {(unsigned char)v[2], 0, 0, 0, 1, 2, 0, 0};
                  if (v[1] && send(fd, b, (size_t)std::min(v[1], 8), 0) < 0) ev("x", 0, 0);
                  ev("quit", v[1], v[2]);
                  close(fd);
                }
              }
              if (kind == "tcp" || kind == "thr") ev("open", 0, 0);
            } catch (const std::exception&) {
              if (kind == "disc") table(false, nullptr);
              else ev("error", 0, 0);
            }
          }));
        });
      };
      std::size_t runs = coop::explore(o, setup, [&](const coop::Outcome& oc) {
        string h = "{\"ev\":[" + hist + "[-1,\"end\",0,0]],\"blocked\":[";
        bool first = true;
        for (int b : oc.blocked) {
          auto it = std::find(ids.begin(), ids.end(), b);
          if (b == 0 || it != ids.end()) { h += (first ? "" : ",") + to_string(b == 0 ? -1 : int(it - ids.begin())); first = false; }
        }
        int listening = sim::listeners();
        h += "],\"listening\":" + to_string(listening) + ",\"trouble\":\"" + oc.trouble + "\"";
        if (seen.insert(h).second) {
          string sched;
          for (auto& d : oc.path) sched += (sched.empty() ? "" : " ") + to_string(d.chosen);
          emit(h + ",\"schedule\":\"" + sched.substr(0, 3000) + "\"}");
        }
        return seen.size() < 1500;
      });
      emit("{\"runs\":" + to_string(runs) + "}");
    }, 300);
    for (auto& x : out) std::cout << name << "\t" << x << "\n";
    std::cout << name << "\tdone\n" << std::flush;
  }
}
