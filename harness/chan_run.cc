// Explores the schedules of small programs over channels and prints every distinct history.
#include "scl/net/mem_channel.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/threaded_sender.h"
#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef future
#undef async
#undef launch
#undef deque
#undef sleep_for
#include "coop_rt.h"
#include "simsock.h"
#include "util.h"
using std::string;

struct Op { char k; int n; };                 // s send, r receive, c close, x destroy, a the connection fails, w peer process gone
struct Thread { int end; std::vector<Op> ops; };

static unsigned char code(int dir, int k) { return (unsigned char)((k * 7 + dir * 101 + 3) % 251); }

int main() {
  string line;
  // run NAME KIND0 KIND1 CAPACITY BUDGET MAXRUNS RANDOM SEED, then a line per thread: END op op ...
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name, k0, k1;
    coop::Options o;
    sim::Config sc;
    is >> kw >> name >> k0 >> k1 >> sc.capacity >> o.budget >> o.max_runs >> o.random_runs >> o.seed;
    o.max_steps = 4000;
    std::vector<Thread> prog;
    while (std::getline(std::cin, line) && line != "end") {
      std::istringstream ls(line);
      prog.emplace_back();
      ls >> prog.back().end;
      string w;
      while (ls >> w) prog.back().ops.push_back({w[0], w.size() > 1 ? std::stoi(w.substr(1)) : 0});
    }
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      std::set<string> seen;
      string hist;
      auto ev = [&](int t, int k, char op, int end, int n, int ok, const string& data) {
        hist += "[" + std::to_string(t) + "," + std::to_string(k) + ",\"" + op + "\"," + std::to_string(end) + "," +
                std::to_string(n) + "," + std::to_string(ok) + ",[" + data + "]],";
      };
      struct World { scl::Channel* ch[2] = {nullptr, nullptr}; std::shared_ptr<scl::Channel> own[2]; int fd[2] = {-1, -1}; int sent[2] = {0, 0}; };
      std::vector<int> ids;
      auto setup = [&] {
        hist.clear();
        sim::reset(sc);
        ids.clear();
        auto* w = new World();
        auto make = [w](const string& k, int e) {
          if (k == "tcp") w->own[e] = std::make_shared<scl::TcpChannel>(w->fd[e]);
          if (k == "thr") w->own[e] = std::make_shared<scl::ThreadedSenderChannel>(w->fd[e]);
          w->ch[e] = w->own[e].get();
        };
        coop::spawn([&, w, make] {
          if (k0 == "mem") {
            auto p = scl::InMemoryChannel::CreatePaired();
            for (int e = 0; e < 2; e++) { w->own[e] = p[e]; w->ch[e] = p[e].get(); }
          } else if (k0 == "self") {
            w->own[0] = scl::InMemoryChannel::CreateSelfConnecting();
            w->ch[0] = w->own[0].get();
          } else {
            auto p = sim::pair(0, 1);
            w->fd[0] = p.first; w->fd[1] = p.second;
            make(k0, 0);
            make(k1, 1);
          }
          for (int t = 0; t < (int)prog.size(); t++)
            ids.push_back(coop::spawn([&, w, t] {
              int e = prog[t].end;
              for (auto& op : prog[t].ops) {
                ev(t + 1, 0, op.k, e, op.n, 1, "");
                int ok = 1;
                string data;
                try {
                  if (op.k == 's') {
                    std::unique_ptr<unsigned char[]> b(new unsigned char[op.n]);
                    for (int i = 0; i < op.n; i++) b[i] = code(e, w->sent[e] + i);
                    w->sent[e] += op.n;
                    w->ch[e]->Send(b.get(), (std::size_t)op.n);
                    for (int i = 0; i < op.n; i++) b[i] = 252;
                  } else if (op.k == 'r') {
                    std::vector<unsigned char> b(op.n + 16, 253);
                    w->ch[e]->Recv(b.data() + 8, (std::size_t)op.n);
                    for (int i = 0; i < op.n; i++) data += (i ? "," : "") + std::to_string((int)b[8 + i]);
                    for (int i = 0; i < 8; i++) if (b[i] != 253 || b[8 + op.n + i] != 253) data += ",999";
                  } else if (op.k == 'c') w->ch[e]->Close();
                  else if (op.k == 'f') static_cast<scl::InMemoryChannel*>(w->ch[e])->Flush();
                  else if (op.k == 'x') w->own[e].reset();
                  else if (op.k == 'a') sim::abort_connection(w->fd[e]);
                  else if (op.k == 'n') {     // an unrelated connection takes up the free descriptors; its far end listens
                    auto p = sim::pair(0, 2);
                    int far = p.second;
                    coop::spawn([far] { unsigned char c; if (read(far, &c, 1) > 0) coop::bad("data on an unrelated connection"); });
                  }
                } catch (const std::exception&) { ok = 0; data.clear(); }
                ev(t + 1, 1, op.k, e, op.n, ok, data);
                coop::point();
              }
            }));
        });
      };
      std::size_t n = coop::explore(o, setup, [&](const coop::Outcome& oc) {
        string h = "{\"ev\":[" + hist + "[0,2,\"end\",0,0,0,[]]],\"blocked\":[";
        bool first = true;
        for (int b : oc.blocked) {
          auto it = std::find(ids.begin(), ids.end(), b);      // the channels' own threads and listeners do not count
          if (b == 0 || it != ids.end()) { h += (first ? "" : ",") + std::to_string(b == 0 ? 0 : int(it - ids.begin()) + 1); first = false; }
        }
        h += "],\"trouble\":\"" + oc.trouble + "\"";
        if (seen.insert(h).second) {
          string sched;
          for (auto& d : oc.path) sched += (sched.empty() ? "" : " ") + std::to_string(d.chosen);
          emit(h + ",\"schedule\":\"" + sched + "\"}");
        }
        return seen.size() < 4000;
      });
      emit("{\"runs\":" + std::to_string(n) + "}");
    }, 300);
    for (auto& x : out) std::cout << name << "\t" << x << "\n";
    std::cout << name << "\tdone\n" << std::flush;
  }
}
