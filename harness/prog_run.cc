// Runs the shipped programs (experiments/ours.cc, experiments/dn07.cc), all parties at once on one simulated host.
#include <iostream>
#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef future
#undef async
#undef launch
#undef deque
#undef sleep_for
#include "coop_rt.h"
#include "simsock.h"
#include "util.h"
using std::string;
using std::to_string;
extern "C" int ours_program(int, char**);
extern "C" int dn07_program(int, char**);

int main() {
  string line;
  struct Nul : std::streambuf { int overflow(int c) override { return c; } } nul;
  // run NAME PROGRAM CAPACITY BUDGET MAXRUNS RANDOM SEED, then a line per party: DELAY ARGUMENT ..
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name, kind;
    coop::Options o;
    sim::Config sc;
    is >> kw >> name >> kind >> sc.capacity >> o.budget >> o.max_runs >> o.random_runs >> o.seed;
    o.max_steps = 20000000;
    sc.shorts = o.budget > 0;
    std::vector<int> delay;
    std::vector<std::vector<string>> args;
    while (std::getline(std::cin, line) && line != "end") {
      std::istringstream ls(line);
      delay.push_back(0);
      args.emplace_back();
      ls >> delay.back();
      string w;
      while (ls >> w) args.back().push_back(w);
    }
    int n = (int)args.size();
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      std::set<string> seen;
      std::vector<int> ids;
      std::vector<string> res;
      auto* old = std::cout.rdbuf(&nul);
      auto setup = [&] {
        ids.clear();
        res.assign(n, "none");
        sim::reset(sc);
        coop::spawn([&] {
          for (int p = 0; p < n; p++) ids.push_back(coop::spawn([&, p] {
            coop::tag() = 256 * p;
            for (int d = 0; d < delay[p]; d++) coop::nap(300000000);
            std::vector<string> a = args[p];
            std::vector<char*> v;
            for (auto& x : a) v.push_back(&x[0]);
            v.push_back(nullptr);
            try {
              int rc = (kind == "ours" ? ours_program : dn07_program)((int)a.size(), v.data());
              res[p] = "exit" + to_string(rc);
            } catch (const std::exception&) { res[p] = "refused"; }
          }));
        });
      };
      std::size_t runs = coop::explore(o, setup, [&](const coop::Outcome& oc) {
        string h = "{\"res\":[";
        for (int p = 0; p < n; p++) h += (p ? ",\"" : "\"") + res[p] + "\"";
        h += "],\"blocked\":" + to_string(oc.blocked.size()) + ",\"open\":" + to_string(sim::open_sockets()) + ",\"sent\":[";
        for (int p = 0; p < n; p++) {
          h += p ? ",[" : "[";
          for (int q = 0; q < n; q++) h += (q ? "," : "") + to_string(sim::traffic(p, q).first);
          h += "]";
        }
        h += "],\"left\":[";
        for (int p = 0; p < n; p++) {
          h += p ? ",[" : "[";
          for (int q = 0; q < n; q++) h += (q ? "," : "") + to_string(sim::traffic(p, q).first - sim::traffic(p, q).second);
          h += "]";
        }
        h += "],\"trouble\":\"" + oc.trouble + "\"";
        if (seen.insert(h).second) {
          string sched;
          for (auto& d : oc.path) if (sched.size() < 3000) sched += (sched.empty() ? "" : " ") + to_string(d.chosen);
          emit(h + ",\"schedule\":\"" + sched + "\"}");
        }
        return seen.size() < 50;
      });
      std::cout.rdbuf(old);
      emit("{\"runs\":" + to_string(runs) + "}");
    }, 700);
    for (auto& x : out) std::cout << name << "\t" << x << "\n";
    std::cout << name << "\tdone\n" << std::flush;
  }
}
