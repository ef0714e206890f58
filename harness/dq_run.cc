// Explores the schedules of small programs over the shared queue and prints every distinct history.
#include "scl/net/shared_deque.h"
#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef thread
#undef future
#undef async
#undef launch
#undef deque
#undef sleep_for
#include "coop_rt.h"
#include "util.h"
using std::string;

// an element whose copies can be interrupted, and which knows whether it is still alive
struct Item {
  int v;
  Item(int v = 0) : v(v) {}
  Item(const Item& o) : v(o.v) { coop::point(); if (o.v != v) v = -5; }
  Item(Item&& o) noexcept : v(o.v) { o.v = -1; coop::point(); }
  Item& operator=(const Item& o) { int x = o.v; coop::point(); v = o.v == x ? x : -5; return *this; }
  Item& operator=(Item&& o) noexcept { v = o.v; o.v = -1; coop::point(); return *this; }
  ~Item() { v = -2; }
};
using Q = scl::details::SharedDeque<Item>;

struct Op { string name; int v; };

int main() {
  string line;
  // run NAME BUDGET MAXRUNS RANDOM SEED, then one line per thread: op:v op:v ...
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name;
    coop::Options o;
    is >> kw >> name >> o.budget >> o.max_runs >> o.random_runs >> o.seed;
    std::vector<std::vector<Op>> prog;
    while (std::getline(std::cin, line) && line != "end") {
      std::istringstream ls(line);
      prog.emplace_back();
      string w;
      while (ls >> w) {
        auto c = w.find(':');
        prog.back().push_back({w.substr(0, c), c == string::npos ? 0 : std::stoi(w.substr(c + 1))});
      }
    }
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      std::map<string, std::size_t> seen;
      string hist;
      auto ev = [&](int t, int k, const string& op, int v) {
        hist += "[" + std::to_string(t) + "," + std::to_string(k) + ",\"" + op + "\"," + std::to_string(v) + "],";
      };
      auto setup = [&] {
        hist.clear();
        auto* q = new Q();
        auto* left = new int((int)prog.size());
        for (int t = 0; t < (int)prog.size(); t++)
          coop::spawn([&, q, t, left] {
            for (auto& op : prog[t]) {
              ev(t + 1, 0, op.name, op.v);
              int r = 0;
              if (op.name == "push") q->PushBack(Item(op.v));
              else if (op.name == "pushc") { const Item i(op.v); q->PushBack(i); }
              else if (op.name == "pop") { Item i = q->Pop(); r = i.v; }
              else if (op.name == "popfront") q->PopFront();
              else if (op.name == "peek") { Item i = q->Peek(); r = i.v; }      // the only remover
              else if (op.name == "await") q->Peek();                           // waits, does not look
              else if (op.name == "size") r = (int)q->Size();
              ev(t + 1, 1, op.name, r);
              coop::point();
            }
            if (--*left == 0) { delete q; delete left; }
          });
      };
      std::size_t n = coop::explore(o, setup, [&](const coop::Outcome& oc) {
        string h = "{\"ev\":[" + hist + "[0,2,\"end\",0]],\"blocked\":[";
        for (std::size_t i = 0; i < oc.blocked.size(); i++) h += (i ? "," : "") + std::to_string(oc.blocked[i] + 1);
        h += "],\"trouble\":\"" + oc.trouble + "\"";
        if (seen.emplace(h, 0).second) {
          string sched;
          for (auto& d : oc.path) sched += (sched.empty() ? "" : " ") + std::to_string(d.chosen);
          emit(h + ",\"schedule\":\"" + sched + "\"}");
        }
        return true;
      });
      emit("{\"runs\":" + std::to_string(n) + "}");
    }, 600);
    for (auto& x : out) std::cout << name << "\t" << x << "\n";
    std::cout << name << "\tdone\n" << std::flush;
  }
}
