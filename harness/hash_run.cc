// Reads programs over hash objects and prints one line per program: name and the recorded events.
#include <iostream>
#include <memory>
#include <sstream>
#include "scl/hash.h"
#include "util.h"
using std::string;

static std::vector<unsigned char> unhex(const string& h) {
  std::vector<unsigned char> v;
  if (h == "-") return v;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) v.push_back((unsigned char)std::stoi(h.substr(i, 2), nullptr, 16));
  return v;
}

template <std::size_t B>
static void program(const std::vector<string>& toks, const std::function<void(const string&)>& emit) {
  using H = scl::details::Hash<B>;
  std::vector<std::unique_ptr<H>> o(5);
  for (auto& x : o) x = std::make_unique<H>();
  for (auto& line : toks) {
    std::istringstream is(line);
    string op, a;
    int s = 0, f = 0;
    is >> op >> s;
    string r = "[]";
    if (op == "new") o[s] = std::make_unique<H>();
    else if (op == "copy") { is >> f; if (line.back() == '=') *o[s] = *o[f]; else o[s] = std::make_unique<H>(*o[f]); }
    else if (op == "upd" || op == "updv") {
      is >> a;
      auto v = unhex(a);
      H* res;
      if (op == "updv") res = &o[s]->Update(v);
      else {
        // an exactly sized heap block, so that reading past it is seen by the allocator's checks
        std::unique_ptr<unsigned char[]> p(v.empty() ? nullptr : new unsigned char[v.size()]);
        if (!v.empty()) memcpy(p.get(), v.data(), v.size());
        res = &o[s]->Update(p.get(), v.size());
      }
      if (res != o[s].get()) r = "[-1]";
    } else if (op == "chain") {   // Update(a).Update(b)
      string b;
      is >> a >> b;
      o[s]->Update(unhex(a)).Update(unhex(b));
    } else if (op == "fin") {
      auto d = o[s]->Finalize();
      r = "[";
      for (std::size_t i = 0; i < d.size(); i++) r += (i ? "," : "") + std::to_string((int)d[i]);
      r += "]";
      o[s] = std::make_unique<H>();
    }
    emit("{\"r\":" + r + "}");
  }
  emit("{\"end\":1}");
}

int main() {
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name;
    int b;
    is >> kw >> name >> b;
    std::vector<string> toks;
    while (std::getline(std::cin, line) && line != "end") toks.push_back(line);
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      if (b == 256) program<256>(toks, emit);
      else if (b == 384) program<384>(toks, emit);
      else program<512>(toks, emit);
    }, 10);
    std::cout << name;
    for (auto& x : out) std::cout << "\t" << x;
    std::cout << "\n";
  }
}
