// Reads programs over generators and prints one line per program: name and the recorded events.
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include "scl/prg.h"
#include "util.h"
using std::string;
using scl::PRG;

static std::vector<unsigned char> unhex(const string& h) {
  std::vector<unsigned char> v;
  if (h == "-") return v;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) v.push_back((unsigned char)std::stoi(h.substr(i, 2), nullptr, 16));
  return v;
}
static string list(const unsigned char* p, std::size_t n) {
  string r = "[";
  for (std::size_t i = 0; i < n; i++) r += (i ? "," : "") + std::to_string((int)p[i]);
  return r + "]";
}

static void program(const std::vector<string>& toks, const std::function<void(const string&)>& emit) {
  std::vector<PRG> g(5);
  for (auto& line : toks) {
    std::istringstream is(line);
    string op, a, kind;
    int s = 0, f = 0;
    std::size_t n = 0, size = 0;
    is >> op >> s;
    string r = "[]";
    int ok = 1, over = 0;
    if (op == "new") { is >> a; auto v = unhex(a); g[s] = PRG(v.data()); v.assign(16, 0x77); }
    else if (op == "def") g[s] = PRG();
    else if (op == "copy") { is >> f; PRG c(g[f]); g[s] = c; }
    else if (op == "reset") g[s].Reset();
    else if (op == "ctr") { long c = g[s].Counter(); r = list((unsigned char*)&c, 8); }
    else if (op == "seed") r = list(g[s].Seed(), 16);
    else if (op == "next") {
      is >> kind >> n >> size;
      if (kind == "ptr") {
        std::vector<unsigned char> v(n + 64, 0xA7);
        g[s].Next(v.data() + 32, n);
        for (int i = 0; i < 32; i++) if (v[i] != 0xA7 || v[n + 32 + i] != 0xA7) over = 1;
        r = list(v.data() + 32, n);
      } else if (kind == "vec") {
        std::vector<unsigned char> v(n, 0xA7);
        g[s].Next(v);
        if (v.size() != n) over = 1;
        r = list(v.data(), n);
      } else if (kind == "part") {
        std::vector<unsigned char> v(size, 0xA7);
        ok = hutil::attempt([&] { g[s].Next(v, n); }).empty();
        if (v.size() != size) over = 1;
        for (std::size_t i = ok ? n : 0; i < v.size(); i++) if (v[i] != 0xA7) over = 1;
        if (ok && v.size() >= n) r = list(v.data(), n);
      } else {
        auto v = g[s].Next(n);
        if (v.size() != n) over = 1;
        r = list(v.data(), v.size());
      }
    }
    emit("{\"ok\":" + std::to_string(ok) + ",\"over\":" + std::to_string(over) + ",\"r\":" + r + "}");
  }
  emit("{\"end\":1}");
}

int main() {
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    string kw, name;
    is >> kw >> name;
    std::vector<string> toks;
    while (std::getline(std::cin, line) && line != "end") toks.push_back(line);
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) { program(toks, emit); }, 10);
    std::cout << name;
    for (auto& x : out) std::cout << "\t" << x;
    std::cout << "\n";
  }
}
