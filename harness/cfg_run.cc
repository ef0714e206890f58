// Makes network configurations of what is on the standard input and prints what they say.
#include <fstream>
#include <iostream>
#include <sstream>
#include "scl/net/config.h"
#include "util.h"
using std::string;
static string codes(const string& s) {
  string r = "[";
  for (unsigned char c : s) r += (r.size() > 1 ? "," : "") + std::to_string((int)c);
  return r + "]";
}
static string unhex(const string& s) {
  string r;
  for (std::size_t i = 1; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16);
  return r;
}
int main(int, char** argv) {
  string line, path = argv[1];
  std::vector<string> all;
  while (std::getline(std::cin, line)) all.push_back(line);
  std::size_t at = 0;
  while (at < all.size()) {       // a child handles as many as it can; one that kills it is answered with ok = 7
    auto out = hutil::forked([&](const std::function<void(const string&)>& emit) {
      for (std::size_t k = at; k < all.size(); k++) {
        std::istringstream is(all[k]);      // load ME .HEX | list ME N (ID PORT .HEX)* | local ME N BASE
        string op, w, r;
        unsigned me;
        is >> op >> me;
        bool made = false;
        try {
          scl::NetworkConfig c;
          if (op == "load") {
            is >> w;
            { std::ofstream f(path, std::ios::binary); f << unhex(w); }
            c = scl::NetworkConfig::Load(me, path);
          } else if (op == "list") {
            std::size_t n;
            is >> n;
            std::vector<scl::Party> ps;
            for (std::size_t i = 0; i < n; i++) { scl::Party p; is >> p.id >> p.port >> w; p.hostname = unhex(w); ps.push_back(p); }
            c = scl::NetworkConfig(me, ps);
          } else {
            std::size_t n;
            int base;
            is >> n >> base;
            c = scl::NetworkConfig::Localhost(me, n, base);
          }
          made = true;
          auto row = [](const scl::Party& p) { return "[" + std::to_string((int)p.id) + "," + codes(p.hostname) + "," + std::to_string(p.port) + "]"; };
          r = "{\"ok\":1,\"id\":" + std::to_string((int)c.Id()) + ",\"size\":" + std::to_string(c.NetworkSize()) + ",\"parties\":[";
          bool f = true;
          for (auto& p : c.Parties()) { r += (f ? "" : ",") + row(p); f = false; }
          r += "],\"get\":[";
          for (std::size_t i = 0; i < c.NetworkSize(); i++) r += (i ? "," : "") + row(c.GetParty((unsigned)i));
          r += "],\"text\":" + codes(c.ToString()) + "}";
        } catch (const std::exception&) { r = made ? "{\"ok\":7}" : "{\"ok\":0}"; }   // made, but could not be asked
        emit(r);
      }
    }, 120);
    for (auto& x : out) {
      if (x.find("\"crash\"") != string::npos) x = "{\"ok\":7}";
      std::cout << x << "\n";
      at++;
    }
    std::cout << std::flush;
  }
}
