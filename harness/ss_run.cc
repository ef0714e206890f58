// Secret-sharing calls. Input: run <id> <type> / <op> <args...> / end, as for math_run; every call is
// self-contained. Vectors are written as one hex string ("-" when empty).
#include "math_common.h"
#include "scl/ss/additive.h"
#include "scl/ss/packed.h"
#include "scl/ss/shamir.h"
using scl::PRG;
using scl::Vec;
namespace sd = scl::details;

struct Args {
  std::vector<std::string> t;
  std::size_t k = 1;
  std::string s() { return t.at(k++); }
  long i() { return std::stol(t.at(k++)); }
};
template <typename T>
Vec<T> rdv(const std::string& h) {
  auto b = unhex(h);
  return Vec<T>::Read(b.size() / T::ByteSize(), b.data());
}
static std::string num(long n) { return std::to_string(n); }
template <typename T>
std::string ev(const sd::EvPolynomial<T>& p) {
  return "[" + js(p.GetX()) + "," + js(p.GetY()) + "," + num(p.Degree()) + "," + js(p.GetFirstPoint()) + "]";
}

template <typename T>
std::string additive(const std::string& op, Args& A) {
  if (op == "add") {  // secret n count seed
    auto s = rdx<T>(A.s());
    std::size_t n = A.i();
    int c = A.i();
    auto g = seeded(A.s());
    std::vector<std::string> o;
    for (int i = 0; i < c; i++) o.push_back(js(scl::CreateAdditiveShares(s, n, g)));
    return "[" + hutil::join(o) + "]";
  }
  if (op == "addrec") return js(scl::ReconstructAdditive(rdv<T>(A.s())));
  return "";
}

template <typename T>
std::string field(const std::string& op, Args& A) {
  auto r = additive<T>(op, A);
  if (!r.empty()) return r;
  if (op == "share") {  // secret n t count seed: shares at 1..n
    auto s = rdx<T>(A.s());
    std::size_t n = A.i(), t = A.i();
    int c = A.i();
    auto g = seeded(A.s());
    std::vector<std::string> o;
    for (int i = 0; i < c; i++) o.push_back(js(scl::CreateShamirShares(s, n, t, g)));
    return "[" + hutil::join(o) + "]";
  }
  if (op == "sharep") {  // secret t alphas count seed: polynomial, shares at the given points
    auto s = rdx<T>(A.s());
    std::size_t t = A.i();
    auto al = rdv<T>(A.s());
    int c = A.i();
    auto g = seeded(A.s());
    std::vector<std::string> o;
    for (int i = 0; i < c; i++) {
      auto p = sd::CreateShamirSharePolynomial(s, t, g);
      o.push_back("[" + js(p) + "," + js(scl::CreateShamirShares(p, al)) + "]");
    }
    return "[" + hutil::join(o) + "]";
  }
  if (op == "alphas") return js(scl::CanonicalAlphas<T>(A.i()));
  if (op == "recp" || op == "rec") {  // t shares [alphas pos]
    std::size_t t = A.i();
    auto sh = rdv<T>(A.s());
    auto al = A.s();
    if (al == "*") return js(op == "rec" ? scl::ReconstructShamir(sh, t) : scl::ReconstructShamirPassive(sh, t));
    auto a = rdv<T>(al);
    auto x = rdx<T>(A.s());
    return js(op == "rec" ? scl::ReconstructShamir(sh, a, x, t) : scl::ReconstructShamirPassive(sh, a, x, t));
  }
  if (op == "rob") {  // t shares alphas
    std::size_t t = A.i();
    auto sh = rdv<T>(A.s());
    auto al = A.s();
    if (al == "*") return js(scl::ReconstructShamirRobust(sh, t));
    auto a = rdv<T>(al);
    auto pe = scl::ReconstructShamirRobust(sh, a, t);
    return "[" + js(pe[0]) + "," + js(pe[1]) + "]";
  }
  if (op == "pack") {  // kind secrets point-or-points degree n count seed
    auto kind = A.s();
    auto s = rdv<T>(A.s());
    auto pts = rdv<T>(A.s());
    std::size_t d = A.i(), n = A.i();
    int c = A.i();
    auto g = seeded(A.s());
    std::vector<std::string> o;
    for (int i = 0; i < c; i++) {
      sd::EvPolynomial<T> p;
      if (kind == "deg") p = sd::EvPolyFromSecretsAndDegree(s, d, g);
      else if (kind == "pts") p = sd::EvPolyFromSecretsAndPoints(s, pts, g);
      else if (kind == "at") p = sd::EvPolyFromSecretAndPointAndDegree(s[0], pts[0], d, g);
      else p = sd::EvPolyFromSecretAndDegree(s[0], d, g);
      o.push_back("[" + js(sd::SharesFromEvPoly(p, n)) + "," + num(p.Degree()) + "]");
    }
    return "[" + hutil::join(o) + "]";
  }
  if (op == "unpack") {  // kind shares length points
    auto kind = A.s();
    auto sh = rdv<T>(A.s());
    std::size_t len = A.i();
    auto pts = rdv<T>(A.s());
    if (kind == "len") return js(sd::SecretsFromSharesAndLength(sh, len));
    if (kind == "pts") return js(sd::SecretsFromPointsAndShares(pts, sh));
    if (kind == "at") return "[" + js(sd::SecretFromPointAndShares(pts[0], sh)) + "]";
    if (kind == "poly") return js(sd::EvPolyFromShares(sh).Evaluate(pts));
    return "[" + js(sd::SecretFromShares(sh)) + "]";
  }
  if (op == "ev") {  // kind x y: construct and look
    auto kind = A.s();
    auto x = rdv<T>(A.s());
    auto y = rdv<T>(A.s());
    if (kind == "xy") return ev(sd::EvPolynomial<T>(x, y));
    if (kind == "start") return ev(sd::EvPolynomial<T>(x[0], y));
    if (kind == "y") return ev(sd::EvPolynomial<T>(y));
    if (kind == "const") return ev(sd::EvPolynomial<T>(y[0]));
    return ev(sd::EvPolynomial<T>());
  }
  if (op == "evat") {  // x y points: evaluations
    auto x = rdv<T>(A.s()), y = rdv<T>(A.s()), z = rdv<T>(A.s());
    sd::EvPolynomial<T> p(x, y);
    std::vector<std::string> o;
    for (std::size_t i = 0; i < z.Size(); i++) o.push_back(js(p.Evaluate(z[i])));
    return "[" + js(p.Evaluate(z)) + ",[" + hutil::join(o) + "]]";
  }
  if (op == "evadd" || op == "evsub") {  // x y u v z: (x,y) op (u,v) evaluated at z
    auto x = rdv<T>(A.s()), y = rdv<T>(A.s()), u = rdv<T>(A.s()), v = rdv<T>(A.s()), z = rdv<T>(A.s());
    sd::EvPolynomial<T> p(x, y), q(u, v);
    auto w = op == "evadd" ? p.Add(q) : p.Subtract(q);
    return "[" + js(w.Evaluate(z)) + "," + js(p.Evaluate(z)) + "]";
  }
  throw std::runtime_error("BADOP " + op);
}
template <typename T>
std::string ringop(const std::string& op, Args& A) {
  auto r = additive<T>(op, A);
  if (r.empty()) throw std::runtime_error("BADOP " + op);
  return r;
}

using Fn = std::string (*)(const std::string&, Args&);
int main() {
  std::map<std::string, Fn> types = {
      {"M61", field<scl::FF<61>>}, {"M127", field<scl::FF<127>>}, {"S3", field<Small<7>>}, {"S5", field<Small<31>>},
#define Z(k) {"Z" #k, ringop<scl::Z2k<k>>}
      Z(1), Z(7), Z(32), Z(64), Z(65), Z(128)};
  std::string line, id, type;
  std::vector<std::vector<std::string>> ops;
  while (std::getline(std::cin, line)) {
    std::istringstream ss(line);
    std::vector<std::string> t;
    std::string w;
    while (ss >> w) t.push_back(w);
    if (t.empty()) continue;
    if (t[0] == "run") { id = t[1]; type = t[2]; ops.clear(); continue; }
    if (t[0] != "end") { ops.push_back(t); continue; }
    auto it = types.find(type);
    if (it == types.end()) return 7;
    auto f = it->second;
    auto out = hutil::forked([&](const std::function<void(const std::string&)>& emit) {
      for (auto& o : ops) {
        Args A;
        A.t = o;
        std::string r;
        try {
          r = f(o[0], A);
        } catch (const std::exception& e) {
          if (std::string(e.what()).rfind("BADOP", 0) == 0) { emit("{\"e\":\"bad\",\"why\":\"" + std::string(e.what()) + "\"}"); return; }
          emit("{\"ok\":0}");
          continue;
        }
        emit("{\"ok\":1,\"r\":" + r + "}");
      }
      emit("{\"end\":1}");
    }, 20);
    std::cout << id;
    for (auto& o : out) std::cout << "\t" << o;
    std::cout << "\n" << std::flush;
  }
}
