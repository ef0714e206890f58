// Register machine over the library's rings, vectors, matrices and polynomials. Reads programs
//   run <id> <type> / <op> <args...> / end
// and prints one line per program: <id> TAB event TAB event ... (events are JSON).
#include "math_common.h"
using scl::Mat;
using scl::PRG;
using scl::Vec;
namespace sd = scl::details;

template <typename T> struct IsField { static constexpr bool v = true; };
template <std::size_t K> struct IsField<scl::Z2k<K>> { static constexpr bool v = false; };
template <typename T> struct IsLib { static constexpr bool v = true; };
template <unsigned P> struct IsLib<Small<P>> { static constexpr bool v = false; };

struct Args {
  std::vector<std::string> t;
  std::size_t k = 1;
  std::string s() { return t.at(k++); }
  long i() { return std::stol(t.at(k++)); }
};

template <typename T>
struct Machine {
  T x[6];
  Vec<T> v[5];
  Mat<T> m[5];
  struct NoPoly {};
  std::conditional_t<IsField<T>::v, sd::Polynomial<T>, NoPoly> p[5];

  std::string dump() {
    std::vector<std::string> a, b, c, d;
    for (auto& e : x) a.push_back(js(e));
    for (auto& e : v) b.push_back(js(e));
    for (auto& e : m) c.push_back(js(e));
    if constexpr (IsField<T>::v) for (auto& e : p) d.push_back(js(e));
    return "{\"x\":[" + hutil::join(a) + "],\"v\":[" + hutil::join(b) + "],\"m\":[" + hutil::join(c) + "],\"p\":[" + hutil::join(d) + "]}";
  }

  std::string exec(const std::string& op, Args& A) {
    auto num = [](long n) { return std::to_string(n); };
    // ---- elements
    if (op == "xload") { auto& d = x[A.i()]; d = rdx<T>(A.s()); return js(d); }
    if (op == "xint") { auto& d = x[A.i()]; d = T((int)A.i()); return js(d); }
    if constexpr (!IsField<T>::v) {
      if (op == "xraw") {
        auto& d = x[A.i()];
        auto b = unhex(A.s());
        typename T::ValueType w = 0;
        memcpy(&w, b.data(), std::min(b.size(), sizeof w));
        d = T(w);
        return js(d);
      }
      if (op == "xlsb") return num(x[A.i()].Lsb());
    }
#define BIN(name, expr) if (op == name) { auto& d = x[A.i()]; auto& a = x[A.i()]; auto& b = x[A.i()]; (void)a; (void)b; d = (expr); return js(d); }
    BIN("xadd", a + b) BIN("xsub", a - b) BIN("xmul", a * b) BIN("xdiv", a / b)
#undef BIN
#define INP(name, stmt) if (op == name) { auto& a = x[A.i()]; auto& b = x[A.i()]; auto& r = (stmt); return "[" + js(a) + "," + num(&r == &a) + "]"; }
    INP("xaddi", a += b) INP("xsubi", a -= b) INP("xmuli", a *= b) INP("xdivi", a /= b)
#undef INP
    if (op == "xneg") { auto& d = x[A.i()]; auto& a = x[A.i()]; d = -a; return js(d); }
    if (op == "xnegated") { auto& d = x[A.i()]; auto& a = x[A.i()]; d = a.Negated(); return js(d); }
    if (op == "xnegi") { auto& a = x[A.i()]; a.Negate(); return js(a); }
    if (op == "xinv") { auto& d = x[A.i()]; auto& a = x[A.i()]; d = a.Inverse(); return js(d); }
    if (op == "xinvi") { auto& a = x[A.i()]; a.Invert(); return js(a); }
    if (op == "xcopy") { auto& d = x[A.i()]; auto& a = x[A.i()]; d = T(a); return js(d); }
    if (op == "xeq") { auto& a = x[A.i()]; auto& b = x[A.i()]; return num(a == b); }
    if (op == "xne") { auto& a = x[A.i()]; auto& b = x[A.i()]; return num(a != b); }
    if (op == "xwrite") return js(x[A.i()]);
    if (op == "xround") {  // write, then read back from the written bytes
      auto& d = x[A.i()];
      auto& a = x[A.i()];
      Guarded g(T::ByteSize());
      a.Write(g.p);
      d = T::Read(g.p);
      return "[" + js(d) + "," + num(d == a) + "]";
    }
    if (op == "xstr") return text_js(x[A.i()].ToString());
    if (op == "xstream") { std::stringstream ss; ss << x[A.i()]; return text_js(ss.str()); }
    if constexpr (IsLib<T>::v) {
      if (op == "xtext") {
        auto& d = x[A.i()];
        int base = A.i();
        auto b = unhex(A.s());
        std::string s(b.begin(), b.end());
        if (base == 10) d = T::FromString(s);
        else d = T::FromString(s, base == 2 ? scl::NumberBase::BINARY : base == 16 ? scl::NumberBase::HEX : base == 64 ? scl::NumberBase::BASE64 : scl::NumberBase::DECIMAL);
        return js(d);
      }
      if (op == "xretext") {  // text and back
        auto& d = x[A.i()];
        auto& a = x[A.i()];
        d = T::FromString(a.ToString());
        return "[" + js(d) + "," + num(d == a) + "]";
      }
    }
    if (op == "xsizes") return "[" + num(T::ByteSize()) + "," + num(T::BitSize()) + "]";
    if (op == "xrand") {
      auto seed = A.s();
      int n = A.i();
      auto g = seeded(seed), h = seeded(seed);
      std::vector<std::string> a, b;
      for (int i = 0; i < n; i++) { auto e = T::Random(g); a.push_back(js(e)); }
      for (int i = 0; i < n; i++) { auto e = T::Random(h); b.push_back(js(e)); }
      return "[[" + hutil::join(a) + "],[" + hutil::join(b) + "]]";
    }
    // ---- vectors
    auto many = [&](std::size_t n, const std::string& h, std::unique_ptr<Guarded>& g) {
      g = std::make_unique<Guarded>(n * T::ByteSize());
      auto b = unhex(h);
      memcpy(g->p, b.data(), std::min(b.size(), g->len));
    };
    std::unique_ptr<Guarded> g;
    if (op == "vload") { auto& d = v[A.i()]; std::size_t n = A.i(); many(n, A.s(), g); d = Vec<T>::Read(n, g->p); return js(d); }
    if (op == "vnew") { auto& d = v[A.i()]; d = Vec<T>(std::size_t(A.i())); return js(d); }
    if (op == "vnone") { auto& d = v[A.i()]; d = Vec<T>(); return js(d); }
    if (op == "vlist") { auto& d = v[A.i()]; auto& a = x[A.i()]; auto& b = x[A.i()]; auto& c = x[A.i()]; d = Vec<T>{a, b, c}; return js(d); }
    if (op == "vstd") { auto& d = v[A.i()]; auto& a = v[A.i()]; d = Vec<T>(static_cast<const Vec<T>&>(a).ToStlVector()); return js(d); }
    if (op == "vcopy") { auto& d = v[A.i()]; auto& a = v[A.i()]; Vec<T> t(a); d = t; return js(d); }
    if (op == "vrange") { auto& d = v[A.i()]; auto& a = v[A.i()]; long i = A.i(), j = A.i(); Vec<T> t(a.begin() + i, a.begin() + j); d = t; return js(d); }
    if (op == "vrev") { auto& d = v[A.i()]; auto& a = v[A.i()]; Vec<T> t(a.rbegin(), a.rend()); d = t; return js(d); }
    if (op == "vemp") { auto& a = v[A.i()]; a.Emplace(x[A.i()]); return js(a); }
    if (op == "vres") { auto& a = v[A.i()]; a.Reserve(A.i()); return js(a); }
    if (op == "vset") { auto& a = v[A.i()]; long i = A.i(); a[i] = x[A.i()]; return js(a); }
    if (op == "vget") { auto& d = x[A.i()]; const auto& a = v[A.i()]; d = a[A.i()]; return js(d); }
#define BIN(name, meth) if (op == name) { auto& d = v[A.i()]; auto& a = v[A.i()]; auto& b = v[A.i()]; d = a.meth(b); return js(d); }
    BIN("vadd", Add) BIN("vsub", Subtract) BIN("vmul", MultiplyEntryWise)
#undef BIN
#define INP(name, meth) if (op == name) { auto& a = v[A.i()]; auto& b = v[A.i()]; auto& r = a.meth(b); return "[" + js(a) + "," + num(&r == &a) + "]"; }
    INP("vaddi", AddInPlace) INP("vsubi", SubtractInPlace) INP("vmuli", MultiplyEntryWiseInPlace)
#undef INP
    if (op == "vdot") { auto& d = x[A.i()]; auto& a = v[A.i()]; auto& b = v[A.i()]; d = a.Dot(b); return js(d); }
    if (op == "vsum") { auto& d = x[A.i()]; d = v[A.i()].Sum(); return js(d); }
    if (op == "vscale") { auto& d = v[A.i()]; auto& a = v[A.i()]; d = a.ScalarMultiply(x[A.i()]); return js(d); }
    if (op == "vscalei") { auto& a = v[A.i()]; auto& r = a.ScalarMultiplyInPlace(x[A.i()]); return "[" + js(a) + "," + num(&r == &a) + "]"; }
    if (op == "vscalea") { auto& a = v[A.i()]; auto& r = a.ScalarMultiplyInPlace(a[A.i()]); return "[" + js(a) + "," + num(&r == &a) + "]"; }
    if (op == "veq") { auto& a = v[A.i()]; auto& b = v[A.i()]; return num(a.Equals(b)); }
    if (op == "vsize") { auto& a = v[A.i()]; return "[" + num(a.Size()) + "," + num(a.ByteSize()) + "]"; }
    if (op == "vwrite" || op == "vround") {
      Vec<T>* d = op == "vround" ? &v[A.i()] : nullptr;
      auto& a = v[A.i()];
      Guarded w(a.ByteSize());
      a.Write(w.p);
      if (!d) return "\"" + hex(w.p, w.len) + (w.clean() ? "" : "!") + "\"";
      std::size_t n = a.Size();
      *d = Vec<T>::Read(n, w.p);
      return js(*d);
    }
    if (op == "vrow") { auto& d = m[A.i()]; d = v[A.i()].ToRowMatrix(); return js(d); }
    if (op == "vcol") { auto& d = m[A.i()]; d = v[A.i()].ToColumnMatrix(); return js(d); }
    if (op == "vrand") {
      auto seed = A.s();
      std::size_t n = A.i();
      auto a = seeded(seed), b = seeded(seed);
      auto r = Vec<T>::Random(n, a), s = Vec<T>::Random(n, b);
      return "[" + js(r) + "," + js(s) + "]";
    }
    if (op == "vprand") {  // random in the positions >= k only
      auto seed = A.s();
      std::size_t n = A.i(), k = A.i();
      auto a = seeded(seed), b = seeded(seed);
      auto r = Vec<T>::PartialRandom(n, [k](std::size_t i) { return i >= k; }, a);
      auto s = Vec<T>::PartialRandom(n, [k](std::size_t i) { return i >= k; }, b);
      return "[" + js(r) + "," + js(s) + "]";
    }
    // ---- matrices
    if (op == "mload") { auto& d = m[A.i()]; std::size_t r = A.i(), c = A.i(); many(r * c, A.s(), g); d = Mat<T>::Read(r, c, g->p); return js(d); }
    if (op == "mnew") { auto& d = m[A.i()]; std::size_t r = A.i(), c = A.i(); d = Mat<T>(r, c); return js(d); }
    if (op == "msq") { auto& d = m[A.i()]; d = Mat<T>(std::size_t(A.i())); return js(d); }
    if (op == "mid") { auto& d = m[A.i()]; d = Mat<T>::Identity(A.i()); return js(d); }
    if (op == "mnone") { auto& d = m[A.i()]; d = Mat<T>(); return js(d); }
    if (op == "mcopy") { auto& d = m[A.i()]; auto& a = m[A.i()]; Mat<T> t(a); d = t; return js(d); }
    if (op == "mvec") { auto& d = m[A.i()]; std::size_t r = A.i(), c = A.i(); d = Mat<T>::FromVector(r, c, v[A.i()].ToStlVector()); return js(d); }
    if (op == "mget") { auto& d = x[A.i()]; const auto& a = m[A.i()]; long i = A.i(), j = A.i(); d = a(i, j); return js(d); }
    if (op == "mset") { auto& a = m[A.i()]; long i = A.i(), j = A.i(); a(i, j) = x[A.i()]; return js(a); }
#define BIN(name, meth) if (op == name) { auto& d = m[A.i()]; auto& a = m[A.i()]; auto& b = m[A.i()]; d = a.meth(b); return js(d); }
    BIN("madd", Add) BIN("msub", Subtract) BIN("mmule", MultiplyEntryWise) BIN("mmul", Multiply)
#undef BIN
#define INP(name, meth) if (op == name) { auto& a = m[A.i()]; auto& b = m[A.i()]; auto& r = a.meth(b); return "[" + js(a) + "," + num(&r == &a) + "]"; }
    INP("maddi", AddInPlace) INP("msubi", SubtractInPlace) INP("mmulei", MultiplyEntryWiseInPlace)
#undef INP
    if (op == "mscale") { auto& d = m[A.i()]; auto& a = m[A.i()]; d = a.ScalarMultiply(x[A.i()]); return js(d); }
    if (op == "mscalei") { auto& a = m[A.i()]; auto& r = a.ScalarMultiplyInPlace(x[A.i()]); return "[" + js(a) + "," + num(&r == &a) + "]"; }
    if (op == "mscalea") { auto& a = m[A.i()]; long i = A.i(), j = A.i(); auto& r = a.ScalarMultiplyInPlace(a(i, j)); return "[" + js(a) + "," + num(&r == &a) + "]"; }
    if (op == "mtr") { auto& d = m[A.i()]; auto& a = m[A.i()]; d = a.Transpose(); return js(d); }
    if (op == "mres") { auto& a = m[A.i()]; std::size_t r = A.i(), c = A.i(); auto& q = a.Resize(r, c); return "[" + js(a) + "," + num(&q == &a) + "]"; }
    if (op == "meq") { auto& a = m[A.i()]; auto& b = m[A.i()]; return num(a.Equals(b)); }
    if (op == "misid") return num(m[A.i()].IsIdentity());
    if (op == "mdim") { auto& a = m[A.i()]; return "[" + num(a.Rows()) + "," + num(a.Cols()) + "," + num(a.ByteSize()) + "," + num(a.IsSquare()) + "]"; }
    if (op == "mwrite" || op == "mround") {
      Mat<T>* d = op == "mround" ? &m[A.i()] : nullptr;
      auto& a = m[A.i()];
      Guarded w(a.ByteSize());
      a.Write(w.p);
      if (!d) return "\"" + hex(w.p, w.len) + (w.clean() ? "" : "!") + "\"";
      std::size_t r = a.Rows(), c = a.Cols();
      *d = Mat<T>::Read(r, c, w.p);
      return js(*d);
    }
    if (op == "mrand") {
      auto seed = A.s();
      std::size_t r = A.i(), c = A.i();
      auto a = seeded(seed), b = seeded(seed);
      auto q = Mat<T>::Random(r, c, a), s = Mat<T>::Random(r, c, b);
      return "[" + js(q) + "," + js(s) + "]";
    }
    if constexpr (IsField<T>::v) {
      // ---- linear algebra
      if (op == "lrref") { auto& a = m[A.i()]; sd::RowReduceInPlace(a); return js(a); }
      if (op == "lsolve") {
        auto& d = v[A.i()];
        auto& a = m[A.i()];
        auto& b = v[A.i()];
        bool ok = sd::SolveLinearSystem(d, a, b);
        return "[" + num(ok) + "," + (ok ? js(d) : "[]") + "]";
      }
      if (op == "laug") { auto& d = m[A.i()]; auto& a = m[A.i()]; auto& b = m[A.i()]; d = sd::CreateAugmentedMatrix(a, b); return js(d); }
      if (op == "lswap") { auto& a = m[A.i()]; long i = A.i(), j = A.i(); sd::SwapRows(a, i, j); return js(a); }
      if (op == "lmulrow") { auto& a = m[A.i()]; long i = A.i(); sd::MultiplyRow(a, i, x[A.i()]); return js(a); }
      if (op == "laddrow") { auto& a = m[A.i()]; long i = A.i(), j = A.i(); sd::AddRows(a, i, j, x[A.i()]); return js(a); }
      if (op == "lhas") { auto& a = m[A.i()]; return num(sd::HasSolution(a, A.i() != 0)); }
      // ---- polynomials
      using Poly = sd::Polynomial<T>;
      if (op == "pnew") { auto& d = p[A.i()]; d = Poly::Create(v[A.i()]); return js(d); }
      if (op == "pconst") { auto& d = p[A.i()]; d = Poly(x[A.i()]); return js(d); }
      if (op == "pzero") { auto& d = p[A.i()]; d = Poly(); return js(d); }
      if (op == "pcopy") { auto& d = p[A.i()]; auto& a = p[A.i()]; Poly t(a); d = t; return js(d); }
#define BIN(name, meth) if (op == name) { auto& d = p[A.i()]; auto& a = p[A.i()]; auto& b = p[A.i()]; d = a.meth(b); return js(d); }
      BIN("padd", Add) BIN("psub", Subtract) BIN("pmul", Multiply)
#undef BIN
      if (op == "pdiv") {
        auto& d = p[A.i()];
        auto& e = p[A.i()];
        auto& a = p[A.i()];
        auto& b = p[A.i()];
        auto qr = a.Divide(b);
        d = qr[0];
        e = qr[1];
        return "[" + js(qr[0]) + "," + js(qr[1]) + "]";
      }
      if (op == "peval") { auto& d = x[A.i()]; auto& a = p[A.i()]; d = a.Evaluate(x[A.i()]); return js(d); }
      if (op == "pinfo") {
        const auto& a = p[A.i()];
        return "[" + num(a.Degree()) + "," + num(a.IsZero()) + "," + js(a.ConstantTerm()) + "," + js(a.LeadingTerm()) + "]";
      }
    }
    throw std::runtime_error("BADOP " + op);
  }
};

template <typename T>
void program(const std::vector<std::vector<std::string>>& ops, const std::function<void(const std::string&)>& emit) {
  auto M = std::make_unique<Machine<T>>();
  for (auto& t : ops) {
    Args A;
    A.t = t;
    std::string r;
    try {
      r = M->exec(t[0], A);
    } catch (const std::exception& e) {
      if (std::string(e.what()).rfind("BADOP", 0) == 0) { emit("{\"e\":\"bad\",\"why\":\"" + std::string(e.what()) + "\"}"); return; }
      emit("{\"ok\":0}");
      continue;
    }
    emit("{\"ok\":1,\"r\":" + r + "}");
  }
  emit("{\"ok\":1,\"dump\":" + M->dump() + "}");
}

using Fn = void (*)(const std::vector<std::vector<std::string>>&, const std::function<void(const std::string&)>&);
int main() {
  std::map<std::string, Fn> types = {
      {"M61", program<scl::FF<61>>}, {"M127", program<scl::FF<127>>}, {"S3", program<Small<7>>}, {"S5", program<Small<31>>},
#define Z(k) {"Z" #k, program<scl::Z2k<k>>}
      Z(1), Z(2), Z(3), Z(5), Z(7), Z(8), Z(9), Z(13), Z(16), Z(31), Z(32), Z(33), Z(48), Z(61), Z(62), Z(63), Z(64), Z(65), Z(72), Z(100), Z(126), Z(127), Z(128)};
  std::string line, id, type;
  std::vector<std::vector<std::string>> ops;
  while (std::getline(std::cin, line)) {
    std::istringstream ss(line);
    std::vector<std::string> t;
    std::string w;
    while (ss >> w) t.push_back(w);
    if (t.empty()) continue;
    if (t[0] == "run") { id = t[1]; type = t[2]; ops.clear(); continue; }
    if (t[0] != "end") { ops.push_back(t); continue; }
    auto it = types.find(type);
    if (it == types.end()) return 7;
    auto f = it->second;
    auto out = hutil::forked([&](const std::function<void(const std::string&)>& emit) { f(ops, emit); }, 30);
    std::cout << id;
    for (auto& o : out) std::cout << "\t" << o;
    std::cout << "\n" << std::flush;
  }
}
