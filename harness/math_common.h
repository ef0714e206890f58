#pragma once
#include <sys/mman.h>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "scl/math.h"
#include "scl/prg.h"
#include "scl/math/la.h"
#include "scl/ss/poly.h"
#include "util.h"

// An independent small prime field, so that generic code can be exercised exhaustively.
template <unsigned P>
class Small final : public scl::details::RingBase<Small<P>> {
 public:
  using ValueType = unsigned;
  constexpr static std::size_t ByteSize() { return 1; }
  constexpr static std::size_t BitSize() { return P == 7 ? 3 : 5; }
  constexpr static std::size_t SpecifiedBitSize() { return BitSize(); }
  constexpr static const char* Name() { return "Small"; }
  static Small Read(const unsigned char* s) { return Small(int(*s % P)); }
  static Small Random(scl::PRG& prg) {
    unsigned char b[4];
    prg.Next(b, 4);
    return Small(int((b[0] + 256u * b[1] + 65536u * b[2]) % P));
  }
  explicit constexpr Small(int v) : mV(((v % (int)P) + (int)P) % (int)P) {}
  explicit constexpr Small() : mV(0) {}
  Small& operator+=(const Small& o) { mV = (mV + o.mV) % P; return *this; }
  Small& operator-=(const Small& o) { mV = (mV + P - o.mV) % P; return *this; }
  Small& operator*=(const Small& o) { mV = (mV * o.mV) % P; return *this; }
  Small& operator/=(const Small& o) { return *this *= o.Inverse(); }
  Small& Negate() { mV = (P - mV) % P; return *this; }
  Small Negated() { Small c(*this); return c.Negate(); }
  Small& Invert() {
    if (!mV) throw std::logic_error("0 not invertible");
    for (unsigned i = 1; i < P; i++) if ((i * mV) % P == 1) { mV = i; break; }
    return *this;
  }
  Small Inverse() const { Small c(*this); return c.Invert(); }
  bool Equal(const Small& o) const { return mV == o.mV; }
  std::string ToString() const { return std::to_string(mV); }
  void Write(unsigned char* d) const { *d = (unsigned char)mV; }
 private:
  unsigned mV;
};

using Bytes = std::vector<unsigned char>;

inline Bytes unhex(const std::string& s) {
  Bytes o;
  if (s == "-") return o;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) o.push_back((unsigned char)std::stoul(s.substr(i, 2), nullptr, 16));
  return o;
}
inline std::string hex(const unsigned char* p, std::size_t n) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (std::size_t i = 0; i < n; i++) { o += d[p[i] >> 4]; o += d[p[i] & 15]; }
  return o;
}

// A buffer whose last byte is the last byte of a mapped page; the next page is inaccessible.
struct Guarded {
  unsigned char* base;
  std::size_t len, map;
  unsigned char* p;
  explicit Guarded(std::size_t n) : len(n) {
    map = ((n + 64 + 4095) / 4096 + 1) * 4096;
    base = (unsigned char*)mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) _exit(5);
    memset(base, 0xA5, map - 4096);
    mprotect(base + map - 4096, 4096, PROT_NONE);
    p = base + map - 4096 - n;
  }
  bool clean() const {
    for (unsigned char* q = base; q < p; q++) if (*q != 0xA5) return false;
    return true;
  }
  ~Guarded() { munmap(base, map); }
  Guarded(const Guarded&) = delete;
};

template <typename T>
T rdx(const std::string& h) {
  auto b = unhex(h);
  Guarded g(T::ByteSize());
  memcpy(g.p, b.data(), std::min(b.size(), g.len));
  return T::Read(g.p);
}
template <typename T>
std::string raw_bytes(const T& x) {  // the bytes Write produces; "!" if it wrote outside
  Guarded g(T::ByteSize());
  x.Write(g.p);
  return hex(g.p, g.len) + (g.clean() ? "" : "!");
}
template <typename T>
std::string js(const T& x) { return "\"" + raw_bytes(x) + "\""; }
template <typename T>
std::string js(const scl::Vec<T>& v) {
  std::vector<std::string> o;
  for (std::size_t i = 0; i < v.Size(); i++) o.push_back(js(v[i]));
  return "[" + hutil::join(o) + "]";
}
template <typename T>
std::string js(const scl::Mat<T>& m) {
  std::vector<std::string> o;
  for (std::size_t i = 0; i < m.Rows(); i++) for (std::size_t j = 0; j < m.Cols(); j++) o.push_back(js(m(i, j)));
  return "{\"r\":" + std::to_string(m.Rows()) + ",\"c\":" + std::to_string(m.Cols()) + ",\"d\":[" + hutil::join(o) + "]}";
}
template <typename T>
std::string js(const scl::details::Polynomial<T>& p) {
  std::vector<std::string> o;
  for (std::size_t i = 0; i <= p.Degree(); i++) o.push_back(js(p[i]));
  return "[" + hutil::join(o) + "]";
}
inline std::string text_js(const std::string& s) { return "\"" + hex((const unsigned char*)s.data(), s.size()) + "\""; }
inline scl::PRG seeded(const std::string& h) {
  auto b = unhex(h);
  b.resize(scl::PRG::SeedSize());
  return scl::PRG(b.data());
}
