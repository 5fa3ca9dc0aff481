// Conformance driver for Green's functions.  Positions and times travel in eighths, fields are integers.
#include <iostream>
#include <span>
#include <execution>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <arpa/inet.h>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "NDVecArrayOperations.hh"
#include "DistributedNDVecArray.hh"
#include "Quadrature.hh"
#include "Interpolation.hh"
#include "Symmetry.hh"
#include "GreensFunction.hh"
#include "SignalCalculator.hh"
#include "harness.hh"

using darr_t = Distributed_RZT_ErEz_Array;
using chunk_t = NDVecArray<scalar_t, 3, 2>;
using view_t = VectorView<scalar_t, 2>;
using ind_t = Vector<std::size_t, 3>;
using GF = CylindricalGreensFunction;
using namespace Interpolation::Kernel;

static std::string res(long v) { return "{\"r\":" + std::to_string(v) + "}"; }
static long fix(double v, double scale) { double x = v * scale; if(!(x > -1e9 && x < 1e9)) return 1000000000; return std::llround(x); }

struct Field {
  long co[2][5], m, bd; bool zb; long zs[3], ze[3]; long N[3];
  long at(int c, long r, long z, long t) const {
    if(bd == 1) {
      if(r < 0) r = -r;
      if(r >= N[0] || z < 0 || z >= N[1] || t < 0 || t >= N[2]) return 0;
    }
    if(zb && r >= zs[0] && r < ze[0] && z >= zs[1] && z < ze[1] && t >= zs[2] && t < ze[2]) return 0;
    long v = co[c][0] * r + co[c][1] * z + co[c][2] * t + co[c][3] * r * z * t + co[c][4];
    return ((v % m) + m) % m - m / 2;
  }
};

struct Run {
  std::map<long, std::unique_ptr<GF>> made, opened;
  std::map<long, std::unique_ptr<SignalCalculator>> calc;
  std::map<long, Field> fields;
  chunk_t grid{ind_t(1u)};                       // receives sampled grids, again and again
  std::map<long, std::unique_ptr<GF>> raw;

  static std::string dir(long i) { return "gf" + std::to_string(i); }
  GF& get(long i, long which) { auto& m = which ? opened : made; if(!m.count(i)) throw std::logic_error("no such Green's function"); return *m.at(i); }
  static std::vector<double> reals(Line& l, std::size_t n) { std::vector<double> v(n); for(auto& x : v) x = l.real(); return v; }

  std::string make(Line& l) {
    long id = l.num(); Field f; f.bd = l.num();
    long how = l.num(), ov = l.num(), opt = l.num(), cache = l.num();
    std::vector<long> csh = l.nums(3), N = l.nums(3);
    for(int i = 0; i < 3; i++) f.N[i] = N[i];
    for(auto& c : f.co) for(auto& x : c) x = l.num();
    f.m = l.num();
    f.zb = l.num() != 0;
    for(auto& x : f.zs) x = l.num();
    for(auto& x : f.ze) x = l.num();
    auto st = reals(l, 3), dt = reals(l, 3);       // in eighths
    long nb = l.num();
    ChunkHints h = opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
    std::size_t dcache = cache + (how ? 2 : 0);
    darr_t d(dir(id), dcache, ind_t(3), ind_t{(std::size_t)1, (std::size_t)stor::INFTY, (std::size_t)stor::INFTY});
    long m = how ? 0 : ov;
    for(long b = 0; b < nb; b++) {
      std::vector<long> s = l.nums(3), e = l.nums(3);
      ind_t sh{(std::size_t)(e[0] - s[0] + 2 * m), (std::size_t)(e[1] - s[1] + 2 * m), (std::size_t)(e[2] - s[2] + 2 * m)};
      chunk_t c(sh);
      c.index_loop_over_elements([&](const ind_t& x, view_t v) {
        for(int k = 0; k < 2; k++) v[k] = (scalar_t)f.at(k, (long)x[0] + s[0] - m, (long)x[1] + s[1] - m, (long)x[2] + s[2] - m); });
      d.RegisterChunk(c, ind_t{(std::size_t)s[0], (std::size_t)s[1], (std::size_t)s[2]}, ind_t{(std::size_t)e[0], (std::size_t)e[1], (std::size_t)e[2]}, m, h);
    }
    if(how) {
      ind_t shape{(std::size_t)csh[0], (std::size_t)csh[1], (std::size_t)csh[2]};
      if(f.bd == 1) d.RebuildChunks(shape, "tmpdir", ov, SpatialSymmetry::Cylindrical<scalar_t>::boundary_evaluator, h);
      else {
        auto ev = [&](darr_t&, const Vector<int, 3>& x, view_t e) { for(int k = 0; k < 2; k++) e[k] = (scalar_t)f.at(k, x[0], x[1], x[2]); };
        d.RebuildChunks(shape, "tmpdir", ov, ev, h);
      }
    }
    RZTCoordVector a{(scalar_t)(st[0] / 8), (scalar_t)(st[1] / 8), (scalar_t)(st[2] / 8)};
    RZTCoordVector w{(scalar_t)(dt[0] / 8), (scalar_t)(dt[1] / 8), (scalar_t)(dt[2] / 8)};
    RZTCoordVector b{(scalar_t)(a[0] + w[0] * (N[0] - 1)), (scalar_t)(a[1] + w[1] * (N[1] - 1)), (scalar_t)(a[2] + w[2] * (N[2] - 1))};
    made[id] = std::make_unique<GF>(a, b, w, std::move(d));
    fields[id] = f;
    return res(1);
  }

  template <class T> std::string out(const std::vector<T>& v, long exc, double scale) {
    std::vector<long> r;
    for(auto x : v) r.push_back(fix(x, scale));
    return "{\"exc\":" + std::to_string(exc) + ",\"a\":" + js(r) + "}";
  }
  template <class T> std::string sig(Line& l, GF& g, SignalCalculator* sc, double unit, double scale) {
    long kern = l.num(), mode = l.num(), k = l.num();
    struct Seg { std::vector<double> x0, d; long n; double t0, st, q, w; };
    std::vector<Seg> segs;
    for(; k > 0; k--) {
      Seg g; g.x0 = reals(l, 3); g.d = reals(l, 3); g.n = l.num(); g.t0 = l.real(); g.st = l.real(); g.q = l.real(); g.w = l.real();
      segs.push_back(g);
    }
    double ts = l.real(), dt = l.real();
    long ns = l.num();
    std::vector<T> s;
    for(long i = l.num(); i > 0; i--) s.push_back((T)l.num());
    auto f = [&](double x) { return (scalar_t)(x / unit); };
    long exc = 0;
    try {
      auto m = mode ? Green::OutOfBoundsBehavior::Ignore : Green::OutOfBoundsBehavior::RaiseError;
      for(const Seg& g0 : segs) {
        auto& [x0, d, n, t0, st, q, w] = g0;
        LineCurrentSegment seg(XYZCoordVector{f(x0[0]), f(x0[1]), f(x0[2])}, XYZCoordVector{f(x0[0] + n * d[0]), f(x0[1] + n * d[1]), f(x0[2] + n * d[2])},
                               f(t0), f(t0 + n * st), (scalar_t)q);
        if(sc) { if constexpr(std::is_same_v<T, scalar_t>) sc -> AccumulateSignal(seg, f(ts), f(dt), ns, s); }
        else if(kern == 1) g.apply_accumulate<Linear, T>(seg, f(ts), f(dt), ns, s, m, (scalar_t)w);
        else g.apply_accumulate<Keys, T>(seg, f(ts), f(dt), ns, s, m, (scalar_t)w);
      }
    }
    catch(const std::exception& e) { exc = 1; }
    return out(s, exc, scale);
  }
  template <class T> std::string acc(Line& l, GF& g) {
    long kern = l.num(), mode = l.num();
    auto p = reals(l, 2);
    double ts = l.real(), dt = l.real();
    long ns = l.num();
    auto src = reals(l, 2);
    double w = l.real();
    std::vector<T> s;
    for(long k = l.num(); k > 0; k--) s.push_back((T)l.num());
    std::vector<scalar_t> pos{(scalar_t)(p[0] / 8), (scalar_t)(p[1] / 8)}, so{(scalar_t)src[0], (scalar_t)src[1]};
    long exc = 0;
    try {
      auto m = mode ? Green::OutOfBoundsBehavior::Ignore : Green::OutOfBoundsBehavior::RaiseError;
      auto it = s.begin();
      if(kern == 1) g.accumulate_inner_product<Linear, T>(RZCoordVectorView(pos.begin()), (scalar_t)(ts / 8), (scalar_t)(dt / 8), ns, RZFieldVectorView(so.begin()), it, (scalar_t)w, m);
      else g.accumulate_inner_product<Keys, T>(RZCoordVectorView(pos.begin()), (scalar_t)(ts / 8), (scalar_t)(dt / 8), ns, RZFieldVectorView(so.begin()), it, (scalar_t)w, m);
    }
    catch(const std::exception& e) { exc = 1; }
    return out(s, exc, 256);
  }

  std::string op(const std::string& text) {
    Line l(text);
    std::string o = l.word();
    if(o == "GMake") return make(l);
    if(o == "GOpen") { long id = l.num(), c = l.num(); opened.erase(id); opened[id] = std::make_unique<GF>(dir(id), (std::size_t)c); calc[id] = std::make_unique<SignalCalculator>(dir(id), (std::size_t)c); return res(1); }
    if(o == "GClose") { long id = l.num(), w = l.num(); if(w) { opened.erase(id); calc.erase(id); } else made.erase(id); return res(1); }
    if(o == "GMeta") {
      long id = l.num(); GF& g = get(id, l.num());
      RZTCoordVector a = g.start_coords(), b = g.end_coords();
      std::vector<long> s, e;
      for(int i = 0; i < 3; i++) { s.push_back(fix(a[i], 8)); e.push_back(fix(b[i], 8)); }
      return "{\"s\":" + js(s) + ",\"e\":" + js(e) + ",\"mb\":" + std::to_string(fix(g.get_uncompressed_size_GB(), 1e9)) + "}";
    }
    // coordinates given bit by bit: what is kept of them
    if(o == "GRaw") {
      long id = l.num();
      auto v = [&]() { RZTCoordVector x; for(int i = 0; i < 3; i++) { int32_t b = (int32_t)l.num(); scalar_t f; std::memcpy(&f, &b, 4); x[i] = f; } return x; };
      RZTCoordVector a = v(), b = v(), w = v();
      darr_t d("raw" + std::to_string(id), 1, ind_t(1), ind_t{(std::size_t)1, (std::size_t)stor::INFTY, (std::size_t)stor::INFTY});
      chunk_t c(ind_t{(std::size_t)2, (std::size_t)2, (std::size_t)2}, (scalar_t)1);
      d.RegisterChunk(c, ind_t(0u));
      raw[id] = std::make_unique<GF>(a, b, w, std::move(d));
      return res(1);
    }
    if(o == "GRawGet") {
      long id = l.num(), again = l.num();
      if(again) { raw.erase(id); raw[id] = std::make_unique<GF>("raw" + std::to_string(id), 1); }
      RZTCoordVector a = raw.at(id) -> start_coords(), b = raw.at(id) -> end_coords();
      std::vector<long> s, e;
      for(int i = 0; i < 3; i++) { int32_t x; scalar_t f = a[i]; std::memcpy(&x, &f, 4); s.push_back(x); f = b[i]; std::memcpy(&x, &f, 4); e.push_back(x); }
      return "{\"s\":" + js(s) + ",\"e\":" + js(e) + "}";
    }
    if(o == "GSig" || o == "GDiff" || o == "GCause") {
      long id = l.num(), which = l.num(), via = l.num(), dbl = l.num();
      GF& g = get(id, which);
      SignalCalculator* sc = via ? calc.at(id).get() : nullptr;
      double unit = o == "GDiff" ? 1 : 8, scale = o == "GDiff" ? 65536 : 256;
      return dbl ? sig<double>(l, g, sc, unit, scale) : sig<float>(l, g, sc, unit, scale);
    }
    if(o == "GAcc" || o == "GFine") { long id = l.num(), which = l.num(), dbl = l.num(); GF& g = get(id, which); return dbl ? acc<double>(l, g) : acc<float>(l, g); }
    if(o == "GFill" || o == "GFillF") {
      long id = l.num(), which = l.num(), kern = l.num();
      GF& g = get(id, which);
      auto s = reals(l, 3), st = reals(l, 3);
      std::vector<long> n = l.nums(3);
      double u = o == "GFill" ? 8 : 1;
      auto f = [&](double x) { return (scalar_t)(x / u); };
      RZTCoordVector a{f(s[0]), f(s[1]), f(s[2])}, b{f(s[0] + st[0] * (n[0] - 1)), f(s[1] + st[1] * (n[1] - 1)), f(s[2] + st[2] * (n[2] - 1))};
      chunk_t& arr = grid;
      arr = (scalar_t)777;
      RZTVector<std::size_t> ns{(std::size_t)n[0], (std::size_t)n[1], (std::size_t)n[2]};
      if(kern == 1) g.fill_array<Linear>(a, b, ns, arr); else g.fill_array<Keys>(a, b, ns, arr);
      std::vector<long> v, sh;
      for(int i = 0; i < 3; i++) sh.push_back(arr.GetShape()[i]);
      arr.loop_over_elements([&](const view_t& e) { for(int k = 0; k < 2; k++) v.push_back(fix(e[k], 4096)); });
      return "{\"sh\":" + js(sh) + ",\"d\":" + js(v) + "}";
    }
    std::fprintf(stderr, "unknown operation %s\n", o.c_str());
    _exit(97);
  }
};

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    Run run;
    for(std::size_t k = 0; k < h.ops.size(); k++) {
      std::string r;
      try { r = run.op(h.ops[k]); }
      catch(const std::exception& e) { r = res(0); }
      rep((int)k, r);
    }
  });
}
