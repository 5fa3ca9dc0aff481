// Conformance driver for dense arrays, loops over index regions, downsampling, quadrature weights, interpolation,
// export to NumPy files, and vectors.
#include <iostream>
#include <span>
#include <execution>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <numeric>
#include <utility>
#include <arpa/inet.h>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "NDVecArrayOperations.hh"
#include "IteratorUtils.hh"
#include "ChunkUtils.hh"
#include "Quadrature.hh"
#include "Interpolation.hh"
#include "MathUtils.hh"
#include "harness.hh"

using namespace Interpolation::Kernel;

static const long BAD = 999999999;
static long pv(double v) { if(!(v > -1e8 && v < 1e8)) return BAD; return v == std::floor(v) ? (long)v : BAD; }
static long fix(double v, double s) { double x = v * s; if(!(x > -1e8 && x < 1e8)) return BAD; return std::llround(x); }
static std::string res(long v) { return "{\"r\":" + std::to_string(v) + "}"; }
static long cut(unsigned long long v) { return v > 1000000ull ? BAD : (long)v; }

template <std::size_t D> Vector<std::size_t, D> rd(Line& l) { Vector<std::size_t, D> v; for(std::size_t i = 0; i < D; i++) v[i] = (std::size_t)l.num(); return v; }
template <class T, std::size_t D> Vector<T, D> rdT(Line& l) { Vector<T, D> v; for(std::size_t i = 0; i < D; i++) v[i] = (T)l.num(); return v; }
template <class VecT> std::string jsv(const VecT& v, std::size_t n) { std::vector<long> o; for(std::size_t i = 0; i < n; i++) o.push_back(cut(v[i])); return js(o); }

struct Base { virtual ~Base() { } virtual std::string op(const std::string& o, Line& l) = 0; };

template <std::size_t D, std::size_t V> struct Arrays : Base {
  using arr_t = NDVecArray<scalar_t, D, V>;
  using ind_t = Vector<std::size_t, D>;
  using view_t = VectorView<scalar_t, V>;
  std::map<long, std::unique_ptr<arr_t>> a;

  arr_t& get(long id) { if(!a.count(id)) throw std::runtime_error("no such array"); return *a.at(id); }
  static void elements(const arr_t& x, const ind_t& s, const ind_t& e, std::vector<long>& out) {
    ind_t i = s;
    for(std::size_t k = 0; k < D; k++) if(s[k] >= e[k]) return;
    while(true) {
      auto v = x[i];
      for(std::size_t c = 0; c < V; c++) out.push_back(pv(v[c]));
      long k = D - 1;
      while(k >= 0 && ++i[k] >= e[k]) { i[k] = s[k]; k--; }
      if(k < 0) return;
    }
  }
  std::string dump() {
    std::string o = "[";
    bool first = true;
    for(auto& [id, p] : a) {
      std::vector<long> d;
      double n = V;
      for(std::size_t k = 0; k < D; k++) n *= (double)p->GetShape()[k];
      if(n < 100000) elements(*p, ind_t((std::size_t)0), p->GetShape(), d);
      if(!first) o += ",";
      first = false;
      o += "[" + std::to_string(id) + "," + jsv(p->GetShape(), D) + "," + js(d) + "]";
    }
    return o + "]";
  }
  std::string done(long r = 1) { return "{\"r\":" + std::to_string(r) + ",\"dump\":" + dump() + "}"; }

  template <std::size_t A> void swap_with(const arr_t& src, arr_t& dest, long a1, long a2) {
    if constexpr(A < D * D) {
      constexpr std::size_t p = A / D, q = A % D;
      if((long)p == a1 && (long)q == a2) { src.template SwapAxes<p, q>(dest); return; }
      swap_with<A + 1>(src, dest, a1, a2);
    }
  }
  template <std::size_t A> bool concat(const ind_t& x, const ind_t& y, long ax) {
    if constexpr(A < D) { if((long)A == ax) return arr_t::template ShapeAllowsConcatenation<A>(x, y); return concat<A + 1>(x, y, ax); }
    else return false;
  }
  template <std::size_t A> void append(arr_t& x, const arr_t& y, long ax) {
    if constexpr(A < D) { if((long)A == ax) x.template Append<A>(y); else append<A + 1>(x, y, ax); }
  }

  std::string op(const std::string& o, Line& l) override {
    if(o == "DNew") {
      long id = l.num(), how = l.num(), val = l.num();
      ind_t sh = rd<D>(l);
      a.erase(id);
      if constexpr(D == 1) {
        if(how == 2) { a[id] = std::make_unique<arr_t>((std::size_t)sh[0]); return done(); }
        if(how == 3) { a[id] = std::make_unique<arr_t>((std::size_t)sh[0], (scalar_t)val); return done(); }
      }
      if(how % 2) a[id] = std::make_unique<arr_t>(sh, (scalar_t)val); else a[id] = std::make_unique<arr_t>(sh);
      return done();
    }
    if(o == "DCopy") { long id = l.num(), src = l.num(); auto p = std::make_unique<arr_t>(get(src)); a[id] = std::move(p); return done(); }
    if(o == "DAssign") { long id = l.num(), src = l.num(); get(id) = get(src); return done(); }
    if(o == "DAll") { long id = l.num(), v = l.num(); get(id) = (scalar_t)v; return done(); }
    if(o == "DFill") { long id = l.num(), v = l.num(); ind_t s = rd<D>(l), e = rd<D>(l); get(id).fill(s, e, (scalar_t)v); return done(); }
    if(o == "DFrom") {
      long id = l.num(), src = l.num(); ind_t is = rd<D>(l), ie = rd<D>(l), os = rd<D>(l);
      get(id).fill_from(get(src), is, ie, os);
      return done();
    }
    if(o == "DCol") {
      long id = l.num(), n = l.num(); ind_t os = rd<D>(l);
      NDVecArray<scalar_t, 1, V> col(Vector<std::size_t, 1>((std::size_t)n));
      for(long i = 0; i < n; i++) for(std::size_t c = 0; c < V; c++) col[(std::size_t)i][c] = (scalar_t)l.num();
      get(id).template fill_from<D - 1>(col, os);
      return done();
    }
    if(o == "DResize") {
      long id = l.num(), how = l.num(), v = l.num(); ind_t sh = rd<D>(l);
      if(how == 1) get(id).resize(sh, (scalar_t)v);
      else {
        if constexpr(D == 1) { if(how == 2) { get(id).resize((std::size_t)sh[0]); return done(); } }
        get(id).resize(sh);
      }
      return done();
    }
    if(o == "DClear") { get(l.num()).clear(); return done(); }
    if(o == "DSet") {
      long id = l.num(), how = l.num(); ind_t x = rd<D>(l);
      Vector<scalar_t, V> v = rdT<scalar_t, V>(l);
      arr_t& t = get(id);
      if(how == 0) t[x] = v;
      else if(how == 1) { auto w = t[x]; for(std::size_t c = 0; c < V; c++) w[c] = v[c]; }
      else { arr_t tmp(ind_t((std::size_t)1)); tmp[ind_t((std::size_t)0)] = v; t[x] = tmp[ind_t((std::size_t)0)]; }
      return done();
    }
    if(o == "DMove") { long id = l.num(), src = l.num(); ind_t x = rd<D>(l), y = rd<D>(l); get(id)[x] = get(src)[y]; return done(); }
    if(o == "DView") { long id = l.num(), src = l.num(); ind_t s = rd<D>(l), e = rd<D>(l); 
      a[id] = std::unique_ptr<arr_t>(new auto(get(src).View(s, e))); return done(); }
    if(o == "DDrop") { a.erase(l.num()); return done(); }
    if(o == "DApp") {
      long id = l.num(), src = l.num(), ax = l.num(), how = l.num();
      long r = 1;
      try { if(how) append<0>(get(id), get(src), ax); else get(id).Append(get(src), (std::size_t)ax); }
      catch(const std::logic_error&) { r = 0; }
      return done(r);
    }
    if(o == "DSwap") { long id = l.num(), src = l.num(), a1 = l.num(), a2 = l.num(); swap_with<0>(get(src), get(id), a1, a2); return done(); }
    if(o == "DAdd") {
      long id = l.num(), how = l.num(), k = l.num(); ind_t s = rd<D>(l), e = rd<D>(l);
      auto add = [&](const view_t& v) { for(std::size_t c = 0; c < V; c++) v[c] += (scalar_t)k; };
      arr_t& t = get(id);
      if(how == 0) t.loop_over_elements(add);
      else if(how == 1) t.index_loop_over_elements([&](const ind_t&, const view_t& v) { add(v); });
      else t.index_loop_over_elements(s, e, [&](const ind_t&, const view_t& v) { add(v); });
      return done();
    }
    if(o == "DLoop") {
      long id = l.num(), how = l.num(); ind_t s = rd<D>(l), e = rd<D>(l);
      std::vector<long> out;
      const arr_t& t = get(id);
      auto put = [&](const view_t& v) { for(std::size_t c = 0; c < V; c++) out.push_back(pv(v[c])); };
      auto puti = [&](const ind_t& x, const view_t& v) { for(std::size_t c = 0; c < D; c++) out.push_back(cut(x[c])); put(v); };
      if(how == 0) t.loop_over_elements(put);
      else if(how == 1) t.index_loop_over_elements(puti);
      else if(how == 2) t.index_loop_over_elements(s, e, puti);
      else if(how == 3) { auto w = [&](const ind_t& x) { puti(x, view_t(t[x])); }; IteratorUtils::index_loop_over_array_elements(t, w); }
      return "{\"v\":" + js(out) + ",\"dump\":" + dump() + "}";
    }
    if(o == "DSeq") {
      long id = l.num(), n = l.num(); ind_t x = rd<D>(l);
      std::vector<std::size_t> in;
      for(long i = 0; i < n; i++) in.push_back((std::size_t)l.num());
      std::vector<long> out;
      get(id).apply_sequential(x, in, [&](const view_t& v) { for(std::size_t c = 0; c < V; c++) out.push_back(pv(v[c])); });
      return "{\"v\":" + js(out) + ",\"dump\":" + dump() + "}";
    }
    if(o == "DNull") { long id = l.num(); return done(get(id).IsAllNull() ? 1 : 0); }
    if(o == "DNullAt") { long id = l.num(); ind_t x = rd<D>(l); return done(get(id).IsNull(x) ? 1 : 0); }
    if(o == "DHas") {
      long id = l.num(); ind_t x = rd<D>(l); arr_t& t = get(id);
      bool r1 = t.has_index(x), r2 = t.index_within_bounds(x), r3 = arr_t::has_index(x, t.GetShape());
      return done(r1 == r2 && r2 == r3 ? (r1 ? 1 : 0) : 2);
    }
    if(o == "DMeta") { arr_t& t = get(l.num()); return "{\"sh\":" + jsv(t.GetShape(), D) + ",\"vol\":" + std::to_string(cut(t.GetVolume())) + ",\"nel\":" + std::to_string(cut(t.GetNumberElements())) + ",\"own\":" + std::to_string(t.owns_data() ? 1 : 0) + "}"; }
    if(o == "DConcat") { long ax = l.num(), how = l.num(); ind_t x = rd<D>(l), y = rd<D>(l); return res(how ? concat<0>(x, y, ax) : arr_t::ShapeAllowsConcatenation(x, y, (std::size_t)ax)); }
    if(o == "DDown") {
      long id = l.num(), src = l.num(); ind_t s = rd<D>(l), f = rd<D>(l);
      ind_t o(7u);
      Downsampling::downsample(get(src), s, f, get(id), o);
      return "{\"o\":" + jsv(o, D) + ",\"dump\":" + dump() + "}";
    }
    if(o == "DDownSh") { ind_t s = rd<D>(l), sh = rd<D>(l), f = rd<D>(l); return "{\"v\":" + jsv(Downsampling::get_downsampled_shape(s, sh, f), D) + "}"; }
    if(o == "DNpy") {
      // elements are words m * k + c (32 bit), shape given
      std::vector<std::uint32_t> w;
      ind_t sh;
      for(std::size_t i = 0; i < D; i++) sh[i] = std::stoull(l.word());
      std::uint32_t m = (std::uint32_t)std::stoull(l.word()), c = (std::uint32_t)std::stoull(l.word());
      // how the array came to be: 0 made so, 1 from a larger or smaller one by resizing, 2 copied, 3 assigned over a larger one,
      // 4 assigned from a view, 5 appended to, 6 axes swapped into a larger one
      long route = l.num();
      std::vector<std::unique_ptr<arr_t>> keep;
      auto own = [&](arr_t* p) -> arr_t& { keep.emplace_back(p); return *p; };
      ind_t larger = sh + ind_t((std::size_t)1), zero((std::size_t)0), other = sh;
      if(route == 1) { other = larger; if(m % 2) for(std::size_t i = 0; i < D; i++) other[i] = 1; }
      arr_t& first = own(new arr_t(route == 1 ? other : sh));
      if(route == 1) { first = (scalar_t)5; first.resize(sh); }
      arr_t& x = first;
      std::size_t n = x.GetVolume();
      std::uint32_t k = 0;
      if(n > 0) {
        scalar_t* p = &x[zero][0];
        for(std::size_t i = 0; i < n; i++, k++) { std::uint32_t v = m * k + c; std::memcpy(p + i, &v, 4); }
      }
      arr_t* out = &x;
      if(n > 0 && route == 2) out = &own(new arr_t(x));
      if(n > 0 && route == 3) { out = &own(new arr_t(larger, (scalar_t)9)); *out = x; }
      if(n > 0 && route == 4) {
        arr_t& w = own(new arr_t(larger + ind_t((std::size_t)1), (scalar_t)9));
        w.fill_from(x, zero, sh, ind_t((std::size_t)1));
        arr_t v = w.View(ind_t((std::size_t)1), larger);
        out = &own(new arr_t(larger, (scalar_t)9));
        *out = v;
      }
      if(n > 0 && route == 5 && sh[0] > 1) {
        ind_t cut = sh, rest = zero; cut[0] = 1 + m % (sh[0] - 1); rest[0] = cut[0];
        arr_t v = x.View(zero, cut), u = x.View(rest, sh);
        out = &own(new arr_t(larger, (scalar_t)9));
        *out = v;
        out -> Append(u, 0);
      }
      if constexpr(D > 1) if(n > 0 && route == 6) {
        arr_t& t = own(new arr_t(larger, (scalar_t)9));
        x.template SwapAxes<0, D - 1>(t);
        out = &own(new arr_t(larger, (scalar_t)9));
        t.template SwapAxes<0, D - 1>(*out);
      }
      std::stringstream s;
      stor::Traits<arr_t>::serialize_to_numpy(s, *out);
      std::string t = s.str();
      std::vector<long> b;
      for(char ch : t) b.push_back((unsigned char)ch);
      return "{\"b\":" + js(b) + "}";
    }
    if(o == "DInterp" || o == "DIDiff") {
      if constexpr(D == 3) {
        // array with a field given by a formula; positions are given in sixteenths of a cell (DInterp) or cells (DIDiff)
        long kern = l.num();
        ind_t sh = rd<D>(l);
        long co[3][5], m;
        for(std::size_t c = 0; c < V; c++) for(auto& x : co[c]) x = l.num();
        m = l.num();
        long view = l.num();
        ind_t off((std::size_t)(view ? 1 : 0));
        arr_t big(sh + off + off, (scalar_t)77);
        std::unique_ptr<arr_t> p(view ? new auto(big.View(off, off + sh)) : nullptr);
        arr_t& x = view ? *p : big;
        for(std::size_t i = 0; i < sh[0]; i++) for(std::size_t j = 0; j < sh[1]; j++) for(std::size_t k = 0; k < sh[2]; k++)
          for(std::size_t c = 0; c < V; c++) {
            long v = co[c][0] * (long)i + co[c][1] * (long)j + co[c][2] * (long)k + co[c][3] * (long)(i * j * k) + co[c][4];
            x[ind_t{i, j, k}][c] = (scalar_t)(((v % m) + m) % m - m / 2);
          }
        double u = o == "DInterp" ? 16 : 1;
        Vector<scalar_t, 2> outer{(scalar_t)(l.real() / u), (scalar_t)(0)};
        outer[1] = (scalar_t)(l.real() / u);
        double st = l.real(), de = l.real();
        long g = l.num();                    // lengths of the batches the points are requested in
        std::vector<long> out;
        long done = 0;
        for(; g > 0; g--) {
          long n = l.num();
          NDVecArray<scalar_t, 1, V> r(Vector<std::size_t, 1>((std::size_t)n), (scalar_t)0);
          scalar_t a0 = (scalar_t)((st + de * done) / u), d0 = (scalar_t)(de / u);
          if(kern == 1) Interpolation::interpolate<Linear>(x, r, outer, a0, d0, (std::size_t)n);
          else Interpolation::interpolate<Keys>(x, r, outer, a0, d0, (std::size_t)n);
          if(r.GetShape()[0] != (std::size_t)n) return res(0);
          for(long i = 0; i < n; i++) for(std::size_t c = 0; c < V; c++) out.push_back(fix(r[(std::size_t)i][c], o == "DInterp" ? 4096 : 4096));
          done += n;
        }
        return "{\"v\":" + js(out) + "}";
      }
    }
    std::fprintf(stderr, "unknown operation %s\n", o.c_str());
    _exit(97);
  }
};

// ---------------------------------------------------------------------------------------------- loops and boxes
template <class T, std::size_t D> std::string loops(const std::string& o, Line& l) {
  using vec = Vector<T, D>;
  std::vector<long> out;
  auto put = [&](const vec& v) { for(std::size_t i = 0; i < D; i++) out.push_back(v[i] > (T)1000000 ? BAD : (long)v[i]); };
  if(o == "LElems") { vec b = rdT<T, D>(l), e = rdT<T, D>(l); auto w = [&](const vec& x) { put(x); if(out.size() > 100000) throw 1; }; IteratorUtils::index_loop_over_elements(b, e, w); return "{\"v\":" + js(out) + "}"; }
  if(o == "LChunks") { vec b = rdT<T, D>(l), e = rdT<T, D>(l), c = rdT<T, D>(l);
    auto w = [&](const vec& x, const vec& y) { put(x); put(y); if(out.size() > 100000) throw 1; };
    IteratorUtils::index_loop_over_chunks(b, e, c, w); return "{\"v\":" + js(out) + "}"; }
  if(o == "LOver") {
    vec as = rdT<T, D>(l), ash = rdT<T, D>(l), bs = rdT<T, D>(l), bsh = rdT<T, D>(l);
    bool r = ChunkUtils::overlaps(as, ash, bs, bsh);
    vec s((T)0), sh((T)0);
    if(r) ChunkUtils::get_chunk_overlap(as, ash, bs, bsh, s, sh);
    put(s); put(sh);
    return "{\"r\":" + std::to_string(r ? 1 : 0) + ",\"v\":" + js(out) + "}";
  }
  if constexpr(std::is_unsigned_v<T>) {
    if(o == "LCont") { vec s = rdT<T, D>(l), sh = rdT<T, D>(l), x = rdT<T, D>(l); return res(ChunkUtils::contains(s, sh, x) ? 1 : 0); }
    if(o == "LEmpty") { vec s = rdT<T, D>(l), e = rdT<T, D>(l); return res(IteratorUtils::empty_range(s, e) ? 1 : 0); }
    if(o == "LArr") {
      NDVecArray<scalar_t, D, 1> a(rdT<T, D>(l)); vec c = rdT<T, D>(l);
      auto w = [&](const vec& x, const vec& y) { put(x); put(y); if(out.size() > 100000) throw 1; };
      IteratorUtils::index_loop_over_array_chunks(a, c, w);
      return "{\"v\":" + js(out) + "}";
    }
  }
  std::fprintf(stderr, "unknown operation %s\n", o.c_str());
  _exit(97);
}

static std::string quad(Line& l) {
  long n = l.num(), k = l.num(), slack = l.num();
  std::vector<long> out;
  std::size_t a = 0;
  for(; k > 0; k--) {
    std::size_t b = a + (std::size_t)l.num();
    std::vector<scalar_t> w(b - a + 2 * slack, (scalar_t)-3);
    Quadrature::TrapezoidalRule::fill_weights(a, b, (std::size_t)n, w.begin() + slack, w.end() - slack);
    for(long i = 0; i < slack; i++) if(w[i] != (scalar_t)-3 || w[w.size() - 1 - i] != (scalar_t)-3) out.push_back(BAD);
    for(std::size_t i = slack; i < w.size() - slack; i++) out.push_back(fix(w[i], 1000));
    a = b;
  }
  return "{\"v\":" + js(out) + "}";
}

// ---------------------------------------------------------------------------------------------- vectors
// numbers are exchanged times SC (8 for floating point)
template <class T> constexpr double SC = std::is_floating_point_v<T> ? 8 : 1;
template <class T> T in(Line& l) { return (T)(l.num() / SC<T>); }
template <class T, std::size_t D> Vector<T, D> vin(Line& l) { Vector<T, D> v; for(std::size_t i = 0; i < D; i++) v[i] = in<T>(l); return v; }
template <class T> long outn(T x, double s) { if constexpr(std::is_floating_point_v<T>) { double y = x * s; return y > -2.1e9 && y < 2.1e9 ? std::llround(y) : BAD; } else { long long y = (long long)x; return y > 2100000000 || y < -2100000000 ? BAD : (long)y; } }
template <class V> std::string vj(const V& v, std::size_t n, double s = 8) { std::vector<long> o; for(std::size_t i = 0; i < n; i++) o.push_back(outn(v[i], s)); return js(o); }

template <class T, std::size_t D> std::string vecs(const std::string& f, Line& l) {
  using vec = Vector<T, D>;
  vec a = vin<T, D>(l), b = vin<T, D>(l);
  T k = in<T>(l);
  auto out = [&](const auto& r, std::size_t n, double s = 8) { return "{\"v\":" + vj(r, n, s) + ",\"a\":" + vj(a, D) + ",\"b\":" + vj(b, D) + "}"; };
  auto one = [&](long r) { return out(std::vector<long>{r}, 1); };
  if(f == "add") return out(a + b, D);
  if(f == "sub") return out(a - b, D);
  if(f == "mul") return out(a * b, D, 64);
  if(f == "div") return out(a / b, D, 64);
  if(f == "adds") return out(a + k, D);
  if(f == "subs") return out(a - k, D);
  if(f == "muls") return out(a * k, D, 64);
  if(f == "divs") return out(a / k, D, 64);
  if(f == "iadd") { vec& r = (a += b); return out(r, D); }
  if(f == "isub") { vec& r = (a -= b); return out(r, D); }
  if(f == "imul") { vec& r = (a *= b); return out(r, D, 64); }
  if(f == "idiv") { vec& r = (a /= b); return out(r, D, 64); }
  if(f == "iadds") { auto r = (a += k); return out(r, D); }
  if(f == "isubs") { auto r = (a -= k); return out(r, D); }
  if(f == "imuls") { auto r = (a *= k); return out(r, D, 64); }
  if(f == "idivs") { auto r = (a /= k); return out(r, D, 64); }
  if(f == "eq") return one(a == b);
  if(f == "ne") return one(a != b);
  if(f == "ge") return one(a >= b);
  if(f == "min") return out(VectorUtils::min(a, b), D);
  if(f == "max") return out(VectorUtils::max(a, b), D);
  if(f == "mins") return out(VectorUtils::min(a, k), D);
  if constexpr(std::is_floating_point_v<T>) {
    if(f == "maxs") return out(VectorUtils::max(a, k), D);
    if(f == "ceil") return out(VectorUtils::ceil_nonneg(a), D);
    // the next representable number above (below) a
    if(f == "ceilnext") { vec c(a); for(std::size_t i = 0; i < D; i++) c[i] = std::nextafter(c[i], (T)1e30); return out(VectorUtils::ceil_nonneg(c), D); }
    if(f == "floorprev") { vec c(a); for(std::size_t i = 0; i < D; i++) c[i] = std::nextafter(c[i], (T)0); return out(VectorUtils::floor_nonneg(c), D); }
    if(f == "floor") return out(VectorUtils::floor_nonneg(a), D);
  }
  if(f == "inner") return out(std::vector<T>{VectorUtils::inner(a, b)}, 1, 64);
  if(f == "int") return out(a.template as_type<int>(), D);
  if(f == "float") return out(a.template as_type<float>(), D, 8);
  if(f == "size") return out(a.template as_type<std::size_t>(), D);
  if(f == "copy") { vec c(a); c += b; return out(c, D); }
  if(f == "move") { vec t(a); vec c(std::move(t)); c += b; return out(c, D); }
  if(f == "assign") { vec c; c = a; c += b; return out(c, D); }
  if(f == "zero") { vec c; return out(c, D); }
  if(f == "const") { vec c(k); return out(c, D); }
  if(f == "fill") { vec c(a); c = k; return out(c, D); }
  if(f == "at") { std::vector<T> r; long exc = 0; for(std::size_t i = 0; i < D + 2; i++) { try { r.push_back(a.at(i)); } catch(const std::out_of_range&) { exc++; } } r.push_back((T)exc); 
    std::vector<long> o; for(std::size_t i = 0; i + 1 < r.size(); i++) o.push_back(outn(r[i], 8)); o.push_back(exc); return out(o, o.size()); }
  if(f == "setat") { a.at(0) = k; a[D - 1] = b[0]; return out(a, D); }
  if(f == "begin") { std::vector<T> r(a.begin(), a.end()); std::vector<T> s(a.cbegin(), a.cend()); r.insert(r.end(), s.begin(), s.end()); return out(r, r.size()); }
  // operands taken from the vector that is changed
  if(f == "selfadds") { vec c(a); c += c[0]; return out(c, D); }
  if(f == "selfsubs") { vec c(a); c -= c[0]; return out(c, D); }
  if(f == "selfmuls") { vec c(a); c *= c[0]; return out(c, D, 64); }
  if(f == "selfadd") { vec c(a); c += c; return out(c, D); }
  if(f == "selfcopy") { vec& c = a; a = c; return out(a, D); }
  // views: writing through a view of a part of a longer vector changes that part only
  if(f == "viewset") {
    Vector<T, D + 2> big(k);
    VectorView<T, D> w(big.begin() + 1);
    w = a;
    VectorView<T, D> u(b);
    Vector<T, D> c;
    if constexpr(D > 1) c = Vector<T, D>(w); else c[0] = w[0];
    w = u;
    std::vector<T> r(big.begin(), big.end());
    for(std::size_t i = 0; i < D; i++) r.push_back(c[i]);
    return out(r, r.size());
  }
  if(f == "viewown") { VectorView<T, D> w(a); VectorView<T, D> u(w); u[D - 1] = k; return out(a, D); }
  if(f == "null") { VectorView<T, D> w(a); return one(IsNullVector(w)); }
  std::fprintf(stderr, "unknown vector operation %s\n", f.c_str());
  _exit(97);
}

template <class A, class B, std::size_t D> std::string mixed(const std::string& f, Line& l) {
  Vector<A, D> a = vin<A, D>(l); Vector<B, D> b = vin<B, D>(l);
  B k = in<B>(l);
  std::string v;
  if(f == "min") v = vj(VectorUtils::min(a, b), D);
  else if(f == "max") v = vj(VectorUtils::max(a, b), D);
  else if(f == "mins") v = vj(VectorUtils::min(a, k), D);
  else _exit(97);
  return "{\"v\":" + v + ",\"a\":" + vj(a, D) + ",\"b\":" + vj(b, D) + "}";
}

template <class T> std::string named(Line& l) {
  std::string f = l.word();
  std::vector<T> x;
  for(int i = 0; i < 4; i++) x.push_back(in<T>(l));
  std::vector<T> r;
  auto all = [&](const auto& v, std::size_t n) { for(std::size_t i = 0; i < n; i++) r.push_back(v[i]); };
  if(f == "rz") { RZVector<T> v{x[0], x[1]}; const RZVector<T> c = v; r = {v.r(), v.z(), c.r(), c.z(), RZVector<T>::r(v), RZVector<T>::z(c)}; v.z() = x[2]; v.r() = x[3]; all(v, 2); RZVector<T>::r(v) = x[1]; all(v, 2); }
  else if(f == "zr") { ZRVector<T> v{x[0], x[1]}; const ZRVector<T> c = v; r = {v.r(), v.z(), c.r(), c.z(), ZRVector<T>::r(v), ZRVector<T>::z(c)}; v.z() = x[2]; v.r() = x[3]; all(v, 2); ZRVector<T>::r(v) = x[1]; all(v, 2); }
  else if(f == "rzt") { RZTVector<T> v{x[0], x[1], x[2]}; const RZTVector<T> c = v; r = {v.r(), v.z(), v.t(), c.r(), c.z(), c.t()};
    auto w = v.rz_view(); r.push_back(w[0]); r.push_back(w[1]); r.push_back(RZVectorView<T>::r(w)); r.push_back(RZVectorView<T>::z(w));
    v.t() = x[3]; RZVectorView<T>::z(w) = x[0]; all(v, 3);
    RZVector<T> q{x[2], x[3]}; RZTVector<T> u(q, x[1]); all(u, 3); r.push_back(RZTVector<T>::r(v)); r.push_back(RZTVector<T>::z(v)); r.push_back(RZTVector<T>::t(v)); }
  else if(f == "tzr") { TZRVector<T> v{x[0], x[1], x[2]}; const TZRVector<T> c = v; r = {v.r(), v.z(), v.t(), c.r(), c.z(), c.t()};
    auto w = v.zr_view(); r.push_back(w[0]); r.push_back(w[1]); r.push_back(ZRVectorView<T>::r(w)); r.push_back(ZRVectorView<T>::z(w));
    v.t() = x[3]; ZRVectorView<T>::z(w) = x[0]; all(v, 3);
    ZRVector<T> q{x[2], x[3]}; TZRVector<T> u(x[1], q); all(u, 3); all(c.zr(), 2); }
  else if(f == "xyz") { XYZVector<T> v{x[0], x[1], x[2]}; const XYZVector<T> c = v; r = {v.x(), v.y(), v.z(), c.x(), c.y(), c.z()}; v.x() = x[3]; v.y() = x[0]; v.z() = x[1]; all(v, 3); }
  else if(f == "xyzt") { XYZTVector<T> v{x[0], x[1], x[2], x[3]}; const XYZTVector<T> c = v; r = {v.x(), v.y(), v.z(), v.t(), c.x(), c.y(), c.z(), c.t()}; v.x() = x[3]; v.y() = x[2]; v.z() = x[1]; v.t() = x[0]; all(v, 4); }
  else _exit(97);
  std::vector<long> o;
  for(T y : r) o.push_back(outn(y, 8));
  return "{\"v\":" + js(o) + "}";
}

template <std::size_t D> std::string vdim(Line& l) {
  long ty = l.num(); std::string f = l.word();
  switch(ty) {
    case 0: return vecs<int, D>(f, l);
    case 1: return vecs<std::size_t, D>(f, l);
    case 2: return vecs<float, D>(f, l);
    case 3: return vecs<double, D>(f, l);
    case 4: return mixed<int, std::size_t, D>(f, l);
    case 5: return mixed<std::size_t, int, D>(f, l);
  }
  _exit(97);
}

static std::unique_ptr<Base> make(long d, long v) {
#define CASE(D, V) if(d == D && v == V) return std::make_unique<Arrays<D, V>>();
  CASE(1, 1) CASE(1, 2) CASE(1, 3) CASE(2, 1) CASE(2, 2) CASE(2, 3) CASE(3, 1) CASE(3, 2) CASE(3, 3) CASE(4, 1)
  _exit(97);
}

static std::string run(std::unique_ptr<Base>& arrays, const std::string& text) {
  Line l(text);
  std::string o = l.word();
  if(o == "DInit") { long d = l.num(), v = l.num(); arrays = make(d, v); return res(1); }
  if(o == "QSplit") return quad(l);
  if(o == "VOp") {
    long d = l.num();
    switch(d) { case 1: return vdim<1>(l); case 2: return vdim<2>(l); case 3: return vdim<3>(l); case 4: return vdim<4>(l); }
    _exit(97);
  }
  if(o == "VName") { long ty = l.num(); return ty == 0 ? named<int>(l) : ty == 1 ? named<std::size_t>(l) : named<float>(l); }
  if(o[0] == 'L') {
    long s = l.num(), d = l.num();
    if(s == 1) switch(d) { case 1: return loops<int, 1>(o, l); case 2: return loops<int, 2>(o, l); case 3: return loops<int, 3>(o, l); case 4: return loops<int, 4>(o, l); }
    else switch(d) { case 1: return loops<std::size_t, 1>(o, l); case 2: return loops<std::size_t, 2>(o, l); case 3: return loops<std::size_t, 3>(o, l); case 4: return loops<std::size_t, 4>(o, l); }
    _exit(97);
  }
  return arrays -> op(o, l);
}

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    std::unique_ptr<Base> arrays;
    for(std::size_t k = 0; k < h.ops.size(); k++) {
      std::string r;
      try { r = run(arrays, h.ops[k]); }
      catch(const std::exception& e) { r = "{\"exc\":1}"; }
      catch(int) { r = "{\"exc\":2}"; }
      rep((int)k, r);
    }
  });
}
