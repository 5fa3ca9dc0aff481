// Conformance driver for DistributedNDVecArray.  See harness.hh for the protocol.
// Values travel as integers: component 0 + 1000 * component 1; -1 stands for anything that is not such a value.
#include <iostream>
#include <span>
#include <execution>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <arpa/inet.h>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "DistributedNDVecArray.hh"
#include "Symmetry.hh"
#include "harness.hh"

#ifndef DIMS
#define DIMS 3
#endif
#ifndef VEC
#define VEC 2
#endif
using T = float;
constexpr std::size_t D = DIMS;
using darr_t = DistributedNDVecArray<NDVecArray, T, D, VEC>;
using chunk_t = darr_t::chunk_t;
using ind_t = Vector<std::size_t, D>;
using sind_t = Vector<int, D>;
using view_t = chunk_t::view_t;

static ind_t rd(Line& l) { ind_t v; for(std::size_t i = 0; i < D; i++) v[i] = (std::size_t)l.num(); return v; }
static void dec(long v, T* out) { out[0] = (T)(v % 1000); if(VEC > 1) out[VEC - 1] = (T)(v / 1000); }
template <class It> static long enc(It it) {
  // judged on the bits: -ffast-math lets the compiler assume that there are no NaNs
  auto ok = [](T x) { std::uint32_t b; std::memcpy(&b, &x, 4); return b == 0 || (b >= 0x3f800000u && b < 0x447a0000u && x == (T)(long)x); };
  T a = *it;
  if(!ok(a)) return -1;
  if(VEC == 1) return (long)a;
  T b = *(it + (VEC - 1));
  if(!ok(b)) return -1;
  return (long)a + 1000 * (long)b;
}
static std::size_t vol(const ind_t& s) { std::size_t p = 1; for(std::size_t i = 0; i < D; i++) p *= s[i]; return p; }
static ind_t unflat(const ind_t& s, std::size_t k) { ind_t r; for(std::size_t i = D; i-- > 0;) { r[i] = k % s[i]; k /= s[i]; } return r; }
static chunk_t rdarr(Line& l, const ind_t& shape) {
  chunk_t a(shape);
  std::size_t n = vol(shape);
  for(std::size_t k = 0; k < n; k++) { T v[VEC]; dec(l.num(), v); auto e = a[unflat(shape, k)]; for(std::size_t c = 0; c < VEC; c++) e[c] = v[c]; }
  return a;
}
static std::string arrjs(const chunk_t& a) {
  std::vector<long> r;
  ind_t sh = a.GetShape();
  std::size_t n = vol(sh);
  for(std::size_t k = 0; k < n; k++) { auto e = a[unflat(sh, k)]; r.push_back(enc(e.begin())); }
  return js(r);
}
template <class V> static std::vector<long> vec(const V& v) { std::vector<long> r; for(std::size_t i = 0; i < D; i++) r.push_back((long)v[i]); return r; }
static std::string dirn(long d) { return "d" + std::to_string(d); }

static long evalgen(const sind_t& x) {
  long h = 0;
  for(std::size_t i = 0; i < D; i++) h = h * 7 + x[i] + 40;
  return (h % 899) + 1;
}

struct Run {
  std::map<long, std::unique_ptr<darr_t>> obj;
  Reporter& rep;
  bool done_early = false;

  void make(long a, long d, Line& l) {
    long cache = l.num();
    ind_t ser = 0;
    for(std::size_t i = 0; i < D; i++) { long v = l.num(); ser[i] = v < 0 ? stor::INFTY : (std::size_t)v; }
    obj[a] = std::make_unique<darr_t>(dirn(d), cache, ind_t((std::size_t)3), ser);
  }

  template <std::size_t A> void app(darr_t& x, const ind_t& s, const chunk_t& c) { x.template AppendSlice<A>(s, c); }

  template <class F> void with_eval(const std::string& kind, std::vector<long>& calls, F&& f) {
    auto note = [&](const sind_t& x) { for(std::size_t i = 0; i < D; i++) calls.push_back(x[i]); };
    if(kind == "gen") {        // the form given the whole array
      auto ev = [&](darr_t&, const sind_t& x, view_t e) { note(x); T v[VEC]; dec(evalgen(x), v); for(std::size_t c = 0; c < VEC; c++) e[c] = v[c]; };
      f(ev);
    }
    else if(kind == "genl") {  // the form given the chunk
      auto ev = [&](chunk_t&, const sind_t&, const sind_t&, const sind_t& x, view_t e) { note(x); T v[VEC]; dec(evalgen(x), v); for(std::size_t c = 0; c < VEC; c++) e[c] = v[c]; };
      f(ev);
    }
    else {
#if DIMS == 3 && VEC == 2
      f(SpatialSymmetry::Cylindrical<T>::boundary_evaluator);
#endif
    }
  }

  std::string dump(long d) {
    std::string dir = dirn(d);
    std::string out = "[";
    std::vector<ChunkMetadata<D>> metas;
    {
      std::fstream f(dir + "/index.bin", std::ios::in | std::ios::binary);
      if(!f) return "[]";
      metas = stor::Traits<std::vector<ChunkMetadata<D>>>::deserialize(f);
    }
    bool first = true;
    for(auto& m : metas) {
      if(!first) out += ",";
      first = false;
      bool null = m.chunk_type == ChunkType::all_null;
      ind_t es = m.shape + 2 * m.overlap;
      chunk_t c(es);
      if(null) {
        c = (T)0.0;
        if(!m.filepath.empty()) null = false;
      }
      else {
        stor::NDVecArrayStreamer<NDVecArray, T, D, VEC> str;
        std::fstream f(dir + "/" + m.filepath.string() + ".chunk", std::ios::in | std::ios::binary);
        if(f) str.deserialize(f, c);
        else c = (T)-1.0;
      }
      out += "{\"s\":" + js(vec(m.start_ind)) + ",\"e\":" + js(vec(m.end_ind)) + ",\"ov\":" + std::to_string(m.overlap)
        + ",\"null\":" + (null ? "1" : "0") + ",\"sh\":" + js(vec(c.GetShape())) + ",\"d\":" + arrjs(c) + "}";
    }
    return out + "]";
  }

  std::string op(const std::string& text) {
    Line l(text);
    std::string o = l.word();
    auto ok = [] { return std::string("{\"r\":1}"); };
    if(o == "New") { long a = l.num(), d = l.num(); make(a, d, l); return ok(); }
    if(o == "Crash") { // image of the directory as it is right now, opened by a new object
      long a = l.num(), d = l.num(); std::string old = obj[a] -> GetWorkdir().string();
      std::filesystem::copy(old, dirn(d), std::filesystem::copy_options::recursive);
      obj.erase(a);
      std::filesystem::remove_all(old);
      make(a, d, l);
      return ok();
    }
    if(o == "Dump") { return "{\"ch\":" + dump(l.num()) + "}"; }
    if(o == "Files") {
      std::string dir = dirn(l.num()); long n = 0;
      for(auto& e : std::filesystem::directory_iterator(dir)) if(e.path().extension() == ".chunk") n++;
      return "{\"n\":" + std::to_string(n) + "}";
    }
    if(o == "Gone") { return std::string("{\"gone\":") + (std::filesystem::exists(dirn(l.num())) ? "0" : "1") + "}"; }
    long a = l.num();
    darr_t& x = *obj.at(a);
    if(o == "Reg") {
      ind_t s = rd(l), e = rd(l); long ov = l.num(), opt = l.num();
      chunk_t c = rdarr(l, e - s + 2 * (std::size_t)ov);
      if(ov == 0) x.RegisterChunk(c, s, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
      else x.RegisterChunk(c, s, e, ov, opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE);
      return ok();
    }
    if(o == "App") {
      long ax = l.num(); ind_t s = rd(l), sh = rd(l); chunk_t c = rdarr(l, sh);
      if(ax == 1) app<0>(x, s, c);
      else if(ax == 2) app<1>(x, s, c);
#if DIMS > 2
      else app<2>(x, s, c);
#endif
      return ok();
    }
    if(o == "Get") { auto v = x[rd(l)]; return "{\"v\":" + std::to_string(enc(v.begin())) + "}"; }
    if(o == "Fill") {
      ind_t s = rd(l), e = rd(l), os = rd(l), ash = rd(l); long bg = l.num();
      chunk_t arr(ash);
      T v[VEC]; dec(bg, v);
      for(std::size_t k = 0; k < vol(ash); k++) { auto el = arr[unflat(ash, k)]; for(std::size_t c = 0; c < VEC; c++) el[c] = v[c]; }
      x.FillArray(arr, s, e, os);
      return "{\"v\":" + arrjs(arr) + "}";
    }
    if(o == "Shape") { return "{\"v\":" + js(vec(x.GetShape())) + "}"; }
    if(o == "Loop") {
      std::string xs = "[", vs = "["; long n = 0;
      x.index_loop_over_elements([&](const ind_t& i, const view_t& e) {
        if(n) { xs += ","; vs += ","; }
        n++;
        xs += js(vec(i)); vs += std::to_string(enc(e.begin()));
      });
      return "{\"n\":" + std::to_string(n) + ",\"xs\":" + xs + "],\"vs\":" + vs + "]}";
    }
    if(o == "Flush") { x.Flush(); return ok(); }
    if(o == "Close") { obj.erase(a); return ok(); }
    if(o == "Move") { long d = l.num(); x.Move(dirn(d)); return ok(); }
    if(o == "Import") { long d = l.num(), mv = l.num(); x.Import(dirn(d), mv != 0); return ok(); }
    if(o == "Rebuild") {
      ind_t csh = rd(l); long tmp = l.num(), ov = l.num(), opt = l.num(); std::string kind = l.word();
      ChunkHints h = opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
      std::vector<long> calls;
      if(kind == "none") x.RebuildChunks(csh, dirn(tmp), h);
      else with_eval(kind, calls, [&](auto& ev) { x.RebuildChunks(csh, dirn(tmp), ov, ev, h); });
      return std::string("{\"r\":1,\"calls\":") + js(calls) + ",\"tmpgone\":" + (std::filesystem::exists(dirn(tmp)) ? "0" : "1") + "}";
    }
    if(o == "Part") {
      ind_t s = rd(l), e = rd(l), os = rd(l), csh = rd(l); long out = l.num(), ov = l.num(), opt = l.num(); std::string kind = l.word();
      ChunkHints h = opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
      std::vector<long> calls;
      bool same = true;
      for(std::size_t i = 0; i < D; i++) same = same && (s[i] == os[i]);
      if(kind == "none") x.RebuildChunksPartial(s, e, csh, dirn(out), h);
      else with_eval(kind, calls, [&](auto& ev) {
        if(same) x.RebuildChunksPartial(s, e, csh, dirn(out), ov, ev, h);
        else x.RebuildChunksPartial(s, e, os, csh, dirn(out), ov, ev, h); });
      return std::string("{\"r\":1,\"calls\":") + js(calls) + "}";
    }
    if(o == "Swap") {
      long i = l.num(), j = l.num();
      if(i > j) std::swap(i, j);
      if(i == 1 && j == 2) x.SwapAxes<0, 1>();
#if DIMS > 2
      else if(i == 1 && j == 3) x.SwapAxes<0, 2>();
      else x.SwapAxes<1, 2>();
#endif
      return ok();
    }
    std::fprintf(stderr, "unknown operation %s\n", o.c_str());
    _exit(97);
  }
};

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    Run run{{}, rep};
    int k = 0;
    for(auto& o : h.ops) {
      std::string r;
      try { r = run.op(o); }
      catch(std::exception& e) { r = "{\"r\":0}"; }
      rep(k++, r);
    }
    run.obj.clear();
  });
}
