// Conformance driver for the on-disk formats: NDVecArrayStreamer, the serialization traits, the chunk directory.
// Floats travel as their bit patterns (signed 32-bit integers), so that nothing is lost or rounded on the way.
#include <iostream>
#include <span>
#include <execution>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <arpa/inet.h>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "DistributedNDVecArray.hh"
#include "GreensFunction.hh"
#include "harness.hh"

static std::string res(long v) { return "{\"r\":" + std::to_string(v) + "}"; }
static std::string fname(long f) { return "f" + std::to_string(f); }
static std::vector<long> bytes_of(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::vector<long> r; char c;
  while(f.get(c)) r.push_back((unsigned char)c);
  return r;
}
static std::vector<long> words_of(const std::string& path) {
  std::vector<long> b = bytes_of(path), r;
  for(std::size_t i = 0; i < b.size(); i += 4) {
    if(i + 4 > b.size()) { r.push_back(-99999999999L % 1000003); break; }   // not a whole number of words
    r.push_back((std::int32_t)(((std::uint32_t)b[i] << 24) | (b[i + 1] << 16) | (b[i + 2] << 8) | b[i + 3]));
  }
  return r;
}
static void put_bytes(const std::string& path, Line& l) {
  long n = l.num();
  std::ofstream f(path, std::ios::binary);
  for(long i = 0; i < n; i++) f.put((char)(unsigned char)l.num());
}
static void put_words(const std::string& path, Line& l) {
  long n = l.num();
  std::ofstream f(path, std::ios::binary);
  for(long i = 0; i < n; i++) { std::uint32_t w = (std::uint32_t)(std::int32_t)l.num(); char b[4] = {(char)(w >> 24), (char)(w >> 16), (char)(w >> 8), (char)w}; f.write(b, 4); }
}
static void setf(float& x, long w) { std::uint32_t b = (std::uint32_t)(std::int32_t)w; std::memcpy((void*)&x, &b, 4); }
static long getf(const float& x) { std::int32_t b; std::memcpy(&b, (const void*)&x, 4); return b; }

// ------------------------------------------------------------------ values of the basic types
template <class T> struct IO;
template <> struct IO<std::uint32_t> {
  static void rd(Line& l, std::uint32_t& v) { v = (std::uint32_t)(std::int32_t)l.num(); }
  static void wr(std::vector<long>& o, const std::uint32_t& v) { o.push_back((std::int32_t)v); }
};
template <> struct IO<std::uint64_t> {
  static void rd(Line& l, std::uint64_t& v) { std::uint32_t h, w; IO<std::uint32_t>::rd(l, h); IO<std::uint32_t>::rd(l, w); v = ((std::uint64_t)h << 32) | w; }
  static void wr(std::vector<long>& o, const std::uint64_t& v) { o.push_back((std::int32_t)(v >> 32)); o.push_back((std::int32_t)(v & 0xffffffffu)); }
};
template <> struct IO<float> {
  static void rd(Line& l, float& v) { setf(v, l.num()); }
  static void wr(std::vector<long>& o, const float& v) { o.push_back(getf(v)); }
};
template <> struct IO<double> {
  static void rd(Line& l, double& v) { std::uint64_t u; IO<std::uint64_t>::rd(l, u); std::memcpy((void*)&v, &u, 8); }
  static void wr(std::vector<long>& o, const double& v) { std::uint64_t u; std::memcpy(&u, (const void*)&v, 8); IO<std::uint64_t>::wr(o, u); }
};
template <> struct IO<std::string> {
  static void rd(Line& l, std::string& v) { long n = l.num(); v.clear(); for(long i = 0; i < n; i++) v.push_back((char)(unsigned char)l.num()); }
  static void wr(std::vector<long>& o, const std::string& v) { o.push_back(v.size()); for(unsigned char c : v) o.push_back(c); }
};
template <class T> struct IO<std::vector<T>> {
  static void rd(Line& l, std::vector<T>& v) { long n = l.num(); v.resize(n); for(auto& x : v) IO<T>::rd(l, x); }
  static void wr(std::vector<long>& o, const std::vector<T>& v) { o.push_back(v.size()); for(auto& x : v) IO<T>::wr(o, x); }
};
template <class T, std::size_t N> struct IO<std::array<T, N>> {
  static void rd(Line& l, std::array<T, N>& v) { for(auto& x : v) IO<T>::rd(l, x); }
  static void wr(std::vector<long>& o, const std::array<T, N>& v) { for(auto& x : v) IO<T>::wr(o, x); }
};
template <class T, std::size_t N> struct IO<Vector<T, N>> {
  static void rd(Line& l, Vector<T, N>& v) { for(std::size_t i = 0; i < N; i++) IO<T>::rd(l, v[i]); }
  static void wr(std::vector<long>& o, const Vector<T, N>& v) { for(std::size_t i = 0; i < N; i++) IO<T>::wr(o, v[i]); }
};
template <> struct IO<RZTCoordVector> {
  static void rd(Line& l, RZTCoordVector& v) { for(std::size_t i = 0; i < 3; i++) IO<float>::rd(l, v[i]); }
  static void wr(std::vector<long>& o, const RZTCoordVector& v) { for(std::size_t i = 0; i < 3; i++) IO<float>::wr(o, v[i]); }
};
template <class K, class V> struct IO<std::map<K, V>> {
  static void rd(Line& l, std::map<K, V>& m) { long n = l.num(); m.clear(); for(long i = 0; i < n; i++) { K k; V v; IO<K>::rd(l, k); IO<V>::rd(l, v); m.insert({k, v}); } }
  static void wr(std::vector<long>& o, const std::map<K, V>& m) { o.push_back(m.size()); for(auto& [k, v] : m) { IO<K>::wr(o, k); IO<V>::wr(o, v); } }
};
template <std::size_t D> struct IO<ChunkMetadata<D>> {
  static void rd(Line& l, ChunkMetadata<D>& m) {
    std::uint64_t ty, ov; std::string path; std::uint32_t id; Vector<std::size_t, D> s, sh;
    IO<std::uint64_t>::rd(l, ty); IO<std::string>::rd(l, path); IO<std::uint32_t>::rd(l, id);
    IO<Vector<std::size_t, D>>::rd(l, s); IO<Vector<std::size_t, D>>::rd(l, sh); IO<std::uint64_t>::rd(l, ov);
    m = ChunkMetadata<D>(ChunkType{ty}, path, id, s, sh, ov);
  }
  static void wr(std::vector<long>& o, const ChunkMetadata<D>& m) {
    IO<std::uint64_t>::wr(o, static_cast<std::uint64_t>(m.chunk_type)); IO<std::string>::wr(o, m.filepath.string()); IO<std::uint32_t>::wr(o, m.chunk_id);
    IO<Vector<std::size_t, D>>::wr(o, m.start_ind); IO<Vector<std::size_t, D>>::wr(o, m.shape); IO<std::uint64_t>::wr(o, m.overlap);
    if(!(m.end_ind == m.start_ind + m.shape)) o.push_back(-1);
  }
};
template <> struct IO<CylindricalGreensFunctionMetadata> {
  static void rd(Line& l, CylindricalGreensFunctionMetadata& m) {
    RZTCoordVector a(0.0f), b(0.0f), c(0.0f); IO<RZTCoordVector>::rd(l, a); IO<RZTCoordVector>::rd(l, b); IO<RZTCoordVector>::rd(l, c);
    m = CylindricalGreensFunctionMetadata(a, b, c);
  }
  static void wr(std::vector<long>& o, const CylindricalGreensFunctionMetadata& m) {
    IO<RZTCoordVector>::wr(o, m.start_pos_rzt); IO<RZTCoordVector>::wr(o, m.end_pos_rzt); IO<RZTCoordVector>::wr(o, m.sample_interval_rzt);
  }
};

template <class T> static std::string xenc(Line& l) {
  T v{};
  IO<T>::rd(l, v);
  { std::fstream f("x", std::ios::out | std::ios::binary); stor::DefaultSerializer s; s.serialize<T>(f, v); }
  return "{\"b\":" + js(bytes_of("x")) + "}";
}
template <class T> static std::string xdec(Line& l) {
  put_bytes("x", l);
  std::fstream f("x", std::ios::in | std::ios::binary);
  stor::DefaultSerializer s;
  T v = s.deserialize<T>(f);
  std::vector<long> o;
  IO<T>::wr(o, v);
  std::vector<long> rest; char c;
  while(f.get(c)) rest.push_back((unsigned char)c);
  return "{\"o\":" + js(o) + ",\"rest\":" + js(rest) + "}";
}
template <class T> static std::string xop(bool enc, Line& l) { return enc ? xenc<T>(l) : xdec<T>(l); }
static std::string xtype(bool enc, Line& l) {
  std::string ty = l.word();
  using u32 = std::uint32_t; using u64 = std::uint64_t;
  if(ty == "u32") return xop<u32>(enc, l);
  if(ty == "u64") return xop<u64>(enc, l);
  if(ty == "f32") return xop<float>(enc, l);
  if(ty == "f64") return xop<double>(enc, l);
  if(ty == "str") return xop<std::string>(enc, l);
  if(ty == "vf32") return xop<std::vector<float>>(enc, l);
  if(ty == "vu64") return xop<std::vector<u64>>(enc, l);
  if(ty == "vstr") return xop<std::vector<std::string>>(enc, l);
  if(ty == "vf64") return xop<std::vector<double>>(enc, l);
  if(ty == "vvf32") return xop<std::vector<std::vector<float>>>(enc, l);
  if(ty == "au32") return xop<std::array<u32, 3>>(enc, l);
  if(ty == "af32") return xop<std::array<float, 2>>(enc, l);
  if(ty == "mu32f32") return xop<std::map<u32, float>>(enc, l);
  if(ty == "mstru64") return xop<std::map<std::string, u64>>(enc, l);
  if(ty == "mu64vf32") return xop<std::map<u64, std::vector<float>>>(enc, l);
  if(ty == "V3u64") return xop<Vector<std::size_t, 3>>(enc, l);
  if(ty == "V2f32") return xop<Vector<float, 2>>(enc, l);
  if(ty == "vV2f32") return xop<std::vector<Vector<float, 2>>>(enc, l);
  if(ty == "meta3") return xop<std::vector<ChunkMetadata<3>>>(enc, l);
  if(ty == "meta2") return xop<std::vector<ChunkMetadata<2>>>(enc, l);
  if(ty == "green") return xop<CylindricalGreensFunctionMetadata>(enc, l);
  std::fprintf(stderr, "unknown type %s\n", ty.c_str());
  _exit(97);
}

// ------------------------------------------------------------------ arrays in files
struct Base { virtual ~Base() = default; virtual std::string op(const std::string& o, Line& l) = 0; };

template <std::size_t D, std::size_t VEC> struct Files : Base {
  using arr_t = NDVecArray<float, D, VEC>;
  using ind_t = Vector<std::size_t, D>;
  stor::NDVecArrayStreamer<NDVecArray, float, D, VEC> str;
  std::map<long, std::vector<long>> starts;
  std::unique_ptr<arr_t> into;                       // arrays are read into one that has held others before
  std::unique_ptr<DistributedNDVecArray<NDVecArray, float, D, VEC>> lib;
  explicit Files(std::size_t buf) : str(buf) { into = std::make_unique<arr_t>(ind_t((std::size_t)1)); }

  static ind_t rdser(Line& l) { ind_t v; for(std::size_t i = 0; i < D; i++) { long x = l.num(); v[i] = x < 0 ? stor::INFTY : (std::size_t)x; } return v; }
  static ind_t rd(Line& l) { ind_t v; for(std::size_t i = 0; i < D; i++) v[i] = (std::size_t)l.num(); return v; }
  static std::size_t vol(const ind_t& s) { std::size_t p = 1; for(std::size_t i = 0; i < D; i++) p *= s[i]; return p; }
  static ind_t unflat(const ind_t& s, std::size_t k) { ind_t r; for(std::size_t i = D; i-- > 0;) { r[i] = k % s[i]; k /= s[i]; } return r; }
  static std::vector<long> vec(const ind_t& v) { std::vector<long> r; for(std::size_t i = 0; i < D; i++) r.push_back((long)v[i]); return r; }
  template <class F> static auto with_arr(Line& l, bool view, F&& f) {
    ind_t sh = rd(l);
    auto fill = [&](auto& a, const ind_t& off) {
      for(std::size_t k = 0; k < vol(sh); k++) { auto e = a[unflat(sh, k) + off]; for(std::size_t c = 0; c < VEC; c++) setf(e[c], l.num()); }
    };
    if(!view) { arr_t a(sh); fill(a, ind_t((std::size_t)0)); return f(a); }
    arr_t big(sh + (std::size_t)3);                   // a view of part of a larger array
    for(std::size_t k = 0; k < vol(big.GetShape()); k++) { auto e = big[unflat(big.GetShape(), k)]; for(std::size_t c = 0; c < VEC; c++) e[c] = 77.0f; }
    ind_t off;
    for(std::size_t i = 0; i < D; i++) off[i] = i + 1 < 3 ? i + 1 : 3;
    fill(big, off);
    const arr_t v = big.View(off, off + sh);
    return f(v);
  }
  static std::string data(const arr_t& a) {
    std::vector<long> r; ind_t sh = a.GetShape();
    for(std::size_t k = 0; k < vol(sh); k++) { auto e = a[unflat(sh, k)]; for(std::size_t c = 0; c < VEC; c++) r.push_back(getf(e[c])); }
    return "{\"sh\":" + js(vec(sh)) + ",\"d\":" + js(r) + "}";
  }
  template <std::size_t A> static void app(DistributedNDVecArray<NDVecArray, float, D, VEC>& x, const ind_t& s, const arr_t& c) { x.template AppendSlice<A>(s, c); }

  std::string op(const std::string& o, Line& l) override {
    if(o == "SSer") {
      long f = l.num(), mode = l.num(), view = l.num(); ind_t ser = rdser(l);
      return with_arr(l, view, [&](const arr_t& a) {
        { std::ofstream touch(fname(f), std::ios::binary | std::ios::app); }
        std::fstream s(fname(f), std::ios::in | std::ios::out | std::ios::binary);
        s.seekp(0, std::ios::end); s.seekg(0, std::ios::end);
        long pos = s.tellp();
        str.serialize(s, a, ser, mode == 1 ? stor::StreamerMode::dense : stor::StreamerMode::null_suppressed);
        starts[f].push_back(pos);
        return res(1);
      });
    }
    if(o == "SApp") {
      long f = l.num(), ax = l.num(), mode = l.num(), view = l.num();
      return with_arr(l, view, [&](const arr_t& a) {
        std::fstream s(fname(f), std::ios::in | std::ios::out | std::ios::binary);
        s.seekg(starts.at(f).back()); s.seekp(starts.at(f).back());
        str.append_slice(s, a, ax - 1, mode == 1 ? stor::StreamerMode::dense : stor::StreamerMode::null_suppressed);
        return res(1);
      });
    }
    if(o == "SFin") {
      long f = l.num(), k = l.num();
      std::fstream s(fname(f), std::ios::in | std::ios::out | std::ios::binary);
      s.seekg(starts.at(f).at(k - 1)); s.seekp(starts.at(f).at(k - 1));
      str.mark_as_final(s);
      return res(1);
    }
    if(o == "SRead") {
      long f = l.num();
      std::fstream s(fname(f), std::ios::in | std::ios::binary);
      std::string r = "[";
      for(std::size_t k = 0; k < starts[f].size(); k++) { str.deserialize(s, *into); r += (k ? "," : "") + data(*into); }
      long end = s ? (long)s.tellg() : -1;
      return "{\"a\":" + r + "],\"end\":" + std::to_string(end / 4) + "}";
    }
    if(o == "SWords") return "{\"w\":" + js(words_of(fname(l.num()))) + "}";
    if(o == "SPut") {
      long f = l.num(), k = l.num();
      starts[f].clear();
      for(long i = 0; i < k; i++) starts[f].push_back(4 * l.num());
      put_words(fname(f), l);
      return res(1);
    }
    // directories of chunks
    if(o == "DNew") { long c = l.num(); ind_t ser = rdser(l); lib = std::make_unique<DistributedNDVecArray<NDVecArray, float, D, VEC>>("dir", c, ind_t((std::size_t)2), ser); return res(1); }
    if(o == "DReg") { ind_t s = rd(l); long ov = l.num(), opt = l.num(); ChunkHints h = opt ? ChunkHints::ENABLE_OPT : ChunkHints::NONE;
      return with_arr(l, false, [&](const arr_t& a) { ind_t e = s + a.GetShape() - 2 * (std::size_t)ov; lib -> RegisterChunk(a, s, e, ov, h); return res(1); }); }
    if(o == "DApp") { long ax = l.num(); ind_t s = rd(l);
      return with_arr(l, false, [&](const arr_t& a) {
        if(ax == 1) app<0>(*lib, s, a);
        if constexpr(D > 1) if(ax == 2) app<1>(*lib, s, a);
        if constexpr(D > 2) if(ax == 3) app<2>(*lib, s, a);
        return res(1); }); }
    if(o == "DFlush") { lib -> Flush(); return res(1); }
    if(o == "DClose") { lib.reset(); return res(1); }
    if(o == "DScan") {
      std::string r = "[", first = "";
      std::vector<std::string> names;
      for(auto& e : std::filesystem::directory_iterator("dir")) names.push_back(e.path().filename().string());
      std::sort(names.begin(), names.end());
      std::string idx = "[]";
      for(auto& n : names) {
        if(n == "index.bin") { idx = js(bytes_of("dir/index.bin")); continue; }
        std::vector<long> nm(n.begin(), n.end());
        r += first + "{\"n\":" + js(nm) + ",\"w\":" + js(words_of("dir/" + n)) + "}"; first = ",";
      }
      return "{\"idx\":" + idx + ",\"files\":" + r + "]}";
    }
    if(o == "DPutIdx") { std::filesystem::create_directories("dir"); put_bytes("dir/index.bin", l); return res(1); }
    if(o == "DPutChunk") { std::filesystem::create_directories("dir"); std::string n = l.word(); put_words("dir/" + n + ".chunk", l); return res(1); }
    if(o == "DGet") {
      ind_t s = rd(l), e = rd(l); arr_t a(e - s);
      lib -> FillArray(a, s, e, ind_t((std::size_t)0));
      return "{\"a\":" + data(a) + "}";
    }
    std::fprintf(stderr, "unknown operation %s\n", o.c_str());
    _exit(97);
  }
};

struct Run {
  std::unique_ptr<Base> b;
  std::string op(const std::string& text) {
    Line l(text);
    std::string o = l.word();
    if(o == "SNew") {
      long d = l.num(), v = l.num(), buf = l.num();
      if(d == 1 && v == 1) b = std::make_unique<Files<1, 1>>(buf);
      else if(d == 2 && v == 1) b = std::make_unique<Files<2, 1>>(buf);
      else if(d == 2 && v == 3) b = std::make_unique<Files<2, 3>>(buf);
      else if(d == 3 && v == 1) b = std::make_unique<Files<3, 1>>(buf);
      else if(d == 3 && v == 2) b = std::make_unique<Files<3, 2>>(buf);
      else if(d == 4 && v == 1) b = std::make_unique<Files<4, 1>>(buf);
      else _exit(97);
      return res(1);
    }
    if(o == "XEnc") return xtype(true, l);
    if(o == "XDec") return xtype(false, l);
    return b -> op(o, l);
  }
};

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    Run run;
    int k = 0;
    for(auto& o : h.ops) {
      std::string r;
      try { r = run.op(o); }
      catch(std::exception& e) { r = "{\"r\":0}"; }
      rep(k++, r);
    }
  });
}
