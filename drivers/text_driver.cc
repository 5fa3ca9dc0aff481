// Conformance driver for exported texts, special functions, the analytic dipole, and what the simulation package is told about
// geometry and antenna (with the stand-in for MEEP in stub/meep.hpp).  See harness.hh for the protocol.
#include <iostream>
#include <span>
#include <execution>
#include <format>
#include <cstring>
#include <cmath>
#include <memory>
#include <arpa/inet.h>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "NDVecArrayOperations.hh"
#include "DistributedNDVecArray.hh"
#include "Symmetry.hh"
#include "GreensFunction.hh"
#include "MathUtils.hh"
#include "AnalyticGreensFunctionCalculator.hh"
#include "SignalExport.hh"
#include "MEEPCylindricalGreensFunctionCalculator.hh"
#include "harness.hh"

namespace fs = std::filesystem;

static float from_bits(long b) { std::uint32_t u = (std::uint32_t)b; float f; std::memcpy(&f, &u, 4); return f; }
static std::string num(float f) {                  // [sign, mantissa, exponent]; exponent 999: not a number
  std::uint32_t u; std::memcpy(&u, &f, 4);
  long s = u >> 31, e = (u >> 23) & 255, m = u & 0x7fffff;
  if(e == 255) return "[0,0,999]";
  if(e == 0) e = 1; else m |= 0x800000;
  return "[" + std::to_string(s) + "," + std::to_string(m) + "," + std::to_string(e - 150) + "]";
}
static long fix(double v, double scale) { double x = v * scale; if(!(x > -1e9 && x < 1e9)) return 1000000000; return x == std::floor(x) ? (long)x : 999999999; }
static std::string one(long r) { return "{\"r\":" + std::to_string(r) + "}"; }
static float f64(Line& l) { return (float)l.num() / 64.0f; }

static std::string xexport(Line& l) {
  long n = l.num(), tp = l.num(), vp = l.num(), dflt = l.num();
  std::vector<float> t, v;
  for(long i = 0; i < n; i++) t.push_back(from_bits(l.num()));
  for(long i = 0; i < n; i++) v.push_back(from_bits(l.num()));
  if(dflt == 2) ExportSignal(t, v, "sig.csv");
  else if(dflt == 1) ExportSignal(t, v, "sig.csv", (int)tp);
  else ExportSignal(t, v, "sig.csv", (int)tp, (int)vp);
  std::ifstream f("sig.csv", std::ios::binary);
  std::vector<long> o;
  for(char c; f.get(c);) o.push_back((unsigned char)c);
  return "{\"o\":" + js(o) + "}";
}

static std::string region(Line& l) {
  bool set = l.num();
  float q[4]; for(auto& x : q) x = f64(l);
  try {
    CylinderRegion r;
    if(set) r.SetRegion(q[0], q[1], q[2], q[3]); else r = CylinderRegion(q[0], q[1], q[2], q[3]);
    return "{\"r\":1,\"e\":" + std::to_string(r.IsEmpty()) + ",\"g\":" + js(std::vector<long>{fix(r.GetRMin(), 64), fix(r.GetRMax(), 64), fix(r.GetZMin(), 64),
      fix(r.GetZMax(), 64), fix(r.GetRSize(), 64), fix(r.GetZSize(), 64)}) + "}";
  }
  catch(const std::exception&) { return one(0); }
}
static std::string geometry(Line& l) {
  float v[3]; for(auto& x : v) x = f64(l);
  long a = l.num(), b = l.num();
  long n = l.num();
  std::vector<std::array<float, 4>> qs(n);
  for(auto& q : qs) for(auto& x : q) x = f64(l);
  long m = l.num();
  std::vector<std::array<float, 2>> ps(m);
  for(auto& p : ps) for(auto& x : p) x = f64(l);
  try {
    CylinderGeometry g(v[0], v[1], v[2], [&](scalar_t r, scalar_t z) { return a * r + b * z; });
    std::vector<long> size{fix(g.GetRMin(), 64), fix(g.GetRMax(), 64), fix(g.GetZMin(), 64), fix(g.GetZMax(), 64), fix(g.GetRSize(), 64), fix(g.GetZSize(), 64)}, c, to, from, eps, chi;
    for(auto& q : qs) c.push_back(g.contains(CylinderRegion(q[0], q[1], q[2], q[3])));
    for(auto& p : ps) {
      meep::vec s = g.toMeepCoords(RZCoordVector{p[0], p[1]});
      to.push_back(fix(s.r(), 64)); to.push_back(fix(s.z(), 64));
      RZCoordVector e = g.toEisvogelCoords(meep::veccyl(p[0], p[1]));
      from.push_back(fix(e.r(), 64)); from.push_back(fix(e.z(), 64));
      eps.push_back(fix(g.eps(meep::veccyl(p[0], p[1])), 64));
      meep::material_function& mf = g;
      chi.push_back(fix(mf.chi1p1(meep::E_stuff, meep::veccyl(p[0], p[1])), 64));
    }
    return "{\"r\":1,\"g\":" + js(size) + ",\"cn\":" + js(c) + ",\"to\":" + js(to) + ",\"from\":" + js(from) + ",\"eps\":" + js(eps) + ",\"chi\":" + js(chi) + "}";
  }
  catch(const std::exception&) { return one(0); }
}

static std::string feeds(const meep::src_time& s, const std::vector<double>& ts) {
  std::vector<long> v;
  for(double t : ts) { auto c = s.current(t, 0.125); v.push_back(c.imag() == 0 ? fix(c.real(), 512) : 1000000000); }
  return js(v);
}
// feed current of the antenna itself, and of what has become of it after it was added to a simulation
static std::string antenna(Line& l) {
  float s = f64(l), e = f64(l), z = f64(l);
  std::vector<long> fs(l.num()); for(auto& f : fs) f = l.num();
  long p0 = l.num(), p1 = l.num(), res = l.num(); float vol[3]; for(auto& x : vol) x = f64(l);
  std::vector<double> ts(l.num()); for(auto& t : ts) t = l.num() / 64.0;
  InfEDipoleAntenna a(s, e, z, [=](scalar_t t) { return (scalar_t)(p0 + p1 * t); });
  for(long f : fs) a.SetScaleFactor(f / 8.0f);
  CylinderGeometry g(vol[0], vol[1], vol[2], [](scalar_t, scalar_t) { return (scalar_t)1; });
  meep::grid_volume gv = meep::volcyl(vol[0], vol[2] - vol[1], (double)res);
  meep::structure st(gv, g, meep::pml(1), meep::identity(), 0, 0.5);
  meep::fields f(&st);
  meep::stub().sources.clear();
  Antenna& base = a;
  base.AddToGeometry(f, g);
  std::string r = "{\"own\":" + feeds(a, ts) + ",\"n\":" + std::to_string(meep::stub().sources.size());
  auto& src = meep::stub().sources.at(0);
  bool undefined = true;
  { double d = src.src -> dipole(0.5).real(); std::uint64_t u; std::memcpy(&u, &d, 8); undefined = (u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull); }
  r += ",\"src\":" + feeds(*src.src, ts) + ",\"last\":" + std::to_string(fix(src.src -> last_time(), 64)) + ",\"int\":" + std::to_string(src.src -> is_integrated)
    + ",\"und\":" + std::to_string(undefined) + ",\"c\":" + (src.c == meep::Ez ? "\"Ez\"" : "\"\"") + ",\"at\":" + js(std::vector<long>{std::lround(src.r * res * 200), fix(src.z, 64)});
  return r + "}";
}
// what a whole simulation run does with the antenna: component, position, and the feed current per unit response, in relation to the resolution
static std::string whole_run(Line& l) {
  long res = l.num(), nz = l.num(), nr = l.num(), zmin = l.num(), zpos = l.num(); float s = f64(l), e = f64(l); long p0 = l.num(); std::vector<double> ts(l.num()); for(auto& t : ts) t = l.num() / 64.0;
  meep::stub() = meep::stub_config();
  meep::stub().boxes = {{0, nz, 0, nr, 0}};
  meep::stub().field = [](meep::component, long, long, long) { return 1.0; };
  float x = 1.0f / res;
  CylinderGeometry g(nr * x, zmin / 64.0f, zmin / 64.0f + nz * x, [](scalar_t, scalar_t) { return (scalar_t)1; });
  InfEDipoleAntenna a(s, e, zpos / 64.0f, [=](scalar_t) { return (scalar_t)p0; });
  fs::create_directory("glob");
  GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator calc(g, a, 1.0f);
  calc.Calculate("out", "loc", "glob", 0.5, res, 1.0, 1.0, 1, 50.0f, 0.0f, 1, 10, 2, 10, 10);
  std::string r = "{\"n\":" + std::to_string(meep::stub().sources.size());
  auto& src = meep::stub().sources.at(0);
  std::vector<long> v;
  for(double t : ts) { auto c = src.src -> current(t, 0.125); v.push_back(c.imag() == 0 ? std::lround(c.real() / res * 100000) : 1000000000); }
  r += ",\"src\":" + js(v) + ",\"c\":" + (src.c == meep::Ez ? "\"Ez\"" : "\"\"") + ",\"at\":" + js(std::vector<long>{std::lround(src.r * res * 200), fix(src.z, 64)}) + "}";
  for(auto* d : {"out", "loc", "glob"}) fs::remove_all(d);
  return r;
}

static std::string gamma_fun(Line& l) { long a = l.num(), z = l.num(); return "{\"v\":" + num(MathUtils::incomplete_gamma((scalar_t)a, z / 64.0f)) + "}"; }

static std::string dipole(Line& l) {
  float r0 = f64(l), r1 = f64(l), z0 = f64(l), z1 = f64(l), t1 = f64(l), ior = l.num() / 4.0f, tp = l.num() / 4.0f;
  long order = l.num(); float rmin = f64(l); double os = l.real(); long mx = l.num(), before = l.num(), grid = l.num();
  std::vector<std::array<long, 3>> pts(l.num());
  for(auto& p : pts) for(auto& x : p) x = l.num();
  long half = l.num();                            // rows between the grid points: (half index in r, in z), and the scale of their values
  std::vector<std::array<long, 3>> rows(half);
  for(auto& p : rows) for(auto& x : p) x = l.num();
  auto between = [&](CylindricalGreensFunction& g, const std::vector<long>& n) -> std::string {
    RZTCoordVector a = g.start_coords(), b = g.end_coords();
    SpatialSymmetry::Cylindrical<scalar_t>::chunk_t arr(RZTVector<std::size_t>(1), (scalar_t)0);
    g.fill_array<Interpolation::Kernel::Keys>(a, b, RZTVector<std::size_t>{(std::size_t)(2 * n[0] - 1), (std::size_t)(2 * n[1] - 1), (std::size_t)(2 * n[2] - 1)}, arr);
    std::string r = "[";
    for(auto& q : rows) {
      std::vector<long> v;
      for(std::size_t t = 0; t < (std::size_t)(2 * n[2] - 1); t++) for(int c = 0; c < 2; c++) {
        double x = std::ldexp((double)arr[RZTIndexVector{(std::size_t)q[0], (std::size_t)q[1], t}][c], (int)q[2]);
        v.push_back(std::fabs(x) < 1e9 ? std::lround(x) : 1000000000);
      }
      r += (r.size() > 1 ? "," : "") + js(v);
    }
    return r + "]";
  };
  if(before) { fs::create_directory("gf"); std::ofstream("gf/old") << "old"; if(before == 2) { fs::create_directory("gf/sub"); std::ofstream("gf/index.bin") << "xxxx"; } }
  GreensFunctionCalculator::Analytic::ElectricDipole("gf", "scratch", RZCoordVector{r0, z0}, RZCoordVector{r1, z1}, t1, ior, tp, (unsigned)order, rmin, (float)os, (std::size_t)mx);
  long old = fs::exists("gf/old") || fs::exists("gf/sub");
  std::string r;
  {
    CylindricalGreensFunction g("gf", 2);
    SpatialSymmetry::Cylindrical<scalar_t>::darr_t d("gf", 2);
    auto sh = d.GetShape();
    RZTCoordVector a = g.start_coords(), b = g.end_coords();
    std::vector<long> s, e, n;
    for(int i = 0; i < 3; i++) { s.push_back(fix(a[i], 64)); e.push_back(fix(b[i], 64)); n.push_back((long)sh[i]); }
    r = "{\"s\":" + js(s) + ",\"e\":" + js(e) + ",\"n\":" + js(n) + ",\"old\":" + std::to_string(old) + ",\"v\":[";
    bool first = true;
    for(auto& p : pts) {
      if(!first) r += ","; first = false;
      if(p[0] >= n[0] || p[1] >= n[1] || p[2] >= n[2]) { r += "[]"; continue; }
      auto v = d[RZTIndexVector{(std::size_t)p[0], (std::size_t)p[1], (std::size_t)p[2]}];
      r += "[" + num(v[0]) + "," + num(v[1]) + "]";
    }
    r += "],\"w\":[";
    if(grid) {                                    // the same points once more, through interpolation
      SpatialSymmetry::Cylindrical<scalar_t>::chunk_t arr(RZTVector<std::size_t>(1), (scalar_t)0);
      g.fill_array<Interpolation::Kernel::Keys>(a, b, RZTVector<std::size_t>{(std::size_t)n[0], (std::size_t)n[1], (std::size_t)n[2]}, arr);
      first = true;
      for(auto& p : pts) {
        if(!first) r += ","; first = false;
        if(p[0] >= n[0] || p[1] >= n[1] || p[2] >= n[2]) { r += "[]"; continue; }
        auto v = arr[RZTIndexVector{(std::size_t)p[0], (std::size_t)p[1], (std::size_t)p[2]}];
        r += "[" + num(v[0]) + "," + num(v[1]) + "]";
      }
    }
    r += "]";
    if(half) r += ",\"x\":" + between(g, n);
  }
  if(half) {                                      // once more in a single piece
    GreensFunctionCalculator::Analytic::ElectricDipole("gf", "scratch", RZCoordVector{r0, z0}, RZCoordVector{r1, z1}, t1, ior, tp, (unsigned)order, rmin, (float)os, 45);
    CylindricalGreensFunction g("gf", 2);
    SpatialSymmetry::Cylindrical<scalar_t>::darr_t d("gf", 2);
    auto sh = d.GetShape();
    r += ",\"y\":" + between(g, {(long)sh[0], (long)sh[1], (long)sh[2]});
  }
  else r += ",\"x\":[],\"y\":[]";
  r += "}";
  fs::remove_all("gf"); fs::remove_all("scratch");
  return r;
}

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    int k = 0;
    for(auto& o : h.ops) {
      Line l(o);
      std::string w = l.word(), r;
      if(w == "XExport") r = xexport(l);
      else if(w == "SRegion") r = region(l);
      else if(w == "SVolume") r = geometry(l);
      else if(w == "SAntenna") r = antenna(l);
      else if(w == "SRun") r = whole_run(l);
      else if(w == "AGamma") r = gamma_fun(l);
      else if(w == "ADipole") r = dipole(l);
      else { std::fprintf(stderr, "unknown operation\n"); _exit(97); }
      rep(k++, r);
    }
  });
}
