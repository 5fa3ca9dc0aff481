// Conformance driver for the production of Green's functions: runs the real pipeline (simulation callbacks, storing, merging,
// rechunking) with the stand-in for MEEP in stub/meep.hpp.  Parallel jobs are processes.  See harness.hh for the protocol.
#include <iostream>
#include <span>
#include <execution>
#include <format>
#include <cstring>
#include <cmath>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <arpa/inet.h>
#include "Common.hh"
#include "Serialization.hh"
#include "NDVecArray.hh"
#include "NDVecArrayOperations.hh"
#include "DistributedNDVecArray.hh"
#include "Symmetry.hh"
#include "GreensFunction.hh"
#include "MEEPCylindricalGreensFunctionCalculator.hh"
#include "harness.hh"

namespace fs = std::filesystem;
using darr_t = SpatialSymmetry::Cylindrical<scalar_t>::darr_t;
using chunk_t = darr_t::chunk_t;
using ind_t = Vector<std::size_t, 3>;

static long fix(double v, double scale) { double x = v * scale; if(!(x > -1e9 && x < 1e9)) return 1000000000; return std::llround(x); }
static long enc(scalar_t a, scalar_t b) {          // two integers in [-499, 499]; anything else is -1
  auto ok = [](float x) { std::uint32_t u; std::memcpy(&u, &x, 4); u &= 0x7fffffffu; return u == 0 || (u >= 0x3f800000u && u < 0x43f98000u && x == (float)(long)x); };
  if(!ok(a) || !ok(b)) return -1;
  return ((long)a + 500) + 1000 * ((long)b + 500);
}
template <class V> static std::vector<long> vec3(const V& v) { std::vector<long> r; for(std::size_t i = 0; i < 3; i++) r.push_back((long)v[i]); return r; }

struct Formula {
  long co[2][5], m, arr, bs, be, gain;
  long at(int c, long z, long r, long s) const {
    if(s < arr * (z + r)) return 0;
    long v = co[c][0] * z + co[c][1] * r + co[c][2] * s + co[c][3] * z * r * s + co[c][4];
    v = ((v % m) + m) % m - m / 2;
    return s >= bs && s < be ? v * gain : v;
  }
};

static std::string dump(const fs::path& dir) {
  std::vector<ChunkMetadata<3>> metas;
  {
    std::fstream f(dir / "index.bin", std::ios::in | std::ios::binary);
    if(!f) return "[]";
    metas = stor::Traits<std::vector<ChunkMetadata<3>>>::deserialize(f);
  }
  std::string out = "[";
  for(auto& m : metas) {
    if(out.size() > 1) out += ",";
    bool null = m.chunk_type == ChunkType::all_null;
    chunk_t c(m.shape + 2 * m.overlap);
    if(null) c = (scalar_t)0.0;
    else {
      stor::NDVecArrayStreamer<NDVecArray, scalar_t, 3, 2> str;
      std::fstream f(dir / (m.filepath.string() + ".chunk"), std::ios::in | std::ios::binary);
      if(f) str.deserialize(f, c); else c = (scalar_t)-1000;
    }
    std::vector<long> d;
    c.loop_over_elements([&](const chunk_t::view_t& e) { d.push_back(enc(e[0], e[1])); });
    out += "{\"s\":" + js(vec3(m.start_ind)) + ",\"e\":" + js(vec3(m.end_ind)) + ",\"ov\":" + std::to_string(m.overlap) + ",\"null\":" + (null ? "1" : "0")
      + ",\"d\":" + js(d) + "}";
  }
  return out + "]";
}

static std::string gen(Line& l) {
  long id = l.num(), jobs = l.num(), pre = l.num(), stale = l.num(), other = l.num();
  double res = l.real(), zmin = l.real(), rmax = l.real(), zmax = l.real();
  auto req = std::vector<double>{l.real(), l.real(), l.real(), l.real()};      // r0 r1 z0 z1
  double tend = l.real(), timestep = l.real(), courant = l.real();
  long ds = l.num(); double dyn = l.real(), amin = l.real();
  long ov = l.num(), csh = l.num(), cache = l.num(), ct = l.num(), cl = l.num();
  Formula f;
  for(auto& c : f.co) for(auto& x : c) x = l.num();
  f.m = l.num(); f.arr = l.num(); f.bs = l.num(); f.be = l.num(); f.gain = l.num();
  std::vector<meep::stub_box> boxes(l.num());
  for(auto& b : boxes) { b.z0 = l.num(); b.z1 = l.num(); b.r0 = l.num(); b.r1 = l.num(); b.owner = (int)l.num(); }
  std::vector<long> delays = l.nums(jobs * 6);                                 // milliseconds, by job: at the start and after each barrier

  fs::path base = fs::current_path() / ("gen" + std::to_string(id));
  fs::create_directories(base / "glob");
  fs::path out = base / "out", loc = base / "loc", glob = base / "glob";
  fs::path shm;
  if(other) {
    struct stat a, b;
    bool in_shm = stat(".", &a) == 0 && stat("/dev/shm", &b) == 0 && a.st_dev == b.st_dev;
    std::string t = in_shm ? "/tmp/eisvogel_check.XXXXXX" : "/dev/shm/eisvogel_check.XXXXXX";
    if(!mkdtemp(t.data())) _exit(97);
    shm = t; loc = shm / "loc";
  }
  if(pre >= 1) fs::create_directory(out);
  if(pre == 2) { std::ofstream(out / "keep") << "me"; }
  if(stale) { fs::create_directories(glob / "eisvogel.global" / "calc_job_0"); std::ofstream(glob / "eisvogel.global" / "calc_job_0" / "index.bin") << "old"; }

  auto* sh = (meep::stub_shared*)mmap(nullptr, sizeof(meep::stub_shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto* src = (long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(sh == MAP_FAILED || src == MAP_FAILED) _exit(97);
  new (sh) meep::stub_shared();
  std::vector<pid_t> pids;
  for(int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if(p < 0) _exit(97);
    if(p > 0) { pids.push_back(p); continue; }
    meep::stub_config& c = meep::stub();
    c.rank = j; c.jobs = (int)jobs; c.shared = sh; c.boxes = boxes;
    c.field = [&](meep::component k, long z, long r, long s) -> double { return k == meep::Er ? f.at(0, z, r, s) : k == meep::Ez ? f.at(1, z, r, s) : 777; };
    c.delay = [&](int n) { if(n < 6) usleep(1000 * delays[j * 6 + n]); };
    c.delay(0);
    int rc = 0;
    try {
      CylinderGeometry geom((scalar_t)rmax, (scalar_t)zmin, (scalar_t)zmax, [](scalar_t, scalar_t) { return (scalar_t)1; });
      InfEDipoleAntenna ant(0, 1, (scalar_t)(zmin + 0.25 * (zmax - zmin)), [](scalar_t) { return (scalar_t)1; });
      CylinderRegion to_store((scalar_t)req[0], (scalar_t)req[1], (scalar_t)req[2], (scalar_t)req[3]);
      GreensFunctionCalculator::MEEP::CylindricalGreensFunctionCalculator calc(geom, to_store, ant, (scalar_t)tend);
      calc.Calculate(out, loc, glob, courant, res, timestep, 1.0, ds, (scalar_t)dyn, (scalar_t)amin, ov, csh, cache, ct, cl);
      src[4 * j] = (long)c.sources.size();
    }
    catch(const std::exception& e) { std::fprintf(stderr, "job %d: %s\n", j, e.what()); rc = 2; }
    if(rc) sh -> dead = 1;
    _exit(rc);
  }
  int threw = 0, died = 0, left_out = 0;
  for(std::size_t k = 0; k < pids.size(); k++) {
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    (void)p;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    sh -> dead = 1;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 2) threw++;
    else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) left_out++;
    else died++;
  }
  std::string r = "{\"r\":" + std::to_string(died ? -1 : threw ? 0 : 1);
  long left = 0, keep = 0;
  for(auto& d : {loc, glob}) if(fs::exists(d)) for(auto& e : fs::directory_iterator(d)) { (void)e; left++; }
  if(fs::exists(out)) for(auto& e : fs::directory_iterator(out)) { (void)e; keep++; }
  r += ",\"left\":" + std::to_string(left) + ",\"files\":" + std::to_string(keep);
  if(!died && !threw) {
    r += ",\"ch\":" + dump(out);
    { darr_t d(out); r += ",\"sh\":" + js(vec3(d.GetShape())); }
    CylindricalGreensFunction g(out, 1);
    std::vector<long> s, e;
    RZTCoordVector a = g.start_coords(), b = g.end_coords();
    for(int i = 0; i < 3; i++) { s.push_back(fix(a[i], 4096)); e.push_back(fix(b[i], 4096)); }
    r += ",\"s\":" + js(s) + ",\"e\":" + js(e);
  }
  if(!shm.empty()) fs::remove_all(shm);
  fs::remove_all(base);
  return r + "}";
}

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    int k = 0;
    for(auto& o : h.ops) {
      Line l(o);
      std::string w = l.word();
      if(w != "MGen") { std::fprintf(stderr, "unknown operation\n"); _exit(97); }
      rep(k++, gen(l));
    }
  });
}
