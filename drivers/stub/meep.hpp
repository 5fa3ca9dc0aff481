// A stand-in for the part of MEEP's interface that Eisvogel uses (MEEP itself is not installed here).  The "fields" it
// computes are prescribed by the test, the simulation volume is divided into simulation chunks as the test asks for, and
// the parallel jobs are processes that meet at a barrier in shared memory.
#pragma once
#include <atomic>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <limits>
#include <memory>
#include <unistd.h>
#include <vector>

namespace meep {

  enum component { Ex = 0, Ey, Er, Ep, Ez, Hx, Hy, Hr, Hp, Hz, Dielectric, NO_COMPONENT, Centered = Dielectric };
  enum direction { X = 0, Y, Z, R, P, NO_DIRECTION };
  enum ndim { D1, D2, D3, Dcyl };
  enum field_type { E_stuff, H_stuff, D_stuff, B_stuff };

  // ---- what the test prescribes
  struct stub_box { long z0, z1, r0, r1; int owner; };
  class src_time;
  struct stub_source { component c; double r, z; std::shared_ptr<src_time> src; };
  struct stub_shared { std::atomic<int> arrived, generation, dead; };
  struct stub_config {
    int rank = 0, jobs = 1;
    stub_shared* shared = nullptr;
    std::vector<stub_box> boxes;
    std::function<double(component, long z, long r, long step)> field;
    std::function<void(int)> delay;                  // called at the start (0) and after the n-th barrier
    int barriers = 0;
    std::vector<stub_source> sources;
    long probes = 0;                                  // points at which the permittivity was asked for
  };
  inline stub_config& stub() { static stub_config c; return c; }

  inline int my_rank() { return stub().rank; }
  inline int count_processors() { return stub().jobs; }
  inline bool am_master() { return my_rank() == 0; }
  inline bool am_really_master() { return am_master(); }
  inline bool with_mpi() { return stub().jobs > 1; }
  inline void master_printf(const char*, ...) { }
  inline void debug_printf(const char*, ...) { }
  [[noreturn]] inline void abort(const char*, ...) { std::abort(); }
  inline void all_wait() {
    stub_config& c = stub();
    c.barriers++;
    struct after { ~after() { stub_config& c = stub(); if(c.delay) c.delay(c.barriers); } } go;
    if(!c.shared) return;
    int g = c.shared -> generation.load();
    if(c.shared -> arrived.fetch_add(1) + 1 == c.jobs) { c.shared -> arrived = 0; c.shared -> generation.fetch_add(1); return; }
    while(c.shared -> generation.load() == g) { if(c.shared -> dead.load()) _exit(3); usleep(50); }
  }

  inline int number_of_directions(ndim d) { return (int)(d + 1 - 2 * (d == Dcyl)); }
  inline direction start_at_direction(ndim d) { return (direction)(((d == D1) || (d == Dcyl)) ? 2 : 0); }
  inline direction stop_at_direction(ndim d) { return (direction)(d + 1 + 2 * (d == D1)); }
#define LOOP_OVER_DIRECTIONS(dim, d) \
  for(meep::direction d = meep::start_at_direction(dim), loop_stop_directi = meep::stop_at_direction(dim); d < loop_stop_directi; d = (meep::direction)(d + 1))

  struct vec {
    ndim dim = Dcyl; double t[5] = {0, 0, 0, 0, 0};
    vec() = default;
    double r() const { return t[R]; }
    double z() const { return t[Z]; }
    double in_direction(direction d) const { return t[d]; }
    vec operator+(const vec& o) const { vec v = *this; for(int i = 0; i < 5; i++) v.t[i] += o.t[i]; return v; }
    vec operator-(const vec& o) const { vec v = *this; for(int i = 0; i < 5; i++) v.t[i] -= o.t[i]; return v; }
    vec operator*(double s) const { vec v = *this; for(double& x : v.t) x *= s; return v; }
  };
  inline vec veccyl(double r, double z) { vec v; v.t[R] = r; v.t[Z] = z; return v; }

  struct ivec {
    ndim dim = Dcyl; int t[5] = {0, 0, 0, 0, 0};
    ivec() = default;
    int r() const { return t[R]; }
    int z() const { return t[Z]; }
    int in_direction(direction d) const { return t[d]; }
    void set_direction(direction d, int v) { t[d] = v; }
    ivec operator+(const ivec& o) const { ivec v = *this; for(int i = 0; i < 5; i++) v.t[i] += o.t[i]; return v; }
    ivec operator-(const ivec& o) const { ivec v = *this; for(int i = 0; i < 5; i++) v.t[i] -= o.t[i]; return v; }
    vec operator*(double s) const { vec v; for(int i = 0; i < 5; i++) v.t[i] = t[i] * s; return v; }
    bool operator==(const ivec& o) const { for(int i = 0; i < 5; i++) if(t[i] != o.t[i]) return false; return true; }
  };
  inline ivec iveccyl(int r, int z) { ivec v; v.t[R] = r; v.t[Z] = z; return v; }

  struct volume { vec min_corner, max_corner; vec get_min_corner() const { return min_corner; } vec get_max_corner() const { return max_corner; } };

  struct grid_volume {
    ndim dim = Dcyl; double a = 1, inva = 1; long n_z = 0, n_r = 0, z0 = 0, r0 = 0;
    int nz() const { return (int)n_z; }
    int nr() const { return (int)n_r; }
  };
  inline grid_volume volcyl(double rsize, double zsize, double a) {
    grid_volume g; g.a = a; g.inva = 1.0 / a; g.n_r = (long)(rsize * a + 0.5); g.n_z = (long)(zsize * a + 0.5);
    return g;
  }

  class material_function {
  public:
    virtual ~material_function() { }
    virtual double eps(const vec&) { return 1.0; }
    virtual double chi1p1(field_type, const vec& r) { return eps(r); }
  };

  class src_time {
  public:
    bool is_integrated = true;
    virtual ~src_time() { }
    virtual std::complex<double> dipole(double) const { return 0; }
    virtual std::complex<double> current(double time, double dt) const { return ((dipole(time + dt) - dipole(time)) / dt); }
    virtual double last_time() const { return 0.0; }
    virtual src_time* clone() const { return new src_time(*this); }
  };

  struct boundary_region { double width = 0; };
  inline boundary_region pml(double w) { return {w}; }

  struct symmetry {
    ivec transform(const ivec& i, int) const { return i; }
    vec transform(const vec& v, int) const { return v; }
  };
  inline symmetry identity() { return {}; }

  struct structure {
    grid_volume gv; double courant;
    structure(const grid_volume& gv, material_function& m, const boundary_region&, const symmetry&, int, double courant) : gv(gv), courant(courant) {
      for(long z = 0; z < gv.n_z; z++) for(long r = 0; r < gv.n_r; r++) { m.chi1p1(E_stuff, veccyl((r + 0.5) * gv.inva, (z + 0.5) * gv.inva)); stub().probes++; }
    }
  };

  struct fields_chunk { grid_volume gv; int index = 0; const long* step = nullptr; };

  typedef void (*field_chunkloop)(fields_chunk* fc, int ichunk, component cgrid, ivec is, ivec ie, vec s0, vec s1, vec e0, vec e1, double dV0,
                                  double dV1, ivec shift, std::complex<double> shift_phase, const symmetry& S, int sn, void* chunkloop_data);

  struct fields {
    double a, dt; long nsteps = 0; grid_volume gv;
    explicit fields(structure* s) : a(s -> gv.a), dt(s -> courant / s -> gv.a), gv(s -> gv) { }
    double time() const { return nsteps * dt; }
    float round_time() const { return (float)time(); }
    void step() { nsteps++; }
    volume total_volume() const { return {veccyl(0, 0), veccyl(gv.n_r * gv.inva, gv.n_z * gv.inva)}; }
    void add_point_source(component c, const src_time& s, const vec& p) { stub().sources.push_back({c, p.r(), p.z(), std::shared_ptr<src_time>(s.clone())}); }
    void loop_in_chunks(field_chunkloop f, void* data, const volume&, component cgrid = Centered) {
      auto& boxes = stub().boxes;
      symmetry S;
      for(std::size_t i = 0; i < boxes.size(); i++) {
        const stub_box& b = boxes[i];
        if(b.owner != my_rank()) continue;
        fields_chunk fc;
        fc.gv = gv; fc.gv.z0 = b.z0; fc.gv.r0 = b.r0; fc.gv.n_z = b.z1 - b.z0; fc.gv.n_r = b.r1 - b.r0;
        fc.index = (int)i; fc.step = &nsteps;
        f(&fc, (int)i, cgrid, iveccyl((int)(2 * b.r0 + 1), (int)(2 * b.z0 + 1)), iveccyl((int)(2 * b.r1 - 1), (int)(2 * b.z1 - 1)),
          vec(), vec(), vec(), vec(), 1.0, 1.0, ivec(), 1.0, S, 0, data);
      }
    }
  };

  struct stub_walk {
    const grid_volume& gv; ivec is, ie; int z, r;
    stub_walk(const grid_volume& gv, const ivec& is, const ivec& ie) : gv(gv), is(is), ie(ie), z(is.z()), r(is.r()) { if(r > ie.r()) z = ie.z() + 2; }
    bool ok() const { return z <= ie.z(); }
    void next() { r += 2; if(r > ie.r()) { r = is.r(); z += 2; } }
    std::ptrdiff_t idx() const { return ((z - 1) / 2 - gv.z0) * gv.n_r + ((r - 1) / 2 - gv.r0); }
    ivec iloc() const { return iveccyl(r, z); }
    vec loc() const { return veccyl(r * 0.5 * gv.inva, z * 0.5 * gv.inva); }
  };
#define LOOP_OVER_IVECS(gv, is, ie, idx) \
  for(meep::stub_walk stub_it(gv, is, ie); stub_it.ok(); stub_it.next()) if([[maybe_unused]] std::ptrdiff_t idx = stub_it.idx(); true)
#define IVEC_LOOP_ILOC(gv, iloc_) [[maybe_unused]] meep::ivec iloc_ = stub_it.iloc()
#define IVEC_LOOP_LOC(gv, loc_) [[maybe_unused]] meep::vec loc_ = stub_it.loc()

  struct chunkloop_field_components {
    std::vector<component> parent_components;
    std::vector<std::complex<double>> values;
    fields_chunk* fc; std::complex<double> phase;
    chunkloop_field_components(fields_chunk* fc, component, std::complex<double> phase, const symmetry&, int, int n, const component* c)
      : parent_components(c, c + n), values(n), fc(fc), phase(phase) { }
    void update_values(std::ptrdiff_t idx) {
      long z = idx / fc -> gv.n_r + fc -> gv.z0, r = idx % fc -> gv.n_r + fc -> gv.r0;
      for(std::size_t i = 0; i < values.size(); i++) values[i] = stub().field(parent_components[i], z, r, *fc -> step) * phase;
    }
  };

  struct initialize { initialize(int&, char**&) { } };
}
