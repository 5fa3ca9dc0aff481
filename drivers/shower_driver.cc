// Conformance driver for the generation of showers.  See harness.hh for the protocol.
#include <iostream>
#include <span>
#include <execution>
#include <cstring>
#include <cmath>
#include <memory>
#include "Common.hh"
#include "NDVecArray.hh"
#include "Current.hh"
#include "harness.hh"
#include "shower_1D/shower_1D.cpp"
#include "shower_creator/shower_creator.cpp"
#include "environment/ice_profile.cpp"

static long rnd(double v) { return v > -1e9 && v < 1e9 ? std::llround(v) : 1000000000; }
static const double EN = 1e15, GR = 917.0 / 128.0;      // units of energies and of grammages (kg / m^2)

// number of profiles, then per profile: primary type, energy, number of points, grammages, charges
static std::string library(Line& l, std::unique_ptr<showers::ShowerCreator>& lib) {
  long n = l.num();
  {
    std::ofstream f("showers.bin", std::ios::binary | std::ios::trunc);
    for(long i = 0; i < n; i++) {
      std::uint32_t had = (std::uint32_t)l.num(); double e = l.num() * EN; std::uint32_t m = (std::uint32_t)l.num();
      f.write((const char*)&m, 4); f.write((const char*)&had, 4); f.write((const char*)&e, 8);
      for(std::uint32_t j = 0; j < m; j++) { double g = l.num() * GR; f.write((const char*)&g, 8); }
      for(std::uint32_t j = 0; j < m; j++) { double q = l.num(); f.write((const char*)&q, 8); }
    }
  }
  lib = std::make_unique<showers::ShowerCreator>("showers.bin");
  std::filesystem::remove("showers.bin");
  return "{\"r\":1}";
}

// primary type, energy, number of the shower (-1: any), start (eighths of a metre), legs of zenith and azimuth, eighths of a metre per step
static std::string shower(Line& l, std::unique_ptr<showers::ShowerCreator>& lib) {
  long had = l.num(), en = l.num(), pick = l.num();
  std::array<float, 3> pos; for(auto& x : pos) x = (float)l.num() / 8.0f;
  double sz = l.num(), cz = l.num(), sa = l.num(), ca = l.num();
  long k = l.num(), prior = l.num();
  double dt = k / 8.0 / constants::c;
  showers::Shower1D s = pick < 0 ? lib -> create_shower(pos, en * EN, std::atan2(sz, cz), std::atan2(sa, ca), (int)had)
                                 : lib -> create_shower(pos, en * EN, std::atan2(sz, cz), std::atan2(sa, ca), (int)had, (int)pick);
  std::vector<double> t, x, y, z, ce;
  s.get_shower(dt, &t, &x, &y, &z, &ce);
  std::vector<LineCurrentSegment> out;
  for(long i = 0; i < prior; i++) out.emplace_back(XYZCoordVector{(scalar_t)i, (scalar_t)1, (scalar_t)2}, XYZCoordVector{(scalar_t)4, (scalar_t)5, (scalar_t)6}, (scalar_t)7, (scalar_t)8, (scalar_t)9);
  s.fill_tracks(dt, out);
  long kept = (long)out.size() >= prior;
  for(long i = 0; i < prior && kept; i++) kept = out[i].start_pos[0] == i && out[i].end_pos[2] == 6 && out[i].start_time == 7 && out[i].charge == 9;
  std::vector<long> a, b, c, d;
  long linked = 1;
  const double m = 1000.0, mc = 1000.0 * constants::c;
  long n = (long)t.size();
  long same = (long)x.size() == n && (long)y.size() == n && (long)z.size() == n && (long)ce.size() == n;
  for(long i = 0; i < n && same; i++) { a.insert(a.end(), {rnd(x[i] * m), rnd(y[i] * m), rnd(z[i] * m), rnd(t[i] * mc)}); b.push_back(rnd(ce[i] * m)); }
  for(std::size_t i = prior; i < out.size(); i++) {
    const LineCurrentSegment& g = out[i];
    if(i > (std::size_t)prior) linked = linked && g.start_pos == out[i - 1].end_pos && g.start_time == out[i - 1].end_time;
    c.insert(c.end(), {rnd(g.start_pos[0] * mc), rnd(g.start_pos[1] * mc), rnd(g.start_pos[2] * mc), rnd(g.start_time * mc)});
    d.push_back(rnd(g.charge * m));
    if(i + 1 == out.size()) c.insert(c.end(), {rnd(g.end_pos[0] * mc), rnd(g.end_pos[1] * mc), rnd(g.end_pos[2] * mc), rnd(g.end_time * mc)});
  }
  return "{\"a\":" + js(a) + ",\"b\":" + js(b) + ",\"c\":" + js(c) + ",\"d\":" + js(d) + ",\"ok\":" + std::to_string(kept + 2 * linked + 4 * same) + "}";
}

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    std::unique_ptr<showers::ShowerCreator> lib;
    int k = 0;
    for(auto& o : h.ops) {
      Line l(o);
      std::string w = l.word();
      if(w == "CLib") rep(k++, library(l, lib));
      else if(w == "CShower") rep(k++, shower(l, lib));
      else { std::fprintf(stderr, "unknown operation\n"); _exit(97); }
    }
  });
}
