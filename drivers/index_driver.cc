// Conformance driver for the containers behind the chunk library: Cache, MemoryPool, RStarTree.
#include <iostream>
#include <cstring>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <functional>
#include "Vector.hh"
#include "Cache.hh"
#include "RStarTree.hh"
#include "harness.hh"

struct Item {                       // a payload that is not trivial
  long v;
  std::string text;
  Item() : v(0), text("") { }
  explicit Item(long x) : v(x), text(std::to_string(x)) { }
  bool ok() const { return text == std::to_string(v) || (v == 0 && text.empty()); }
  long get() const { return ok() ? v : -7; }
  void set(long x) { v = x; text = std::to_string(x); }
};

static std::string val(long v) { return "{\"v\":" + std::to_string(v) + "}"; }
static std::string res(long v) { return "{\"r\":" + std::to_string(v) + "}"; }

struct TreeBase {
  virtual ~TreeBase() = default;
  virtual std::string op(const std::string& o, Line& l) = 0;
};

template <std::size_t D> struct Tree : TreeBase {
  using vec_t = Vector<std::size_t, D>;
  RStarTree<std::size_t, D, Item> t;
  explicit Tree(std::size_t init) : t(init) { }
  static vec_t rd(Line& l) { vec_t v; for(std::size_t i = 0; i < D; i++) v[i] = (std::size_t)l.num(); return v; }
  static std::string vjs(const vec_t& v) { std::vector<long> r; for(std::size_t i = 0; i < D; i++) r.push_back((long)v[i]); return js(r); }
  static std::string coords(const std::string& line) { return line.substr(line.find(':') + 2, line.rfind(']') + 1 - line.find(':') - 2); }
  std::string op(const std::string& o, Line& l) override {
    if(o == "TIns") { vec_t s = rd(l), e = rd(l); long v = l.num(); return res(t.InsertElement(Item(v), s, e).get()); }
    if(o == "TInsN") { long n = l.num(); std::vector<long> r; for(long i = 0; i < n; i++) { vec_t s = rd(l), e = rd(l); long v = l.num(); r.push_back(t.InsertElement(Item(v), s, e).get()); } return "{\"r\":" + js(r) + "}"; }
    if(o == "TUpd") { vec_t x = rd(l), s = rd(l), e = rd(l); t.UpdateBoundingBox(x, s, e); return res(1); }
    if(o == "TPt") { Item* p = t.Search(rd(l)); return res(p ? p -> get() : -1); }
    if(o == "TSet") { vec_t x = rd(l); long v = l.num(); Item* p = t.Search(x); if(!p) return res(-1); long old = p -> get(); p -> set(v); return res(old); }
    if(o == "TBox") { vec_t s = rd(l), e = rd(l); std::vector<long> r; for(const Item& i : t.Search(s, e)) r.push_back(i.get()); return "{\"r\":" + js(r) + "}"; }
    if(o == "TAll") { std::vector<Item> a; t.GetAllEntries(a); std::vector<long> r; for(auto& i : a) r.push_back(i.get()); return "{\"r\":" + js(r) + "}"; }
    if(o == "TApply") { long d = l.num(); std::vector<long> r; t.Apply([&](Item& i) { r.push_back(i.get()); i.set(i.v + d); }); return "{\"r\":" + js(r) + "}"; }
    if(o == "TBB") { auto b = t.GetBoundingBox(); return "{\"s\":" + vjs(b.start_coords) + ",\"e\":" + vjs(b.end_coords) + "}"; }
    if(o == "TEmpty") return res(t.Empty() ? 1 : 0);
    if(o == "TRebuild") { t.RebuildSTR(); return res(1); }
    if(o == "TClear") { t.Clear(); return res(1); }
    if(o == "TDump") {
      t.DumpJSONTreeStructure("tree.json");
      std::ifstream f("tree.json");
      std::string line, s = "[", cs, ce; bool entry = false, first = true; 
      auto put = [&](long lv) { s += std::string(first ? "" : ",") + "{\"lv\":" + std::to_string(lv) + ",\"s\":" + cs + ",\"e\":" + ce + "}"; first = false; };
      while(std::getline(f, line)) {
        if(line.find("\"type\"") != std::string::npos) entry = line.find("Entry") != std::string::npos;
        else if(line.find("\"start_coords\"") != std::string::npos) cs = coords(line);
        else if(line.find("\"end_coords\"") != std::string::npos) { ce = coords(line); if(entry) put(-1); }
        else if(line.find("\"level\"") != std::string::npos) put(std::stol(line.substr(line.find(':') + 1)));
      }
      return "{\"t\":" + s + "]}";
    }
    std::fprintf(stderr, "unknown operation %s\n", o.c_str());
    _exit(97);
  }
};

struct Run {
  std::unique_ptr<Cache<long, Item>> c;
  std::unique_ptr<MemoryPool<Item>> p;
  std::unique_ptr<TreeBase> t;
  std::map<long, std::size_t> slot;
  
  std::string op(const std::string& text) {
    Line l(text);
    std::string o = l.word();
    if(o == "CNew") { long d = l.num(); c = l.num() ? std::make_unique<Cache<long, Item>>(d) : std::make_unique<Cache<long, Item>>(d, 0L); return res(1); }
    if(o == "CIns") { long k = l.num(), v = l.num(); c -> insert_no_overwrite(k, Item(v)); return res(1); }
    if(o == "CInsRef") { long k = l.num(), v = l.num(); c -> insert_ref_no_overwrite(k).set(v); return res(1); }
    if(o == "CGet") return val(c -> get(l.num()).get());
    if(o == "CSet") { long k = l.num(), v = l.num(); c -> get(k).set(v); return res(1); }
    if(o == "CEvict") return val(c -> evict(l.num()).get());
    if(o == "COld") return val(c -> evict_oldest_from_full_cache().get());
    if(o == "CHas") return val(c -> contains(l.num()) ? 1 : 0);
    if(o == "CFree") return val(c -> has_free_slot() ? 1 : 0);
    if(o == "CAll") return "{\"v\":" + js(c -> contained_elements()) + "}";
    if(o == "CO2N") { std::vector<long> r; c -> loop_over_elements_old_to_new([&](Item& i) { r.push_back(i.get()); }); return "{\"v\":" + js(r) + "}"; }
    if(o == "CN2O") { std::vector<long> r; c -> loop_over_elements_new_to_old([&](Item& i) { r.push_back(i.get()); }); return "{\"v\":" + js(r) + "}"; }

    if(o == "PNew") { p = std::make_unique<MemoryPool<Item>>(l.num()); return res(1); }
    if(o == "PAlloc") { long h = l.num(), v = l.num(); std::size_t s = p -> get_empty_slot_front(); slot[h] = s; (*p)[s].set(v); return "{\"s\":" + std::to_string(s > 1000000 ? -1 : (long)s) + "}"; }
    if(o == "PFree") { std::size_t s = slot.at(l.num()); p -> free_slot(s); return "{\"r\":1,\"s\":" + std::to_string(s) + "}"; }
    if(o == "PGet") { std::size_t s = slot.at(l.num()); const MemoryPool<Item>& q = *p; return "{\"v\":" + std::to_string(q[s].get()) + ",\"s\":" + std::to_string(s) + "}"; }
    if(o == "PSet") { std::size_t s = slot.at(l.num()); (*p)[s].set(l.num()); return "{\"r\":1,\"s\":" + std::to_string(s) + "}"; }
    if(o == "PSeat") { std::size_t s = slot.at(l.num()); return "{\"v\":" + std::to_string(p -> get_slot((*p)[s])) + ",\"s\":" + std::to_string(s) + "}"; }
    if(o == "PList") { std::vector<Item> a; p -> fill_elements(a); std::vector<long> r; for(auto& i : a) r.push_back(i.get()); return "{\"v\":" + js(r) + "}"; }
    if(o == "PApply") { std::vector<long> r; p -> apply([&](Item& i) { r.push_back(i.get()); }); return "{\"v\":" + js(r) + "}"; }
    if(o == "PReset") { p -> reset(); return res(1); }
    if(o == "PGrow") { p -> grow(); return res(1); }

    if(o == "TNew") {
      long d = l.num(), init = l.num();
      if(d == 1) t = std::make_unique<Tree<1>>(init);
      else if(d == 2) t = std::make_unique<Tree<2>>(init);
      else t = std::make_unique<Tree<3>>(init);
      return res(1);
    }
    return t -> op(o, l);
  }
};

int main(int argc, char* argv[]) {
  return harness_main(argc, argv, [](const History& h, Reporter& rep) {
    Run run;
    int k = 0;
    for(auto& o : h.ops) {
      std::string r;
      try { r = run.op(o); }
      catch(std::exception& e) { r = "{\"r\":0}"; }
      rep(k++, r);
    }
  });
}
