// C18: seeded random functions, with the generator under the simulator's control.
#include "work.hpp"
#include <memory>
using namespace w;
PROPERTY("C18","one run: a history of random data, value, permutation, combination and selection calls, seeded (each repeated after disturbing clock, heap and the C library generator) and over a generator whose values the simulator chooses, "
               "0, the largest below 1 and exactly 1 included, and which may throw; allocations fail; outputs are exact-size buffers, inputs also single-pass iterators; "
               "non-trivial: extreme generator values, a throwing generator or a failed allocation; distinct: different sequence of operations, faults and outcomes");
typedef std::vector<int> V;
struct Thrown {};
struct SimRng
{
   uint32_t style; uint32_t throw_at, calls; bool threw; double lo, hi; sim::Rng r;
   std::vector<double> given;
   SimRng(uint32_t st, uint64_t seed) : style(st), throw_at(0), calls(0), threw(false), lo(0), hi(1), r(seed) {}
   double min() const { return lo; }
   double max() const { return hi; }
   double operator()()
   {
      if (++calls == throw_at) { threw = true; sim::fault_fired("generator throws"); throw Thrown(); }
      sim::NoFault nf;
      double v = double(r.next() >> 11) / 9007199254740992.0;
      const uint32_t pick = r.below(6);
      switch (style)
      {
         case 1 : v = 0.0; break;
         case 2 : v = 1.0 - 1.0 / 9007199254740992.0; break;
         case 3 : v = 1.0; break;
         case 4 : v = pick == 0 ? 0.0 : pick == 1 ? 1.0 : pick == 2 ? 1.0 - 1.0 / 9007199254740992.0 : pick == 3 ? 0.5 : v; break;
         case 5 : v = double(r.below(13)) / 12.0; break;      // exactly on the borders
         default: break;
      }
      if (v == 0.0 || v > 1.0 - 1e-15) { sim::fault_fired(v == 0.0 ? "generator returns its minimum" : v == 1.0 ? "generator returns its maximum" : "generator returns the value below its maximum"); sim::mark_nontrivial(); }
      return v;
   }
};
// a single-pass iterator that notices misuse
struct OncePos { size_t at; std::vector<char> gone; };
class Once
{
public:
   typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef const int* pointer; typedef const int& reference;
   Once(const V* v, size_t i) : v_(v), i_(i) {}
   const int& operator*() const { if (i_ >= v_->size()) violate("input-overrun","read behind the end of the input"); return (*v_)[i_]; }
   Once& operator++() { if (i_ >= v_->size()) violate("input-overrun","advanced past the end of the input"); ++i_; return *this; }
   Once operator++(int) { Once o(*this); ++*this; return o; }
   bool operator==(const Once& o) const { return i_ == o.i_; }
   bool operator!=(const Once& o) const { return i_ != o.i_; }
private:
   const V* v_; size_t i_;
};
// output into a buffer of exact size
struct Out
{
   typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
   V* v; size_t limit; uint32_t throw_at;
   Out& operator*() { return *this; }
   Out& operator++() { return *this; }
   Out operator++(int) { return *this; }
   Out& operator=(int x)
   {
      sim::NoFault nf;
      if (v->size() >= limit) violate("too-many-outputs","more than %zu values were written",limit);
      v->push_back(x);
      return *this;
   }
};
static V iota(size_t n) { V v; for (size_t i = 0; i < n; ++i) v.push_back(int(i) * 7 + 3); return v; }
static bool distinct_from(const V& got, const V& src)
{
   V a(got), s(src); std::sort(a.begin(),a.end()); std::sort(s.begin(),s.end());
   return std::adjacent_find(a.begin(),a.end()) == a.end() && std::includes(s.begin(),s.end(),a.begin(),a.end());
}
static void disturb()
{
   sim::NoFault nf;
   sim::alloc_pattern(static_cast<unsigned char>(draw(256,"fill")));
   sim::clock_advance(draw(100000,"elapsed"));
   for (uint32_t i = draw(3,"rand-calls"); i > 0; --i) ::rand();
}
static size_t draw_seed() { switch (draw(5,"seed-kind")) { case 0 : return strtk::magic_seed; case 1 : return draw(5,"seed"); case 2 : return 0xFFFFFFFFu; case 3 : return size_t(sim::u64("seed64")); default: return 0; } }
static void data()
{
   sim::Op op("generate_random_data");
   const size_t n = sim::size_upto(200,"length"), skip = draw(5,"pregen"), off = draw(4,"alignment"); const unsigned seed = unsigned(draw_seed());
   std::string got[2];
   for (int k = 0; k < 2; ++k)
   {
      unsigned char* base = static_cast<unsigned char*>(malloc(off + n)); std::memset(base,0xEE,off + n);
      disturb();
      { sim::AllocWindow aw(0); strtk::generate_random_data(base + off,n,unsigned(skip),seed); }
      got[k].assign(reinterpret_cast<char*>(base) + off,n);
      for (size_t i = 0; i < off; ++i) if (base[i] != 0xEE) violate("outside-output","byte %zu before the output of %zu bytes was written",off - i,n);
      free(base);
   }
   logf("%zu bytes, pregen %zu, seed %u: %016llx",n,skip,seed,(unsigned long long)sim::hash(got[0]));
   if (got[0] != got[1]) violate("not-repeatable","%zu bytes with seed %u: %s",n,seed,w::diff(got[1],got[0]).c_str());
   if (n >= 24)
   {  // not a constant, and another seed gives other data
      std::string other(n,'\0'); strtk::generate_random_data(reinterpret_cast<unsigned char*>(&other[0]),n,unsigned(skip),seed + 1);
      if (other == got[0]) violate("seed-ignored","seeds %u and %u give the same %zu bytes",seed,seed + 1,n);
   }
   if (n % 4 == 0 && skip)
   {  // pregenerated values are skipped
      std::string all(n + 4 * skip,'\0'); strtk::generate_random_data(reinterpret_cast<unsigned char*>(&all[0]),all.size(),0,seed);
      if (all.substr(4 * skip) != got[0]) violate("pregen","skipping %zu values with seed %u: %s",skip,seed,w::diff(got[0],all.substr(4 * skip)).c_str());
   }
}
template <typename T> static void values(const char* name, T lo, T hi, bool real)
{
   sim::Op op(name);
   const size_t n = sim::size_upto(60,"count"), skip = draw(4,"pregen"), seed = draw_seed();
   const uint32_t af = sim::one_in(5,"alloc?") ? sim::draw_alloc_fault(8,"alloc-at") : 0;
   std::vector<T> v[3]; std::deque<T> d; bool oom = false;
   for (int k = 0; k < 2; ++k)
   {
      disturb();
      sim::AllocWindow aw(k ? 0 : af);
      try { strtk::generate_random_values<T>(n,lo,hi,v[k],seed,skip); }
      catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","bad_alloc"); }
   }
   { sim::AllocWindow aw(0); strtk::generate_random_values<T>(n,lo,hi,std::back_inserter(d),seed,skip); }
   logf("%s count %zu -> %s",name,n,oom ? "bad_alloc" : "done");
   if (oom) sim::mark_nontrivial();
   if (v[1].size() != n || d.size() != n) violate("wrong-count","%s gave %zu and %zu values instead of %zu",name,v[1].size(),d.size(),n);
   if (oom ? v[0].size() > n || !std::equal(v[0].begin(),v[0].end(),v[1].begin()) : v[0] != v[1]) violate("not-repeatable","%s with seed %zu",name,seed);
   if (!std::equal(d.begin(),d.end(),v[1].begin())) violate("not-repeatable","%s: container and iterator forms differ",name);
   bool all_same = true;
   for (const T& x : v[1])
   {
      if (!(x >= lo) || !(real ? x < hi : x <= hi)) violate("out-of-range","%s gave a value outside its range",name);
      if (x != v[1][0]) all_same = false;
   }
   if (n >= 40 && all_same && double(hi) - double(lo) >= 3) violate("seed-ignored","%s: %zu equal values",name,n);
   if (real && skip)
   {  // pregenerated values are skipped
      std::vector<T> all; strtk::generate_random_values<T>(n + 4 * skip,lo,hi,all,seed,0);
      bool found = n == 0; for (size_t s = 1; s <= 4 * skip && !found; ++s) found = std::equal(v[1].begin(),v[1].end(),all.begin() + s);
      if (!found) violate("pregen","%s: skipping %zu values with seed %zu is no later part of the sequence",name,skip,seed);
   }
}
// kind 0: permutation, 1: combination, 2: select k, 3: select 1
static void choose(uint32_t kind)
{
   static const char* const names[] = { "random_permutation", "random_combination", "select_k_randomly", "select_1_randomly" };
   sim::Op op(names[kind]);
   const size_t n = sim::size_upto(25,"size"); const V src = iota(n);
   const size_t k = kind == 0 ? n : kind == 3 ? 1 : sim::size_upto(n + 3,"k");
   const size_t want = kind == 0 ? n : kind == 1 ? (k <= n ? k : 0) : std::min(k,n);
   if (kind < 2 && flip("seeded"))
   {
      const size_t seed = draw_seed(), skip = draw(4,"pregen");
      V got[3];
      for (int r = 0; r < 3; ++r)
      {
         disturb();
         sim::AllocWindow aw(0);
         const Out o = { &got[r], want, 0 };
         const std::deque<int> dq(src.begin(),src.end());
         if (kind == 0) { if (r == 2) strtk::random_permutation(dq,o,seed,skip); else strtk::random_permutation(src.begin(),src.end(),o,seed,skip); }
         else { if (r == 2) strtk::random_combination(dq,k,o,seed,skip); else strtk::random_combination(src.begin(),src.end(),k,o,seed,skip); }
         if (got[r].size() != want || !distinct_from(got[r],src)) violate("not-distinct","%s of %zu out of %zu gave %zu values or repeated one",names[kind],k,n,got[r].size());
      }
      logf("%s seeded %zu of %zu",names[kind],k,n);
      if (got[0] != got[1] || got[0] != got[2]) violate("not-repeatable","%s with seed %zu",names[kind],seed);
      return;
   }
   SimRng rng(draw(6,"rng-style"),draw(100000,"rng-seed"));
   if (sim::one_in(5,"throw?")) { rng.throw_at = 1 + draw(8,"throw-at"); }
   const bool bad_range = kind < 2 && sim::one_in(12,"rng-range");
   if (bad_range) { if (flip("low")) rng.lo = -0.5; else rng.hi = 2.0; }
   const uint32_t af = sim::one_in(5,"alloc?") ? sim::draw_alloc_fault(6,"alloc-at") : 0;
   const bool once = kind >= 2 && flip("single-pass");
   V got; bool ok = true, oom = false, threw = false; size_t ret = want;
   {
      const Out o = { &got, kind < 2 && bad_range ? 0 : want, 0 };
      sim::AllocWindow aw(af);
      try
      {
         switch (kind)
         {
            case 0 : strtk::random_permutation(src.begin(),src.end(),rng,o); break;
            case 1 : ok = strtk::random_combination(src.begin(),src.end(),k,rng,o); break;
            case 2 : ret = once ? strtk::select_k_randomly(Once(&src,0),Once(&src,n),k,o,rng) : strtk::select_k_randomly(src.begin(),src.end(),k,o,rng); break;
            default: if (once) strtk::select_1_randomly(Once(&src,0),Once(&src,n),o,rng); else strtk::select_1_randomly(src.begin(),src.end(),o,rng); break;
         }
      }
      catch (const Thrown&) { threw = true; }
      catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","bad_alloc"); }
   }
   logf("%s %zu of %zu style %u -> %zu values%s",names[kind],k,n,rng.style,got.size(),oom ? ", bad_alloc" : threw ? ", generator threw" : "");
   sim::shape(oom ? "oom" : threw ? "threw" : "done");
   if (oom || threw) sim::mark_nontrivial();
   if (threw != rng.threw && !oom) violate("swallowed-exception","%s swallowed an exception of the generator",names[kind]);
   if (!distinct_from(got,src)) { V d(got); std::string s; for (int x : d) s += std::to_string(x) + " "; violate("not-distinct","%s %zu of %zu: %s",names[kind],k,n,s.c_str()); }
   if (oom || threw) return;
   if (kind == 1 && ok != (k <= n && !bad_range)) violate("result","random_combination returned %d",int(ok));
   if (kind == 2 && ret != want) violate("result","select_k_randomly returned %zu instead of %zu",ret,want);
   if (got.size() != (kind < 2 && bad_range ? 0 : want)) violate("wrong-count","%s %zu of %zu gave %zu values",names[kind],k,n,got.size());
}
// over many fair draws every element turns up everywhere it can
static void reach(uint32_t kind)
{
   sim::Op op("reach");
   const size_t n = 2 + draw(4,"size"); const V src = iota(n); const size_t k = kind == 0 ? n : kind == 3 ? 1 : 1 + draw(uint32_t(n),"k");
   SimRng rng(0,draw(100000,"rng-seed"));
   std::set<std::pair<size_t,int> > at; std::set<int> any;
   for (int t = 0; t < 400; ++t)
   {
      V got; const Out o = { &got, k, 0 };
      switch (kind)
      {
         case 0 : strtk::random_permutation(src.begin(),src.end(),rng,o); break;
         case 1 : strtk::random_combination(src.begin(),src.end(),k,rng,o); break;
         case 2 : strtk::select_k_randomly(src.begin(),src.end(),k,o,rng); break;
         default: strtk::select_1_randomly(src.begin(),src.end(),o,rng); break;
      }
      for (size_t i = 0; i < got.size(); ++i) { at.insert(std::make_pair(i,got[i])); any.insert(got[i]); }
   }
   if (any.size() != n) violate("never-chosen","of %zu elements only %zu are ever chosen",n,any.size());
   if (kind < 2 && at.size() != n * k) violate("never-chosen","some element never comes at some position");
}
static void real_rng()
{
   sim::Op op("uniform_real_rng");
   const size_t seed = draw_seed(), skip = draw(6,"pregen"); const int n = 20;
   disturb(); strtk::uniform_real_rng a(seed,skip);
   disturb(); strtk::uniform_real_rng b(seed,skip), c(seed);
   std::vector<double> va, vb, vc;
   for (int i = 0; i < n; ++i) { va.push_back(a()); disturb(); vb.push_back(b()); }
   strtk::uniform_real_rng e(a);
   for (int i = 0; i < 5; ++i) { const double x = a(); if (x != b() || x != e()) violate("not-repeatable","a copied generator goes on differently"); }
   for (size_t i = 0; i < n + 4 * skip; ++i) vc.push_back(c());
   if (va != vb) violate("not-repeatable","uniform_real_rng with seed %zu",seed);
   for (double x : va) if (!(x >= 0.0 && x < 1.0)) violate("out-of-range","uniform_real_rng gave %f",x);
   bool found = skip == 0; for (size_t s = 1; s <= 4 * skip && !found; ++s) found = std::equal(va.begin(),va.end(),vc.begin() + s);
   if (!found) violate("pregen","uniform_real_rng skips nothing when asked to skip %zu values",skip);
   if (skip == 0 && !std::equal(va.begin(),va.end(),vc.begin())) violate("not-repeatable","uniform_real_rng with seed %zu",seed);
}
void sim_run()
{
   sim::want_second_pass();
   for (int k = 0; k < 12 && (k == 0 || more(4,"more")); ++k)
      switch (draw(14,"op"))
      {
         case 0 : case 1 : data(); break;
         case 2 : values<int>("values int",-int(draw(1000,"min")) - 1,int(draw(1000,"max")),false); break;
         case 3 : switch (draw(4,"type")) { case 0 : values<short>("values short",-32768,32767,false); break; case 1 : values<unsigned short>("values ushort",0,65535,false); break; case 2 : values<unsigned char>("values uchar",0,255,false); break; default: values<char>("values char",-5,5,false); break; } break;
         case 4 : switch (draw(4,"type")) { case 0 : values<unsigned>("values unsigned",5,0xFFFFFFFFu,false); break; case 1 : values<long>("values long",std::numeric_limits<long>::min(),std::numeric_limits<long>::max(),false); break; case 2 : values<unsigned long>("values ulong",0,7,false); break; default: values<int>("values int single",4,4,false); break; } break;
         case 5 : switch (draw(3,"type")) { case 0 : values<double>("values double",-1.5,1e9,true); break; case 1 : values<float>("values float",-0.5f,0.5f,true); break; default: values<long double>("values long double",0,1,true); break; } break;
         case 6 : case 7 : choose(0); break;
         case 8 : case 9 : choose(1); break;
         case 10: case 11: choose(2); break;
         case 12: if (flip("select1")) choose(3); else if (sim::one_in(4,"reach")) reach(draw(4,"reach-kind")); else choose(3); break;
         default: real_rng(); break;
      }
}
