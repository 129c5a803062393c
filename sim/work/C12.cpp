// C12: bloom filters never forget a key.
#include "work.hpp"
#include <memory>
using namespace w;
PROPERTY("C12","one run: a history over up to four filters (plain and compressible; drawn parameter sets) of key insertions through every overload, copies, assignments, set operations, "
               "compressions, clears and comparisons, with a failing allocation at a drawn point of drawn operations, against sets of keys; "
               "non-trivial: a filter was copied, combined or compressed while holding keys, or an allocation failed; distinct: different sequence of operations, faults and outcomes");
typedef strtk::bloom::filter F;
typedef strtk::bloom::compressible_filter CF;
struct Pod12 { int a; int b; int c; };
struct Slot
{
   std::unique_ptr<F> f; CF* c = nullptr;
   int params = -1; std::vector<double> squeezed;   // same params and same compressions: same addressing
   std::set<std::string> keys; std::vector<std::string> order; bool tracked_order = true;
   size_t inserted = 0; bool count_known = true;
};
static const int NP = 4;
static strtk::bloom::parameters g_p[NP]; static bool g_have[NP];
static bool has(const F& f, const std::string& k)
{  // exact-size heap copy, so that reading over the end shows
   std::unique_ptr<char[]> p(new char[k.size() ? k.size() : 1]);
   std::memcpy(p.get(),k.data(),k.size());
   return f.contains(p.get(),k.size());
}
static std::string draw_key()
{
   return draw(4,"key-kind") == 0 ? sim::bytes(sim::size_upto(40,"key-size"),"key") : "k" + std::to_string(draw(60,"key-number"));
}
static void check_keys(const Slot& s, const char* after)
{
   sim::NoFault nf;
   if (!s.f) return;
   for (const std::string& k : s.keys)
      if (!has(*s.f,k)) violate("forgotten-key","after %s: key %s was inserted and is not contained",after,show(k).c_str());
   if (s.count_known && s.f->element_count() != s.inserted) violate("element-count","after %s: element_count() is %zu after %zu insertions",after,s.f->element_count(),s.inserted);
}
static const strtk::bloom::parameters& params(int i)
{
   if (g_have[i]) return g_p[i];
   g_have[i] = true;
   strtk::bloom::parameters p;
   p.projected_element_count = 1 + sim::size_upto(800,"projected");
   static const double fpp[] = { 0.01, 0.0001, 0.1, 0.5, 0.9, 1.0, 1e-12, 1e-17, 1e-45, 1e-200, 0.0, 1.5 };
   p.false_positive_probability = fpp[flip("odd-fpp") ? draw(12,"fpp") : draw(6,"fpp")];
   if (flip("limits"))
   {
      p.minimum_size = 1 + sim::size_upto(5000,"min-size");
      if (flip("cap")) p.maximum_size = p.minimum_size + sim::size_upto(3000,"max-extra");
   }
   if (flip("hash-limits"))
   {
      p.minimum_number_of_hashes = 1 + uint32_t(sim::size_upto(200,"min-hashes"));
      if (flip("hash-cap")) p.maximum_number_of_hashes = p.minimum_number_of_hashes + draw(10,"hash-extra");
   }
   p.random_seed = sim::u64("seed");
   if (0 == p.random_seed || 0xFFFFFFFFFFFFFFFFULL == p.random_seed) p.random_seed = 77;
   if (!p.compute_optimal_parameters())
   {
      if (p.false_positive_probability > 0 && p.false_positive_probability <= 1) violate("parameters","valid parameters refused");
      p.false_positive_probability = 0.1;        // there is no filter that never, or more often than always, errs
      if (!p.compute_optimal_parameters()) violate("parameters","valid parameters refused");
   }
   const unsigned long long t = p.optimal_parameters.table_size; const unsigned h = p.optimal_parameters.number_of_hashes;
   if (t < p.minimum_size || t > p.maximum_size) violate("parameters","table size %llu outside [%llu,%llu]",t,p.minimum_size,p.maximum_size);
   if (h < p.minimum_number_of_hashes || h > p.maximum_number_of_hashes) violate("parameters","%u hashes outside [%u,%u]",h,p.minimum_number_of_hashes,p.maximum_number_of_hashes);
   g_p[i] = p;
   return g_p[i];
}
static bool same_addressing(const Slot& a, const Slot& b) { return a.params == b.params && a.squeezed == b.squeezed; }
template <typename Fn> static bool guarded(const char* name, Fn fn)
{  // runs fn under a possible allocation failure; false: bad_alloc came out
   const uint32_t at = sim::draw_alloc_fault(12,"alloc-fault");
   sim::AllocWindow win(at);
   try { fn(); }
   catch (const std::bad_alloc&)
   {
      sim::NoFault nf;
      if (!win.fired()) violate("spurious-bad-alloc","%s threw bad_alloc although no allocation failed",name);
      sim::mark_nontrivial();
      return false;
   }
   return true;
}
void sim_run()
{
   sim::want_second_pass();
   for (bool& b : g_have) b = false;
   std::vector<Slot> s(4);
   for (int k = 0; k < 40 && (k == 0 || more(14,"more")); ++k)
   {
      const uint32_t i = draw(4,"slot"), j = draw(4,"other");
      Slot& a = s[i]; Slot& b = s[j];
      uint32_t what = a.f ? draw(13,"op") : 0;
      if (what > 0 && what < 5) what = 1;
      switch (what)
      {
         case 0 :
         {
            sim::Op op("create");
            const int p = int(draw(NP,"params")); params(p);
            const bool comp = flip("compressible");
            Slot n; n.params = p;
            if (!guarded("constructor",[&]{ if (comp) { CF* c = new CF(g_p[p]); n.f.reset(c); n.c = c; } else n.f.reset(new F(g_p[p])); })) break;
            a = std::move(n);
            if (!a.f->operator!() != (0 != g_p[p].optimal_parameters.table_size)) violate("validity","operator! wrong");
            if (a.f->size() != g_p[p].optimal_parameters.table_size) violate("size","size() is %llu instead of %llu",a.f->size(),g_p[p].optimal_parameters.table_size);
            if (a.f->hash_count() != g_p[p].optimal_parameters.number_of_hashes) violate("size","hash_count() is %zu",a.f->hash_count());
            logf("create params %d: %llu bits, %zu hashes%s",p,a.f->size(),a.f->hash_count(),comp ? ", compressible" : "");
            for (int q = 0; q < 5; ++q) { const std::string key = draw_key(); if (has(*a.f,key)) violate("ghost-key","a fresh filter contains %s",show(key).c_str()); }
            break;
         }
         case 1 :
         {
            sim::Op op("insert");
            const uint32_t kind = draw(6,"insert-kind");
            std::vector<std::string> ks;
            if (kind == 0) { ks.push_back(draw_key()); a.f->insert(ks[0]); if (!a.f->contains(ks[0])) violate("forgotten-key","key not contained right after its insertion"); }
            else if (kind == 1)
            {
               ks.push_back(draw_key());
               std::unique_ptr<char[]> p(new char[ks[0].size() ? ks[0].size() : 1]); std::memcpy(p.get(),ks[0].data(),ks[0].size());
               a.f->insert(static_cast<const char*>(p.get()),ks[0].size());
            }
            else if (kind == 2) { int v = int(sim::u64("int")); a.f->insert(v); ks.push_back(std::string((char*)&v,sizeof v)); if (!a.f->contains(v)) violate("forgotten-key","int not contained"); }
            else if (kind == 3)
            {
               Pod12 v = { int(draw(1000,"a")), int(draw(1000,"b")), int(draw(1000,"c")) };
               a.f->insert(v); ks.push_back(std::string((char*)&v,sizeof v)); if (!a.f->contains(v)) violate("forgotten-key","struct not contained");
               unsigned short h = (unsigned short)draw(70000,"short"); a.f->insert(h); ks.push_back(std::string((char*)&h,sizeof h));
            }
            else if (kind == 4)
            {
               const uint32_t n = draw(20,"range"); for (uint32_t q = 0; q < n; ++q) ks.push_back(draw_key());
               a.f->insert(ks.begin(),ks.end());
               if (a.f->contains_all(ks.begin(),ks.end()) != ks.end()) violate("forgotten-key","contains_all misses a key just inserted");
            }
            else
            {
               std::vector<unsigned long long> vs; const uint32_t n = draw(20,"range"); for (uint32_t q = 0; q < n; ++q) vs.push_back(sim::u64("u64"));
               a.f->insert(vs.begin(),vs.end());
               for (unsigned long long v : vs) ks.push_back(std::string((char*)&v,sizeof v));
               if (a.f->contains_all(vs.begin(),vs.end()) != vs.end()) violate("forgotten-key","contains_all misses a key just inserted");
            }
            for (const std::string& x : ks) { a.keys.insert(x); a.order.push_back(x); }
            a.inserted += ks.size();
            logf("insert %zu key(s)",ks.size());
            break;
         }
         case 5 :
         {
            sim::Op op("copy");
            Slot n;
            const bool slice = b.f && b.c && flip("slice");
            const bool ok = guarded("copy",[&]{ if (!b.f) return; if (b.c && !slice) { CF* c = new CF(*b.c); n.f.reset(c); n.c = c; } else n.f.reset(new F(*b.f)); });
            if (!ok || !b.f) break;
            n.params = b.params; n.squeezed = b.squeezed; n.keys = b.keys; n.order = b.order; n.tracked_order = b.tracked_order; n.inserted = b.inserted; n.count_known = b.count_known;
            if (!(*n.f == *b.f) || (*n.f != *b.f)) violate("copy-differs","a copy does not compare equal to its original");
            if (!b.keys.empty()) sim::mark_nontrivial();
            a = std::move(n);
            logf("copy %u to %u",j,i);
            break;
         }
         case 6 :
         {
            sim::Op op("assign");
            if (!b.f) break;
            const bool ok = guarded("assignment",[&]{ if (a.c && b.c && flip("same-type")) *a.c = *b.c; else *a.f = *b.f; });
            logf("assign %u to %u%s",j,i,ok ? "" : " failed");
            if (ok && i != j)
            {
               a.params = b.params; a.squeezed = b.squeezed; a.keys = b.keys; a.order = b.order; a.tracked_order = b.tracked_order; a.inserted = b.inserted; a.count_known = b.count_known;
            }
            if (ok && !(*a.f == *b.f)) violate("copy-differs","an assigned filter does not compare equal to its source");
            if (!b.keys.empty()) sim::mark_nontrivial();
            break;
         }
         case 7 :
         {
            sim::Op op("union");
            if (!b.f) break;
            const bool by_operator = flip("operator");
            bool ok = true;
            if (by_operator) ok = guarded("union",[&]{ F u = *a.f | *b.f; *a.f = u; }); else *a.f |= *b.f;
            logf("union %u with %u",i,j);
            if (ok && i != j)
            {
               if (same_addressing(a,b)) { a.keys.insert(b.keys.begin(),b.keys.end()); sim::mark_nontrivial(); }
               a.tracked_order = false;
            }
            break;
         }
         case 8 :
         {
            sim::Op op("intersection");
            if (!b.f) break;
            bool ok = true;
            if (flip("operator")) ok = guarded("intersection",[&]{ F u = *a.f & *b.f; *a.f = u; }); else *a.f &= *b.f;
            logf("intersection %u with %u",i,j);
            if (ok && i != j)
            {
               for (auto it = a.keys.begin(); it != a.keys.end(); ) if (!b.keys.count(*it)) it = a.keys.erase(it); else ++it;
               if (!a.keys.empty()) sim::mark_nontrivial();
               a.tracked_order = false;
            }
            break;
         }
         case 9 :
         {
            sim::Op op("difference");
            if (!b.f) break;
            bool ok = true;
            if (flip("operator")) ok = guarded("difference",[&]{ F u = *a.f ^ *b.f; *a.f = u; }); else *a.f ^= *b.f;
            logf("difference %u with %u",i,j);
            if (ok) { a.keys.clear(); a.tracked_order = false; }
            if (ok && i == j) for (int q = 0; q < 3; ++q) { const std::string key = draw_key(); if (has(*a.f,key)) violate("ghost-key","a filter minus itself contains %s",show(key).c_str()); }
            break;
         }
         case 10 :
         {
            sim::Op op("compress");
            if (!a.c) break;
            static const double pct[] = { 50.0, 10.0, 75.0, 90.0, 1.0, 33.3, 99.0, 0.0, 100.0, -5.0 };
            const double pc = pct[draw(10,"percent")];
            const unsigned long long before = a.f->size();
            bool r = false;
            const bool ok = guarded("compress",[&]{ r = a.c->compress(pc); });
            logf("compress %u by %.1f%%: %d, %llu to %llu bits",i,pc,int(r),before,a.f->size());
            sim::shape(r ? "compressed" : "not compressed");
            if (ok && r)
            {
               if (a.f->size() >= before) violate("size","compressed from %llu to %llu bits",before,a.f->size());
               if (a.f->size() > before * (1.0 - pc / 100.0) + 1e-6) violate("size","compressed by %.1f%% from %llu to %llu bits only",pc,before,a.f->size());
               a.squeezed.push_back(pc);
               if (!a.keys.empty()) sim::mark_nontrivial();
            }
            else if (a.f->size() != before) violate("size","refused or failed compression changed the size from %llu to %llu",before,a.f->size());
            if (ok && !r && pc == 50.0 && before >= 16) violate("compress-refused","compression of %llu bits by half refused",before);
            break;
         }
         case 11 :
         {
            sim::Op op("clear");
            a.f->clear(); a.keys.clear(); a.order.clear(); a.inserted = 0; a.count_known = true; a.tracked_order = true;
            for (int q = 0; q < 3; ++q) { const std::string key = draw_key(); if (has(*a.f,key)) violate("ghost-key","a cleared filter contains %s",show(key).c_str()); }
            break;
         }
         default :
         {
            sim::Op op("rebuild");
            if (!a.tracked_order || a.c || !a.squeezed.empty()) break;
            F twin(g_p[a.params]);
            for (const std::string& x : a.order) twin.insert(x);
            if (!(twin == *a.f)) violate("twin-differs","a filter built alike from the same %zu keys differs",a.order.size());
            for (int q = 0; q < 20; ++q) { const std::string key = draw_key(); if (has(twin,key) != has(*a.f,key)) violate("twin-differs","twins disagree about a key"); }
            std::vector<std::string> probe; for (int q = 0; q < 6; ++q) probe.push_back(draw_key());
            size_t none = probe.size(), all = probe.size();
            for (size_t q = probe.size(); q-- > 0; ) if (has(*a.f,probe[q])) none = q; else all = q;
            if (size_t(a.f->contains_none(probe.begin(),probe.end()) - probe.begin()) != none) violate("range-query","contains_none disagrees with contains");
            if (size_t(a.f->contains_all(probe.begin(),probe.end()) - probe.begin()) != all) violate("range-query","contains_all disagrees with contains");
            break;
         }
      }
      for (const Slot& x : s) check_keys(x,"this operation");
   }
}
