// C13: bloom filter files.
#include "work.hpp"
#include <memory>
using namespace w;
PROPERTY("C13","one run: filters (plain, compressible, compressed) stored to and reloaded from a simulated disk under open/read/write/close/seek errors, short and interrupted transfers, a filling disk, "
               "kills during the store and failing allocations; loads of truncated, extended, bit-flipped, spliced and arbitrary files; every filter is used again afterwards; "
               "non-trivial: a fault fired or a damaged file was loaded; distinct: different sequence of operations, faults and outcomes");
typedef strtk::bloom::filter F;
typedef strtk::bloom::compressible_filter CF;
struct Made { std::unique_ptr<F> f; bool comp = false; std::vector<std::string> keys; };
static strtk::bloom::parameters draw_params()
{
   strtk::bloom::parameters p;
   p.projected_element_count = 1 + sim::size_upto(1500,"projected");
   static const double fpp[] = { 0.01, 0.0001, 0.5, 1.0, 1e-45 };
   p.false_positive_probability = fpp[draw(5,"fpp")];
   if (flip("limits")) { p.minimum_size = 1 + sim::size_upto(30000,"min-size"); if (flip("cap")) p.maximum_size = p.minimum_size + draw(100,"extra"); }
   if (sim::one_in(3,"hash-limits")) p.minimum_number_of_hashes = 1 + draw(200,"min-hashes");
   p.random_seed = 1 + draw(1000,"seed");
   p.compute_optimal_parameters();
   return p;
}
static Made make()
{
   Made m; const strtk::bloom::parameters p = draw_params();
   m.comp = flip("compressible");
   if (m.comp)
   {
      CF* c = new CF(p); m.f.reset(c);
      if (flip("keys-first")) { for (uint32_t n = draw(15,"keys"), i = 0; i < n; ++i) { m.keys.push_back("pre" + std::to_string(draw(100,"key"))); c->insert(m.keys.back()); } }
      for (uint32_t n = draw(3,"compressions"), i = 0; i < n; ++i) c->compress(10.0 * (1 + draw(9,"percent")));
   }
   else m.f.reset(new F(p));
   for (uint32_t n = draw(25,"keys"), i = 0; i < n; ++i) { m.keys.push_back("k" + std::to_string(draw(100,"key"))); m.f->insert(m.keys.back()); }
   return m;
}
// whatever it holds: every operation must stay inside its table and behave like a filter
static void use(F& f, const char* what)
{
   sim::Op op("use");
   for (int q = 0; q < 40; ++q) { const std::string k = "q" + std::to_string(q * 7919); (void)f.contains(k); f.insert(k); if (!f.contains(k)) violate("unusable","%s: a key inserted afterwards is not contained",what); }
   (void)f.size(); (void)f.element_count(); (void)!f; (void)f.hash_count();
   F copy(f); if (!(copy == f)) { double nan = f.effective_fpp(); (void)nan; }
   copy |= f; copy &= f; if (!copy.contains(std::string("q7919"))) violate("unusable","%s: a copy lost a key",what);
   copy ^= f; f = copy; f.clear();
   f.insert(42); if (!f.contains(42)) violate("unusable","%s: a key inserted after clear is not contained",what);
}
enum Outcome { failed, loaded, oom };
static Outcome load(F& f, const std::string& path, uint32_t af, uint64_t& largest)
{
   fs::Window win; sim::AllocWindow aw(af);
   try { const bool r = f.read_from_file(path); largest = aw.largest(); return r ? loaded : failed; }
   catch (const std::bad_alloc&) { sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","read_from_file asked for %llu bytes",(unsigned long long)aw.largest()); largest = 0; return oom; }
}
static void same(const F& got, const Made& want, const char* how)
{
   if (!(got == *want.f)) violate("reload-differs","%s: store and load reported success but the loaded filter is not equal",how);
   if (got.size() != want.f->size() || got.element_count() != want.f->element_count()) violate("reload-differs","%s: loaded filter differs in size or element count",how);
   for (const std::string& k : want.keys) if (!got.contains(k)) violate("reload-forgets","%s: loaded filter lost key %s",how,show(k).c_str());
   for (int q = 0; q < 30; ++q) { const std::string k = "other" + std::to_string(q); if (got.contains(k) != want.f->contains(k)) violate("reload-differs","%s: stored and loaded filter disagree about a key",how); }
}
static std::unique_ptr<F> target()
{
   switch (draw(4,"target"))
   {
      case 0 : return std::unique_ptr<F>(new F());
      case 1 : { Made m = make(); return std::move(m.f); }
      case 2 : return std::unique_ptr<F>(new CF(draw_params()));
      default: return std::unique_ptr<F>(new F(draw_params()));
   }
}
void sim_run()
{
   sim::want_second_pass();
   const fs::Profile prof = fs::draw_profile(fs::wr_faults | fs::rd_faults | fs::kill);
   const std::string path = "/sim/bloom.bin";
   for (int k = 0; k < 8 && (k == 0 || more(3,"more")); ++k)
   {
      Made m = make();
      sim::Op op("store and load");
      if (flip("preexisting")) fs::put(path,sim::bytes(sim::size_upto(20000,"old-size"),"old-data")); else fs::erase(path);
      fs::profile(prof);
      bool stored = false; bool store_oom = false;
      {
         fs::Window win; sim::AllocWindow aw(sim::one_in(6,"alloc?") ? sim::draw_alloc_fault(6,"alloc-at") : 0);
         try { stored = m.f->write_to_file(path); } catch (const std::bad_alloc&) { store_oom = true; if (!aw.fired()) violate("spurious-bad-alloc","write_to_file"); }
      }
      logf("write_to_file(%llu bits, %zu keys%s) = %d",m.f->size(),m.keys.size(),m.comp ? ", compressible" : "",int(stored));
      sim::shape(stored ? "stored" : "not stored");
      bool complete = stored;
      if (fs::killed()) { sim::probe("killed inside the store"); fs::restart(); complete = false; }
      else
      {
         no_open_files("write_to_file");
         if (!stored && !store_oom && !fs::hard_fired()) violate("failure-without-cause","write_to_file failed although no fault was injected");
      }
      std::unique_ptr<F> g = target();
      uint64_t largest = 0;
      Outcome o = load(*g,path,sim::one_in(6,"alloc?") ? sim::draw_alloc_fault(6,"alloc-at") : 0,largest);
      logf("read_from_file = %d",int(o));
      sim::shape(o == loaded ? "loaded" : "not loaded");
      if (fs::killed()) fs::restart(); else no_open_files("read_from_file");
      if (o == loaded)
      {
         if (!fs::exists(path)) violate("loaded-missing","read_from_file reported success without a file");
         if (complete) same(*g,m,"store and load");
         else
         {  // a torn or failed store: all of it, or it must not have been accepted
            sim::probe("store failed, file still complete");
            if (!(*g == *m.f)) violate("torn-file-accepted","a store that did not complete left %zu bytes that load as a different filter",fs::get(path).size());
         }
      }
      else if (o == failed && complete && !fs::hard_fired()) violate("load-failure","a stored filter cannot be loaded on a healthy disk");
      if (o == loaded && flip("again")) { F h(*g); same(h,m,"copy of the loaded filter"); }
      use(*g,"after loading");
      if (!complete) continue;
      // damaged files
      fs::profile(flip("faulty") ? prof : fs::Profile{0,8});
      const std::string image = fs::get(path);
      for (uint32_t n = draw(4,"damages"), d = 0; d < n; ++d)
      {
         sim::Op dop("damaged file");
         sim::mark_nontrivial();
         std::string x = image; bool must_fail = false; const char* kind = "";
         switch (draw(6,"damage"))
         {
            case 0 : { size_t cut = flip("tail") ? x.size() - 1 - draw(uint32_t(std::min<size_t>(x.size(),200)),"cut") : draw(uint32_t(x.size()),"cut"); x.resize(std::min(cut,x.size())); must_fail = true; kind = "truncated"; break; }
            case 1 : { size_t p = draw(uint32_t(std::min<size_t>(x.size(),flip("header") ? 64 : x.size())),"at"); x[p] = char(x[p] ^ (1 << draw(8,"bit"))); kind = "bit flipped"; break; }
            case 2 : { size_t p = 4 * draw(16,"field"); if (p + 4 <= x.size()) { const uint32_t v = uint32_t(sim::u64("value")); memcpy(&x[p],&v,4); } kind = "header field replaced"; break; }
            case 3 : { x += sim::bytes(1 + sim::size_upto(100,"extra"),"extra-data"); kind = "extended"; break; }
            case 4 : { size_t p = draw(uint32_t(x.size()),"from"), q = draw(uint32_t(x.size()),"to"); const size_t l = std::min<size_t>(16,x.size() - std::max(p,q)); const std::string piece = x.substr(p,l); x.replace(q,l,piece); kind = "spliced"; break; }
            default: x = sim::bytes(sim::size_upto(300,"size"),"noise"); kind = "noise"; break;
         }
         fs::put(path,x);
         std::unique_ptr<F> h = target();
         const Outcome r = load(*h,path,0,largest);
         sim::shape(kind); sim::shape(r == loaded ? "accepted" : "refused");
         logf("%s file of %zu bytes: %d",kind,x.size(),int(r));
         if (fs::killed()) fs::restart(); else no_open_files("read_from_file");
         if (r == loaded) { sim::probe("damaged file accepted"); if (must_fail) violate("truncated-accepted","a file cut from %zu to %zu bytes loads successfully",image.size(),x.size()); }
         else sim::probe("damaged file refused");
         if (largest > 4 * x.size() + 65536) violate("unbounded-allocation","loading a file of %zu bytes asked for %llu bytes",x.size(),(unsigned long long)largest);
         use(*h,"after loading a damaged file");
      }
      fs::put(path,image);
   }
   sim::Op op("after faults");
   fs::profile(fs::Profile{0,8});
   Made m = make(); F g;
   bool a, b; { fs::Window win; a = m.f->write_to_file(path); b = g.read_from_file(path); }
   if (!a || !b) violate("no-progress","store or load fails on a healthy disk");
   same(g,m,"healthy disk");
}
