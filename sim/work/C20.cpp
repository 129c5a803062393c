// C20: concurrent calls on separate data.
#include "kinds.hpp"
#include "threads.hpp"
namespace th = sim::threads;
PROPERTY("C20","one run: two to four threads, each making one to three library calls (of some 115 kinds, reaching nearly every function of the library: tokenising, parsing, conversion, encoding, joining, replacing, grids, filters, serialisation, tries, key-value parsing, files, random data, combinatorics) on data of its own, or reading an object all threads share, "
               "switched at memory accesses, function entries and system calls by the seeded schedule, with failing allocations and disk faults in single threads; every call not hit by a fault is compared with the same call made alone in a process of its own; "
               "non-trivial: at least one thread was switched out inside a library call; distinct: different calls, switch positions and faults");
namespace {
// objects that calls of all threads only read; they are there before the threads start, their first bytes in static
// memory, where an access is a point at which to switch
template <typename T> struct Shared { typename std::aligned_storage<sizeof(T),alignof(T)>::type mem; const T& operator*() const { return *reinterpret_cast<const T*>(&mem); } template <typename... A> T& make(A&&... a) { return *new (&mem) T(std::forward<A>(a)...); } };
Shared<std::string> sh_text;
Shared<strtk::token_grid> sh_grid;
Shared<strtk::bloom::filter> sh_bloom;
typedef strtk::trie::prefix<std::string::const_iterator,std::string> Trie;
Shared<Trie> sh_trie;
Shared<strtk::translation_table> sh_table;
Shared<strtk::multiple_char_delimiter_predicate> sh_pred;
strings sh_keys;
void make_shared_objects(uint32_t seed)
{
   sim::NoFault nf;
   Call c = { 0, seed, 0, 0 }; R r(c);
   std::string& t = sh_text.make();
   const uint32_t rows = 2 + r.below(20);
   for (uint32_t i = 0; i < rows; ++i) { for (uint32_t j = r.below(6); j; --j) t += std::to_string(r.below(2000)) + (r.below(6) ? "," : ",,"); t += std::to_string(i) + "\n"; }
   sh_grid.make(t,t.size(),",");
   strtk::bloom::parameters p; p.projected_element_count = 30; p.false_positive_probability = 0.01; p.random_seed = r.next() | 1; p.compute_optimal_parameters();
   sh_keys = r.words(20,8);
   strtk::bloom::filter& f = sh_bloom.make(p); f.insert(sh_keys.begin(),sh_keys.end());
   Trie& tr = sh_trie.make(); for (const std::string& k : sh_keys) tr.insert(k.begin(),k.end(),k + "!");
   sh_table.make("abcdef","uvwxyz"); sh_pred.make(std::string(",\n"));
}
struct EachRow { strings* o; void operator()(const strtk::token_grid::row_type& x) const { o->push_back(x.as_string()); } };
const uint32_t own_kinds = 5;
uint32_t kinds() { return own_kinds + uint32_t(Kinds::get().all.size()); }
std::string kind_name(uint32_t k) { return k < own_kinds ? "kind shared" + std::to_string(k) : std::string("kind ") + Kinds::get().all[k - own_kinds].name; }
std::string perform(const Call& c, const std::string& dir)
{
   R r(c); const size_t n = c.size;
   if (c.kind >= own_kinds) return Kinds::get().all[c.kind - own_kinds].run(c,dir);
   switch (c.kind)
   {
      case 0: { const strtk::token_grid& g = *sh_grid; strings o; for (size_t k = 0; k < 3 + n; ++k) { const size_t i = r.below(uint32_t(g.row_count())); const strtk::token_grid::row_type x = g.row(i); if (!x.size()) continue; const size_t j = r.below(uint32_t(x.size())); const strtk::token_grid::range_t tk = g.token(i,j);
                    std::vector<int> pv; x.parse(pv); int first = 0; const bool ok = x.parse(first); o.push_back(dig(std::string(tk.first,tk.second),x.get<std::string>(j),x.as_string(),pv,ok,first,x.raw_length(),x.is_null(j))); } return dig(o,g.row_count(),g.min_column_count(),g.max_column_count()); }
      case 1: { const strtk::token_grid& g = *sh_grid; strings o; double sum = 0; int rs = 0; const size_t a = g.accumulate_column(0,sum), b = g.accumulate_row(r.below(uint32_t(g.row_count())),rs); std::string jr, jc; g.for_each_row(EachRow{&o}); return dig(a,b,sum,rs,g.column_width(0),o); }
      case 2: { const strtk::bloom::filter& f = *sh_bloom; std::string hit; for (size_t i = 0; i < 20 + n; ++i) hit += f.contains(r.below(2) ? sh_keys[r.below(uint32_t(sh_keys.size()))] : r.word(5)) ? '1' : '0'; strings out; const strings q = r.words(8,2); std::vector<const std::string*> dummy; const bool all = f.contains_all(sh_keys.begin(),sh_keys.end()) == sh_keys.end(); strtk::bloom::filter mine(f); mine.insert(r.num()); return dig(hit,all,f.size(),f.effective_fpp(),mine == f); }
      case 3: { const Trie& t = *sh_trie; strings o; for (size_t i = 0; i < 5 + n; ++i) { const std::string k = r.below(2) ? sh_keys[r.below(uint32_t(sh_keys.size()))] : r.word(4), pre = k.substr(0,1 + r.below(uint32_t(k.size()))); std::string v; const bool a = t.find(k.begin(),k.end(),v), b = t.find_prefix(pre.begin(),pre.end()); o.push_back(dig(a,v,b)); } return dig(o); }
      default: { const std::string s = r.text(n * 4,"abcdefgh"); std::string g(s); strtk::translate_inplace(*sh_table,g); strings o, q; const size_t a = strtk::split(*sh_pred,*sh_text,ins(o),copt(r)); strtk::split_n(*sh_pred,*sh_text,1 + r.below(9),ins(q)); std::vector<int> v; const size_t b = strtk::parse(*sh_text,",\n",v); return dig(g,strtk::translate(*sh_table,s),a,o,q,b,v); }
   }
}
std::string guarded(const Call& c, const std::string& dir)
{
   try { return perform(c,dir); }
   catch (const std::bad_alloc&) { return "bad_alloc"; }
   catch (const std::exception& e) { sim::NoFault nf; return std::string("exception: ") + e.what(); }
}
} // namespace
void sim_run()
{
   const uint32_t nt = 2 + draw(3,"threads");
   make_shared_objects(draw(1000,"shared-objects"));
   struct Job { Call c; std::string dir, want, got; th::Footprint fp; uint32_t alloc_fault; bool faulted; bool ran; };
   std::vector<std::vector<Job> > jobs(nt);
   const uint32_t same = flip("same-kind") ? draw(kinds(),"kind") + 1 : 0;      // all threads doing the same thing is where hidden shared state shows
   const uint32_t variant = same && flip("same-variant") ? 1 + draw(1000,"variant") : 0;
   const bool faults = sim::one_in(3,"faults");
   for (uint32_t t = 0; t < nt; ++t)
   {
      const uint32_t n = 1 + draw(3,"calls");
      for (uint32_t k = 0; k < n; ++k)
      {
         sim::op_begin("call");
         Job j; j.c.kind = same && (k == 0 || flip("again")) ? same - 1 : draw(kinds(),"kind"); j.c.seed = draw(1u << 20,"data"); j.c.variant = variant; j.c.size = draw(4,"bigger") ? draw(10,"size") : draw(60,"size");
         char b[40]; snprintf(b,sizeof b,"/sim/t%uc%u/",t,k); j.dir = b;
         j.alloc_fault = faults && sim::one_in(3,"alloc?") ? sim::draw_alloc_fault(40,"alloc-at") : 0; j.faulted = j.ran = false;
         jobs[t].push_back(j);
         sim::shape(j.c.kind * 1000003ull + j.c.size);
         const std::string nm = "call " + kind_name(j.c.kind); sim::probe(nm.c_str());
      }
   }
   // what every call does alone, in a process of its own
   th::Plan plan;
   std::map<uint64_t,int> writers, users; 
   std::vector<std::set<uint64_t> > wr(nt), ac(nt);
   for (uint32_t t = 0; t < nt; ++t)
      for (Job& j : jobs[t])
      {
         if (!th::isolated([&]{ return guarded(j.c,j.dir); },j.want,j.fp)) violate("crash-alone","call of %s (seed %u, size %u) does not come back even alone",kind_name(j.c.kind).c_str(),j.c.seed,j.c.size);
         plan.points += j.fp.points;
         wr[t].insert(j.fp.written.begin(),j.fp.written.end()); ac[t].insert(j.fp.accessed.begin(),j.fp.accessed.end());
         logf("thread %u: %s seed %u size %u, %llu points, alone: %016llx",t,kind_name(j.c.kind).c_str(),j.c.seed,j.c.size,(ull)j.fp.points,(ull)sim::hash(j.want));
      }
   std::set<uint64_t> shared;
   for (uint32_t a = 0; a < nt; ++a) for (uint32_t b = 0; b < nt; ++b) if (a != b) for (uint64_t g : wr[a]) if (ac[b].count(g)) shared.insert(g);
   plan.shared.assign(shared.begin(),shared.end());
   plan.policy = draw(th::policies,"policy");
   logf("%zu granules written by one thread and used by another, policy %u, %llu points",plan.shared.size(),plan.policy,(ull)plan.points);
   fs::profile(fs::draw_profile(faults ? fs::rd_faults | fs::wr_faults : 0));
   std::vector<std::function<void()> > bodies;
   for (uint32_t t = 0; t < nt; ++t)
      bodies.push_back([&jobs,t]
      {
         for (Job& j : jobs[t])
         {
            th::arm_allocation_failure(j.alloc_fault);
            j.got = guarded(j.c,j.dir);
            j.faulted = th::faulted(); j.ran = true;
         }
         th::arm_allocation_failure(0);
      });
   {
      fs::Window win;
      th::run(bodies,plan);
   }
   if (th::switches()) sim::mark_nontrivial();
   for (uint32_t t = 0; t < nt; ++t)
      for (const Job& j : jobs[t])
      {
         if (j.faulted) { sim::shape("faulted"); logf("thread %u %s hit by a fault",t,kind_name(j.c.kind).c_str()); continue; }
         if (j.got != j.want) violate("influenced","thread %u, call of %s (seed %u, size %u) gave another result than alone: %s",t,kind_name(j.c.kind).c_str(),j.c.seed,j.c.size,diff(j.got,j.want).c_str());
      }
}
