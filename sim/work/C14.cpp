// C14: loading token grids.
#include "grid.hpp"
#include <memory>
using namespace w;
PROPERTY("C14","one run: a history of constructions, loads, reloads and clears of one grid object from simulated files (open/read/seek errors, short and interrupted reads, another process truncating, extending or changing the file meanwhile, unreadable, empty and missing files), "
               "caller buffers and strings, under drawn delimiters, column modes, quoting and trimming, with failing allocations; every cell compared with a reference splitter; "
               "non-trivial: a fault fired or a grid with quotes or included delimiters was loaded; distinct: different sequence of operations, faults and outcomes");
using grid::G; using grid::Opt; using grid::Table;
struct Caller { unsigned char* p; std::string was; };
void sim_run()
{
   sim::want_second_pass();
   const fs::Profile prof = fs::draw_profile(fs::rd_faults | fs::race);
   fs::profile(prof);
   std::unique_ptr<G> g;
   std::vector<Caller> lent;                   // buffers of the caller: stay alive to the end
   std::vector<std::unique_ptr<std::string> > strings;
   struct Release { std::vector<Caller>& v; ~Release() { for (Caller& c : v) free(c.p); } } release = { lent };
   for (int k = 0; k < 16 && (k == 0 || more(5,"more")); ++k)
   {
      const Opt o = grid::draw_options();
      const bool balanced = !o.dq || !sim::one_in(6,"unbalanced");
      const std::string text = grid::draw_text(o,flip("many-rows") ? 12 : 3,false,balanced);
      const uint32_t how = draw(g ? 9 : 5,"how");
      const bool setters = flip("setters");
      const uint32_t af = sim::one_in(4,"alloc?") ? sim::draw_alloc_fault(20,"alloc-at") : 0;
      const char* names[] = { "construct from file", "construct from buffer", "construct from string", "construct from file, plain", "construct from buffer, plain", "load file", "load buffer", "clear", "load file" };
      sim::Op op(names[how]);
      bool ok = false, oom = false, file = false;
      Opt eff = o;
      if (how == 3 || how == 4) { eff = Opt(); eff.cd = o.cd; eff.rd = o.rd; }
      const std::string path = "/sim/grid.csv";
      bool readable = true;
      if (how == 0 || how == 3 || how == 5 || how == 8)
      {
         file = true;
         fs::race_target(""); fs::erase(path);
         const uint32_t st = draw(12,"file-state");
         if (st != 11) fs::put(path,text); else readable = false;
         if (st == 10) { fs::set_unreadable(path,true); readable = false; }
         if (st != 11 && text.empty()) readable = false;
         fs::race_target(path);
      }
      unsigned char* buf = 0;
      if (how == 1 || how == 4 || how == 6)
      {
         buf = static_cast<unsigned char*>(malloc(text.size())); std::memcpy(buf,text.data(),text.size());
         Caller c = { buf, text }; lent.push_back(c);
      }
      if (how == 2) strings.emplace_back(new std::string(text));
      const uint32_t variant = draw(2,"variant");
      fs::profile(file && sim::one_in(5,"busy-file") ? fs::Profile{fs::race,3} : prof);
      {
         fs::Window win; sim::AllocWindow aw(af);
         try
         {
            switch (how)
            {
               case 0 : { G* n = new G(path,o.lib(setters)); { sim::NoFault nf; g.reset(n); } ok = !!*g; break; }
               case 1 : { G* n = variant ? new G(buf,text.size(),o.lib(setters)) : new G(reinterpret_cast<const char*>(buf),text.size(),o.lib(setters)); { sim::NoFault nf; g.reset(n); } ok = !!*g; break; }
               case 2 : { G* n = new G(*strings.back(),text.size(),o.lib(setters)); { sim::NoFault nf; g.reset(n); } ok = !!*g; break; }
               case 3 : { G* n = new G(path,eff.cd,eff.rd); { sim::NoFault nf; g.reset(n); } ok = !!*g; break; }
               case 4 : { G* n = variant ? new G(buf,text.size(),eff.cd,eff.rd) : new G(reinterpret_cast<const char*>(buf),text.size(),eff.cd,eff.rd); { sim::NoFault nf; g.reset(n); } ok = !!*g; break; }
               case 5 : case 8 : ok = g->load(path,o.lib(setters)); break;
               case 6 : ok = g->load(buf,text.size(),o.lib(setters)); break;
               default: g->clear(); break;
            }
         }
         catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","%s threw bad_alloc",names[how]); }
      }
      const std::vector<std::string> seen = file ? fs::versions(path) : std::vector<std::string>();   // what the file held while it was loaded
      fs::race_target("");
      const bool raced = seen.size() > 1;
      logf("%s: %zu bytes, mode %u%s%s -> %s",names[how],text.size(),eff.col_mode,eff.dq ? " quotes" : "",eff.trim ? " trim" : "",oom ? "bad_alloc" : ok ? "ok" : "failed");
      sim::shape(oom ? "oom" : ok ? "ok" : "failed");
      if (eff.dq || eff.col_mode > 1) sim::mark_nontrivial();
      no_open_files(names[how]);
      if (!g) continue;
      if (how != 7 && !oom)
      {
         if (ok && file && !readable && !raced) violate("load-of-nothing","%s succeeded without a readable non-empty file",names[how]);
         if (!ok && !(file && (!readable || fs::hard_fired()))) violate("failure-without-cause","%s of %zu bytes failed",names[how],text.size());
      }
      const Table got = grid::dump(*g);        // after any outcome the grid can be walked
      if (how == 7 && !got.empty()) violate("clear","a cleared grid has %zu rows",got.size());
      if (ok && !oom)
      {
         if (raced)
         {  // another process changed the file: all of what it held at one time, never half of it
            sim::probe("file changed while a grid is loaded"); bool one = seen.size() > 2 || eff.dq;
            for (size_t v = 0; !one && v < seen.size(); ++v) one = got == grid::table(seen[v],eff);
            if (!one) violate("torn-load","a file of %zu bytes was changed to %zu bytes while loading: success with a grid of neither",seen[0].size(),seen[1].size());
         }
         else if (!balanced && eff.dq) { sim::probe("grid with a quote left open"); }
         else
         {
            const Table want = grid::table(text,eff);
            grid::compare(got,want,"wrong-cells",names[how]);
            if (!want.empty())
            {
               size_t lo = size_t(-1), hi = 0; for (const auto& r : want) { lo = std::min(lo,r.size()); hi = std::max(hi,r.size()); }
               if (g->min_column_count() != lo || g->max_column_count() != hi) violate("column-counts","columns %zu..%zu instead of %zu..%zu",g->min_column_count(),g->max_column_count(),lo,hi);
            }
            if (flip("get") && !want.empty())
            {
               const size_t r = draw(uint32_t(want.size()),"row"), c = draw(8,"column");
               const std::string v = g->get<std::string>(r,c);
               if (v != (c < want[r].size() ? want[r][c] : std::string())) violate("wrong-cells","get(%zu,%zu) is %s",r,c,show(v).c_str());
               if (g->token(want.size() + c,0) != std::make_pair((const unsigned char*)0,(const unsigned char*)0)) violate("wrong-cells","a token behind the last row");
            }
         }
         if (file && !raced)
         {  // the same bytes in memory give the same grid
            if (g->source_file() != path) violate("source-file","source_file() is %s",show(g->source_file()).c_str());
            G mem(text,text.size(),eff.lib(false));
            grid::compare(got,grid::dump(mem),"file-differs-from-memory",names[how]);
         }
      }
      for (const Caller& c : lent) if (std::memcmp(c.p,c.was.data(),c.was.size()) != 0) violate("caller-buffer-changed","%s changed a buffer of the caller",names[how]);
      if (sim::one_in(8,"destroy")) { sim::Op d("destroy"); g.reset(); }
   }
   fs::profile(fs::Profile{0,8});
   Opt o; const std::string text = "a,b\nc,d\n";
   fs::put("/sim/grid.csv",text);
   if (!g) g.reset(new G());
   sim::Op op("load after faults");
   bool ok; { fs::Window win; ok = g->load("/sim/grid.csv",o.lib(false)); }
   if (!ok) violate("no-progress","load fails on a healthy disk");
   grid::compare(grid::dump(*g),grid::table(text,o),"wrong-cells","load after faults");
   g.reset();
}
