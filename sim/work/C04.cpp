// C04: files_identical.
#include "work.hpp"
using namespace w;
PROPERTY("C04","one run: comparisons of pairs of simulated files (equal, one differing byte at any position, prefixes, different sizes, the same file twice, missing) "
               "under open/read/seek errors, short and interrupted reads and concurrent changes by another process; "
               "non-trivial: at least one fault fired or a file of more than one block compared; distinct: different sequence of operations, faults and outcomes");
void sim_run()
{
   fs::profile(fs::draw_profile(fs::rd_faults | fs::race));
   const std::string A = "/sim/a", B = "/sim/b";
   for (int k = 0; k < 10 && (k == 0 || more(4,"more")); ++k)
   {
      size_t n;
      if (flip("blocks")) { size_t m = draw(14,"n-blocks") * 16384 + draw(5,"delta"); n = m >= 2 ? m - 2 : 0; }
      else n = sim::size_upto(flip("large") ? 600000 : 60000,"file-size");
      std::string a = sim::bytes(n,"file-data"), b = a;
      const uint32_t kind = draw(6,"pair");
      switch (kind)
      {
         case 0 : case 1 : break;
         case 2 : if (n) { size_t p = flip("pos") ? draw(uint32_t(n),"pos") : n - 1 - draw(uint32_t(std::min<size_t>(n,5)),"tail"); b[p] = char(b[p] ^ (1 + draw(255,"xor"))); } break;
         case 3 : b.resize(draw(uint32_t(n) + 1,"prefix")); break;
         case 4 : b += sim::bytes(1 + sim::size_upto(20000,"ext"),"ext-data"); break;
         default: if (n) { size_t base = (n / 16384) * 16384, p = base ? base - 1 + draw(3,"edge") : 0; if (p >= n) p = n - 1; b[p] = char(b[p] ^ 0x80); } break;
      }
      if (flip("swap")) std::swap(a,b);
      fs::erase(A); fs::erase(B);
      const uint32_t miss = draw(12,"missing");
      if (miss != 10) fs::put(A,a);
      if (miss != 11) fs::put(B,b);
      const bool unreadable = sim::one_in(14,"unreadable");
      if (unreadable) fs::set_unreadable(flip("which") ? A : B,true);
      const bool self = sim::one_in(10,"self");
      fs::race_target(flip("race-which") ? A : B);
      const std::string second = self ? A : B;
      if (n > 16384) sim::mark_nontrivial();
      sim::Op op("files_identical");
      bool r;
      { fs::Window win; r = strtk::fileio::files_identical(A,second); }
      logf("files_identical(%zu bytes,%zu bytes%s) = %d",a.size(),self ? a.size() : b.size(),self ? ", same file" : "",int(r));
      sim::shape(r ? "identical" : "different");
      no_open_files("files_identical");
      const bool readable = fs::exists(A) && fs::exists(second) && !unreadable;
      const bool raced = fs::versions(A).size() > 1 || fs::versions(second).size() > 1;
      if (!(fs::exists(A)) && miss != 10) violate("file-removed","comparison removed a file");
      if (r && !fs::exists(A)) violate("identical-missing","missing files called identical");
      if (r && !fs::exists(second)) violate("identical-missing","missing files called identical");
      if (!raced)
      {
         const bool equal = fs::get(A) == fs::get(second);
         if (r && !equal) violate("false-identical","different files called identical: %s",diff(fs::get(A),fs::get(second)).c_str());
         if (r && unreadable && !fs::hard_fired() && fs::exists(A) && fs::exists(second))
         {  // one of them could not be opened
            bool self_ok = self;   // the unreadable file may be the one not involved
            if (!self_ok) violate("identical-unreadable","unreadable file called identical");
         }
         if (!r && equal && readable && !fs::hard_fired()) violate("false-different","identical files called different");
         if (miss != 10 && fs::get(A) != a) violate("file-changed","comparison changed the first file");
         if (miss != 11 && fs::get(B) != b) violate("file-changed","comparison changed the second file");
      }
      else if (r)
      {  // changed meanwhile: there must be states of both that agree byte by byte
         const std::vector<std::string>& va = fs::versions(A); const std::vector<std::string>& vb = fs::versions(second);
         bool size_ok = false; size_t len = 0;
         for (const std::string& x : va) for (const std::string& y : vb) if (x.size() == y.size()) { size_ok = true; len = std::max(len,x.size()); }
         if (!size_ok) violate("false-identical","files that never had the same size called identical");
         (void)len;
      }
   }
   sim::Op op("compare after faults");
   fs::profile(fs::Profile{0,8});
   fs::put(A,sim::bytes(sim::size_upto(70000,"size"),"data")); fs::put(B,fs::get(A));
   bool r; { fs::Window win; r = strtk::fileio::files_identical(A,B); }
   if (!r) violate("no-progress","identical files called different on a healthy disk");
}
