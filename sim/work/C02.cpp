// C02: load_file / read_at_offset / file_size / file_exists.
#include "work.hpp"
using namespace w;
PROPERTY("C02","one run: a history of whole-file loads, ranged reads, size and existence queries (all overloads) on simulated files that fail to open, read or seek, "
               "deliver short or interrupted reads, or are truncated, extended or changed by another process between system calls; "
               "non-trivial: at least one fault fired or a file of more than one block was read; distinct: different sequence of operations, faults and outcomes");

static const size_t guard = 64;
struct Buf      // destination with guard bytes
{
   std::vector<char> v; size_t n;
   explicit Buf(size_t k) : v(k + 2 * guard,char(0x5C)), n(k) {}
   char* p() { return &v[guard]; }
   std::string s() const { return std::string(&v[guard],n); }
   bool guards_ok() const
   {
      for (size_t i = 0; i < guard; ++i) if (v[i] != char(0x5C) || v[guard + n + i] != char(0x5C)) return false;
      return true;
   }
};
// content acceptable as the result of reading [off,off+n): some contents the file had during the call
static bool explained(const std::string& path, const std::string& got, size_t off, bool to_end)
{
   const std::vector<std::string>& vs = fs::versions(path);
   for (const std::string& v : vs)
   {
      if (to_end) { if (v == got) return true; }
      else if (v.size() >= off + got.size() && 0 == v.compare(off,got.size(),got)) return true;
   }
   if (vs.size() <= 1) return false;
   // the file changed during the call: every byte must come from a version that has it, and the length be one of the sizes
   bool len = !to_end;
   for (const std::string& v : vs) len |= v.size() == got.size();
   // (appending grows the file between the size query and the read: length may lie between two versions' sizes)
   if (!len) return false;
   for (size_t i = 0; i < got.size(); ++i)
   {
      bool ok = false;
      for (const std::string& v : vs) ok |= off + i < v.size() && v[off + i] == got[i];
      if (!ok) return false;
   }
   return true;
}
void sim_run()
{
   fs::profile(fs::draw_profile(fs::rd_faults | fs::race));
   const char* names[] = { "/sim/a", "/sim/b", "/sim/missing" };
   for (int i = 0; i < 2; ++i)
      if (more(8,"create")) fs::put(names[i],sim::bytes(sim::size_upto(flip("large") ? 300000 : 40000,"file-size"),"file-data"));
   for (int k = 0; k < 14 && more(5,"more"); ++k)
   {
      const std::string path = names[sim::one_in(6,"missing-file") ? 2 : draw(2,"file")];
      const bool exists = fs::exists(path);
      const bool unreadable = exists && sim::one_in(12,"unreadable");
      fs::set_unreadable(path,unreadable);
      fs::race_target(path);
      const std::string before = fs::get(path);
      std::string other = path == names[0] ? names[1] : names[0];
      const std::string other_before = fs::get(other);
      bool r = false;
      if (before.size() > 8191) sim::mark_nontrivial();
      const uint32_t what = draw(7,"call");
      static const char* const cn[] = { "load_file(string)", "load_file(buffer)", "read_at_offset(file,buffer)", "read_at_offset(file,string)", "read_at_offset(stream)", "file_size", "file_exists" };
      sim::Op op(cn[what]);
      switch (what)
      {
         case 0 :
         {
            std::string dst = sim::bytes(draw(3,"old") ? sim::size_upto(3000,"old-size") : 0,"old-dst");
            { fs::Window win; r = strtk::fileio::load_file(path,dst); }
            logf("load_file(%s of %zu bytes) = %d, %zu bytes",path.c_str(),before.size(),int(r),dst.size());
            if (r && (!exists || unreadable)) violate("success-absent","load_file succeeded on a file that cannot be read");
            if (r && !explained(path,dst,0,true)) violate("success-wrong-bytes","load_file reported success with %s",diff(dst,fs::get(path)).c_str());
            break;
         }
         case 1 :
         {
            size_t n = flip("exact") ? before.size() : sim::size_upto(before.size() + 5000,"req");
            Buf b(n);
            { fs::Window win; r = strtk::fileio::load_file(path,b.p(),n); }
            logf("load_file(%s of %zu bytes, buffer of %zu) = %d",path.c_str(),before.size(),n,int(r));
            if (!b.guards_ok()) violate("buffer-overrun","load_file wrote outside the destination");
            if (r && (!exists || unreadable)) violate("success-absent","load_file succeeded on a file that cannot be read");
            if (r && !explained(path,b.s(),0,false)) violate("success-wrong-bytes","load_file(buffer of %zu) reported success on a file of %zu bytes: %s",n,before.size(),diff(b.s(),before.substr(0,n)).c_str());
            if (n > before.size()) { sim::probe("request longer than file"); }
            if (!r && exists && !unreadable && n <= before.size() && !fs::hard_fired()) violate("failure-without-cause","load_file of %zu of %zu bytes failed",n,before.size());
            if (r) sim::shape("ok");
            continue;
         }
         case 2 : case 3 : case 4 :
         {
            size_t off = flip("off") ? sim::size_upto(before.size() + 100,"offset") : draw(uint32_t(before.size()) + 1,"offset");
            size_t n = flip("to-end") && off <= before.size() ? before.size() - off + draw(2,"plus") : sim::size_upto(before.size() + 3000,"req");
            std::string got;
            bool guards = true;
            if (what == 2)
            {
               Buf b(n);
               { fs::Window win; r = strtk::fileio::read_at_offset(path,off,b.p(),n); }
               got = b.s(); guards = b.guards_ok();
            }
            else if (what == 3)
            {
               std::string dst = sim::bytes(draw(100,"old"),"old-dst");
               { fs::Window win; r = strtk::fileio::read_at_offset(path,off,dst,n); }
               got = dst;
               if (r && got.size() != n) violate("success-wrong-size","read_at_offset(string) of %zu bytes returned %zu",n,got.size());
            }
            else
            {
               Buf b(n);
               { fs::Window win; std::ifstream st(path.c_str(),std::ios::binary); r = strtk::fileio::read_at_offset(st,off,b.p(),n); }
               got = b.s(); guards = b.guards_ok();
            }
            logf("read_at_offset(%s of %zu bytes, %zu + %zu) = %d",path.c_str(),before.size(),off,n,int(r));
            if (!guards) violate("buffer-overrun","read_at_offset wrote outside the destination");
            if (r && (!exists || unreadable)) violate("success-absent","read_at_offset succeeded on a file that cannot be read");
            if (r && n && !explained(path,got,off,false)) violate("success-wrong-bytes","read_at_offset(%zu,%zu) of %zu bytes reported success: %s",off,n,before.size(),diff(got,off <= before.size() ? before.substr(off,n) : "").c_str());
            if (!r && exists && !unreadable && off + n <= before.size() && !fs::hard_fired()) violate("failure-without-cause","read_at_offset(%zu,%zu) of %zu bytes failed",off,n,before.size());
            if (r) sim::shape("ok");
            no_open_files(cn[what]);
            continue;
         }
         case 5 :
         {
            size_t n;
            { fs::Window win; n = strtk::fileio::file_size(path); }
            logf("file_size(%s of %zu bytes) = %zu",path.c_str(),before.size(),n);
            bool ok = n == before.size() && exists && !unreadable;
            for (const std::string& v : fs::versions(path)) ok |= n == v.size() && exists && !unreadable;
            if (0 == n && (!exists || unreadable || fs::hard_fired())) ok = true;
            if (!ok) violate("wrong-size","file_size = %zu for a file of %zu bytes (exists %d)",n,before.size(),int(exists));
            no_open_files(cn[what]);
            continue;
         }
         default:
         {
            { fs::Window win; r = strtk::fileio::file_exists(path); }
            logf("file_exists(%s) = %d",path.c_str(),int(r));
            if (r && (!exists || unreadable)) violate("wrong-existence","file_exists answered true for an absent file");
            if (!r && exists && !unreadable && !fs::hard_fired()) violate("wrong-existence","file_exists answered false for a readable file");
            if (!exists && fs::exists(path)) violate("file-created","the query created the file");
            no_open_files(cn[what]);
            continue;
         }
      }
      if (!r && exists && !unreadable && !fs::hard_fired()) violate("failure-without-cause","%s failed on a healthy disk",cn[what]);
      no_open_files(cn[what]);
      if (r) sim::shape("ok");
      if (fs::get(other) != other_before) violate("other-file-changed","%s changed another file",cn[what]);
      fs::set_unreadable(path,false);
   }
   // faults stop: everything reads back
   sim::Op op("load after faults");
   fs::profile(fs::Profile{0,8});
   for (int i = 0; i < 2; ++i)
      if (fs::exists(names[i]))
      {
         fs::set_unreadable(names[i],false);
         const std::string want = fs::get(names[i]);
         std::string s; bool r; size_t n; bool e;
         { fs::Window win; r = strtk::fileio::load_file(names[i],s); n = strtk::fileio::file_size(names[i]); e = strtk::fileio::file_exists(names[i]); }
         if (!r || s != want) violate("no-progress","load_file = %d on a healthy disk: %s",int(r),diff(s,want).c_str());
         if (n != want.size() || !e) violate("wrong-size","file_size = %zu, file_exists = %d for %zu bytes",n,int(e),want.size());
      }
}
