// C03: copy_file / concatenate.
#include "work.hpp"
using namespace w;
PROPERTY("C03","one run: a history of file copies and concatenations (sizes around the 16 KB block, fresh and pre-existing destinations, missing sources) on a simulated disk "
               "with open/read/write/seek/close errors, short and interrupted transfers, a filling disk, sources truncated or extended by another process, and kills; "
               "non-trivial: at least one fault fired or more than one block moved; distinct: different sequence of operations, faults and outcomes");
void sim_run()
{
   fs::profile(fs::draw_profile(fs::rd_faults | fs::wr_faults | fs::race | fs::kill));
   const std::string src[] = { "/sim/a", "/sim/b", "/sim/c", "/sim/missing" };
   const std::string dst[] = { "/sim/x", "/sim/y" };
   std::map<std::string,std::string> model;
   for (int i = 0; i < 3; ++i)
   {
      size_t n;
      if (flip("blocks"))
      {  // around multiples of the copy block
         size_t m = draw(20,"n-blocks") * 16384 + draw(5,"delta"); n = m >= 2 ? m - 2 : 0;
      }
      else n = sim::size_upto(flip("large") ? 1100000 : 70000,"file-size");
      fs::put(src[i],sim::bytes(n,"file-data"));
   }
   for (int k = 0; k < 8 && more(3,"more"); ++k)
   {
      for (int i = 0; i < 3; ++i) model[src[i]] = fs::get(src[i]);
      const bool cat = flip("concatenate");
      const std::string s1 = src[sim::one_in(8,"missing") ? 3 : draw(3,"src1")];
      const std::string s2 = src[sim::one_in(8,"missing") ? 3 : draw(3,"src2")];
      const std::string d = dst[draw(2,"dst")];
      const bool unreadable = sim::one_in(10,"unreadable");
      fs::set_unreadable(s1,unreadable);
      fs::race_target(draw(2,"race-which") ? s2 : s1);
      if (!fs::exists(d) && flip("preexisting")) fs::put(d,sim::bytes(sim::size_upto(60000,"old-size"),"old-data"));
      const bool d_existed = fs::exists(d);
      const std::string old = fs::get(d), other = fs::get(d == dst[0] ? dst[1] : dst[0]);
      const bool missing = !fs::exists(s1) || unreadable || (cat && (!fs::exists(s2) || (unreadable && s2 == s1)));
      sim::Op op(cat ? "concatenate" : "copy_file");
      bool r;
      {
         fs::Window win;
         r = cat ? strtk::fileio::concatenate(s1,s2,d) : strtk::fileio::copy_file(s1,d);
      }
      const std::string now = fs::get(d);
      logf("%s(%s,%s -> %s) = %d, %zu bytes",cat ? "concatenate" : "copy_file",s1.c_str(),cat ? s2.c_str() : "",d.c_str(),int(r),now.size());
      if (now.size() > 16384) sim::mark_nontrivial();
      const std::vector<std::string> v1 = fs::versions(s1), v2 = fs::versions(s2);
      const bool raced = v1.size() > 1 || (cat && v2.size() > 1);
      const std::string want = model[s1] + (cat ? model[s2] : std::string());
      if (fs::killed())
      {
         sim::probe("killed inside the copy");
         bool prefix = now.size() <= want.size() && 0 == want.compare(0,now.size(),now);
         if (!fs::hard_before_kill() && !prefix && now != old && !raced) violate("kill-garbage","after a kill the destination holds neither its old contents nor a prefix of the source: %s",diff(now,want).c_str());
         fs::restart();
      }
      else
      {
         no_open_files("copy");
         if (missing)
         {
            sim::probe("source missing");
            if (r) violate("success-without-source","success reported although a source cannot be opened");
            if (d_existed && (!fs::exists(d) || now != old)) violate("destination-destroyed","a source could not be opened, yet the existing destination changed: %s",diff(now,old).c_str());
         }
         else if (r)
         {
            sim::shape("ok");
            if (!raced && now != want) violate("success-wrong-contents","reported success: %s",diff(now,want).c_str());
            if (raced)
            {  // every piece must come from what the sources held during the call
               bool ok = false;
               for (const std::string& a : v1)
                  if (cat) { for (const std::string& b : v2) ok |= now.size() == a.size() + b.size(); }
                  else ok |= now.size() == a.size();
               if (!ok) violate("success-wrong-contents","sources changed meanwhile; destination of %zu bytes matches no state of them",now.size());
               if (!cat)
                  for (size_t i = 0; i < now.size(); ++i)
                  {
                     bool got = false;
                     for (const std::string& a : v1) got |= i < a.size() && a[i] == now[i];
                     if (!got) violate("success-wrong-contents","byte %zu of the destination never was in the source",i);
                  }
            }
         }
         else if (!fs::hard_fired()) violate("failure-without-cause","failed on a healthy disk");
      }
      // sources only change through the other process
      for (int i = 0; i < 3; ++i)
      {
         const std::vector<std::string>& v = fs::versions(src[i]);
         const std::string& last = v.empty() ? model[src[i]] : v.back();
         if (fs::get(src[i]) != last) violate("source-changed","%s was modified: %s",src[i].c_str(),diff(fs::get(src[i]),last).c_str());
      }
      if (fs::exists("/sim/missing")) violate("source-changed","a missing source was created");
      if (fs::get(d == dst[0] ? dst[1] : dst[0]) != other) violate("other-file-changed","an uninvolved file changed");
      fs::set_unreadable(s1,false);
   }
   sim::Op op("copy after faults");
   fs::profile(fs::Profile{0,8}); fs::race_target("");
   bool r1, r2;
   { fs::Window win; r1 = strtk::fileio::copy_file(src[0],dst[0]); r2 = strtk::fileio::concatenate(src[0],src[1],dst[1]); }
   if (!r1 || fs::get(dst[0]) != fs::get(src[0])) violate("no-progress","copy_file on a healthy disk: %d, %s",int(r1),diff(fs::get(dst[0]),fs::get(src[0])).c_str());
   const std::string both = fs::get(src[0]) + fs::get(src[1]);
   if (!r2 || fs::get(dst[1]) != both) violate("no-progress","concatenate on a healthy disk: %d, %s",int(r2),diff(fs::get(dst[1]),both).c_str());
}
