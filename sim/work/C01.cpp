// C01: write_file - a write that reports success has stored every byte.
#include "work.hpp"
using namespace w;
PROPERTY("C01","one run: a history of whole-file writes (all overloads, sizes around stream and block buffers, overwriting old contents) to a simulated disk "
               "that injects open/write/close errors, short and interrupted writes, a filling disk and process kills; "
               "non-trivial: at least one fault fired or a file was overwritten; distinct: different sequence of operations, faults and outcomes");

static bool call(const std::string& path, const std::string& data, bool as_string)
{
   if (as_string) return strtk::fileio::write_file(path,data);
   std::string copy = data;
   const bool r = strtk::fileio::write_file(path,copy.empty() ? const_cast<char*>("") : &copy[0],copy.size());
   if (copy != data) violate("input-changed","write_file modified the caller's buffer");
   return r;
}
void sim_run()
{
   const char* names[] = { "/sim/a", "/sim/b" };
   std::map<std::string,std::string> model;    // what each file must hold (absent: unknown)
   const fs::Profile prof = fs::draw_profile(fs::wr_faults | fs::kill);
   fs::profile(prof);
   for (int k = 0; k < 12 && more(4,"more"); ++k)
   {
      sim::Op op("write_file");
      const std::string path = names[draw(2,"file")];
      const bool as_string = flip("overload");
      if (!fs::exists(path) && flip("preexisting"))
      {
         fs::put(path,sim::bytes(sim::size_upto(400000,"old-size"),"old-data"));
         model[path] = fs::get(path);
      }
      const std::string old = fs::get(path);
      const bool was = fs::exists(path);
      const std::string data = sim::bytes(sim::size_upto(1200000,"size"),"data");
      if (was) sim::mark_nontrivial();
      if (data.size() > 16384) sim::probe("data larger than 16 KB");
      if (data.size() < old.size()) sim::probe("new contents shorter than old");
      bool r;
      { fs::Window win; r = call(path,data,as_string); }
      logf("write_file(%s,%zu bytes,%s) = %d",path.c_str(),data.size(),as_string ? "string" : "buffer",int(r));
      sim::shape(r ? "ok" : "fail");
      if (fs::killed())
      {
         sim::probe("killed inside the write");
         const std::string now = fs::get(path);
         const bool prefix = now.size() <= data.size() && 0 == data.compare(0,now.size(),now);
         if (!fs::hard_before_kill() && !prefix && now != old) violate("kill-garbage","after a kill the file holds neither the old contents nor a prefix of the new: %s",diff(now,data).c_str());
         fs::restart();
         model[path] = now;
      }
      else
      {
         no_open_files("write_file");
         if (r && !fs::exists(path)) violate("success-without-file","write_file reported success but no file exists");
         if (r && fs::get(path) != data) violate("success-wrong-contents","write_file reported success, file holds %s",diff(fs::get(path),data).c_str());
         if (!r && !fs::hard_fired()) violate("failure-without-cause","write_file of %zu bytes failed although no fault was injected",data.size());
         if (!r) sim::probe("reported failure");
         if (fs::exists(path)) model[path] = fs::get(path);
      }
      for (const char* n : names)
         if (n != path && model.count(n) && fs::get(n) != model[n]) violate("other-file-changed","writing %s changed %s",path.c_str(),n);
   }
   // faults stop: a write succeeds at once
   sim::Op op("write_file after faults");
   fs::profile(fs::Profile{0,8});
   const std::string data = sim::bytes(sim::size_upto(40000,"size"),"data");
   bool r;
   { fs::Window win; r = call("/sim/a",data,flip("overload")); }
   if (!r) violate("no-progress","write_file fails on a healthy disk");
   if (fs::get("/sim/a") != data) violate("success-wrong-contents","file holds %s",diff(fs::get("/sim/a"),data).c_str());
}
