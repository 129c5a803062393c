// C05: for_each_line family.
#include "models.hpp"
#include <sstream>
using namespace w;
PROPERTY("C05","one run: line iterations (plain, bounded, conditional, both; by stream and by file name; resumed on the same stream) over simulated files of arbitrary text with "
               "failing opens, read errors, short and interrupted reads, allocation failures and callbacks that throw or stop at any line; "
               "non-trivial: a fault, throw or stop happened with lines left, or the text exceeded one stream buffer; distinct: different sequence of operations, faults and outcomes");
namespace {
struct Thrown { int k; };
struct Rec
{
   std::vector<std::string>* got; long throw_at; long stop_at;
   void see(const std::string& s) const
   {
      sim::NoFault nf;
      got->push_back(s);
      if (long(got->size()) == throw_at) { logf("callback throws at call %ld",throw_at); throw Thrown{int(throw_at)}; }
   }
   bool stop() const { return long(got->size()) == stop_at; }
};
struct Plain { Rec r; void operator()(const std::string& s) const { r.see(s); } };
struct Cond  { Rec r; bool operator()(const std::string& s) const { r.see(s); return !r.stop(); } };
std::string text()
{
   sim::NoFault nf;
   std::string t;
   const uint32_t style = draw(4,"text-style");
   if (style == 3) return sim::bytes(sim::size_upto(60000,"text-size"),"text-bytes");
   while (t.size() < 200000 && more(style == 2 ? 120 : 9,"more-lines"))
   {
      size_t n = style == 0 ? draw(12,"len") : style == 1 ? sim::size_upto(20000,"len") : draw(120,"len");
      std::string l = sim::bytes(n,"line");
      for (char& c : l) if (c == '\n') c = ' ';
      t += l;
      t += flip("crlf") && sim::one_in(6,"cr") ? "\r\n" : "\n";
   }
   if (!t.empty() && flip("no-final-newline")) { if (flip("extra")) t += sim::bytes(1 + draw(30,"last"),"last-line"); else t.resize(t.size() - 1); }
   return t;
}
}
void sim_run()
{
   fs::profile(fs::draw_profile(fs::rd_faults & ~fs::seek_fail));
   const std::string F = "/sim/text";
   for (int k = 0; k < 6 && (k == 0 || more(3,"more")); ++k)
   {
      const std::string t = text();
      if (sim::one_in(10,"missing")) fs::erase(F); else fs::put(F,t);
      const bool exists = fs::exists(F);
      const model::strings want = model::lines(exists ? t : std::string());
      if (t.size() > 8191) sim::mark_nontrivial();
      const bool by_stream = flip("by-stream");
      std::ifstream* st = nullptr;
      size_t at = 0;                   // next line due on the stream
      bool dead = false;
      if (by_stream) { fs::Window win; st = new std::ifstream(F.c_str(),flip("binary") ? std::ios::in | std::ios::binary : std::ios::in); dead = !*st; }
      bool hard = by_stream && dead;
      const int rounds = by_stream ? 1 + int(draw(4,"rounds")) : 1;
      for (int round = 0; round < rounds; ++round)
      {
         const bool cond = flip("conditional"), bounded = flip("bounded");
         const size_t n = 1 + (flip("small-n") ? draw(4,"n") : draw(300,"n"));
         const long left = long(want.size() - at);
         const long throw_at = flip("throws") ? 1 + long(draw(uint32_t(left > 0 ? left : 0) + 2,"throw-at")) : -1;
         const long stop_at = cond ? 1 + long(draw(uint32_t(left > 0 ? left : 0) + 2,"stop-at")) : -1;
         static const size_t hints[] = { strtk::one_kilobyte, 0, 1, 16, 5000, 100000 };
         const size_t hint = hints[draw(6,"hint")];
         const uint32_t af = sim::one_in(8,"alloc?") ? sim::draw_alloc_fault(8,"alloc-at") : 0;
         std::vector<std::string> got;
         Rec rec = { &got, throw_at, stop_at };
         char name[60];
         snprintf(name,sizeof name,"for_each_line%s%s(%s)",bounded ? "_n" : "",cond ? "_conditional" : "",by_stream ? "stream" : "file");
         sim::Op op(name);
         size_t r = 0; bool threw = false, oom = false, fired = false;
         {
            fs::Window win;
            sim::AllocWindow aw(af);
            try
            {
               if (by_stream)
                  r = cond ? (bounded ? strtk::for_each_line_n_conditional(*st,n,Cond{rec},hint) : strtk::for_each_line_conditional(*st,Cond{rec},hint))
                           : (bounded ? strtk::for_each_line_n(*st,n,Plain{rec},hint) : strtk::for_each_line(*st,Plain{rec},hint));
               else
                  r = cond ? (bounded ? strtk::for_each_line_n_conditional(F,n,Cond{rec},hint) : strtk::for_each_line_conditional(F,Cond{rec},hint))
                           : (bounded ? strtk::for_each_line_n(F,n,Plain{rec},hint) : strtk::for_each_line(F,Plain{rec},hint));
            }
            catch (const Thrown&) { threw = true; }
            catch (const std::bad_alloc&) { oom = true; }
            fired = aw.fired();
         }
         if (oom && !fired) violate("spurious-bad-alloc","bad_alloc without an allocation failure");
         hard |= fs::hard_fired() || fired;
         logf("%s -> %zu, %zu calls%s%s",name,r,got.size(),threw ? ", callback threw" : "",oom ? ", bad_alloc" : "");
         if (got.size()) { char sh[20]; snprintf(sh,sizeof sh,"%zu",got.size() > 3 ? size_t(3) : got.size()); sim::shape(sh); }
         // what is due
         size_t due = size_t(left > 0 ? left : 0);
         bool stopped = false, thrown = false;
         if (bounded && n < due) due = n;
         if (cond && size_t(stop_at) <= due) { due = size_t(stop_at); stopped = true; }
         if (throw_at > 0 && size_t(throw_at) <= due) { due = size_t(throw_at); thrown = true; stopped = false; }
         if (thrown || stopped) sim::mark_nontrivial();
         // every delivered line is the next line of the file
         for (size_t i = 0; i < got.size(); ++i)
         {
            if (at + i >= want.size()) violate("extra-line","call %zu of the function has no line behind it: %s",i + 1,show(got[i]).c_str());
            if (got[i] != want[at + i]) violate("wrong-line","line %zu delivered as %s",at + i + 1,diff(got[i],want[at + i]).c_str());
         }
         if (got.size() > due) violate("too-many-calls","%zu calls, %zu due",got.size(),due);
         const bool complete = got.size() == due;
         if (!complete && !hard && !dead) violate("missing-lines","%zu of %zu lines delivered on a healthy disk",got.size(),due);
         if (threw != (thrown && complete) ) { if (!(thrown && complete)) violate("lost-exception","unexpected exception state"); if (!threw) violate("lost-exception","the callback threw, the caller saw nothing"); }
         if (!threw && !oom)
         {
            const size_t accepted = got.size() - ((stopped && complete) ? 1 : 0);
            if (r != accepted) violate("wrong-count","returned %zu after accepting %zu lines",r,accepted);
         }
         at += got.size();
         if (!complete || oom) { if (by_stream) dead = dead || !*st; if (dead) sim::probe("stream failed inside iteration"); }
         if (oom && by_stream && !dead && *st) { /* bad_alloc before reading: stream still usable */ }
         if (by_stream && !*st) dead = true;
         if (by_stream && flip("clear") && dead && !hard) { /* end of file: nothing more */ }
         if (round) sim::probe("resumed on the same stream");
      }
      delete st;
      no_open_files("line iteration");
      if (exists && fs::get(F) != t) violate("file-changed","reading changed the file");
   }
   sim::Op op("iterate after faults");
   fs::profile(fs::Profile{0,8});
   const std::string t = text(); fs::put(F,t);
   std::vector<std::string> got; Rec rec = { &got, -1, -1 };
   size_t r; { fs::Window win; r = strtk::for_each_line(F,Plain{rec}); }
   if (got != model::lines(t) || r != got.size()) violate("no-progress","%zu lines counted, %zu delivered, %zu in the file",r,got.size(),model::lines(t).size());
}
