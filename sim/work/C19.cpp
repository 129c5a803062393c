// C19: util::timer over a simulated clock.
#include "work.hpp"
#include <memory>
using namespace w;
PROPERTY("C19","one run: a history of starts, stops, repeated starts and stops, copies, readings and scoped timers (also left by an exception) over a simulated clock that advances, jumps forward by up to decades and backward inside a second, "
               "across second boundaries and by years; every reading compared with the clock readings the simulator handed out; "
               "non-trivial: the clock jumped; distinct: different sequence of operations, jumps and outcomes");
struct M { int64_t start, stop; bool running; };
typedef unsigned long long ull;
static void check(const strtk::util::timer& t, const M& m, const char* when)
{
   const ull none = std::numeric_limits<ull>::max();
   const ull want = (m.running || m.stop < m.start) ? none : ull(m.stop - m.start);
   const ull got = t.usec_time();
   if (t.in_use() != m.running) violate("in-use","%s: in_use() is %d",when,int(t.in_use()));
   if (got != want) violate(m.running ? "reading-while-running" : m.stop < m.start ? "clock-set-back" : "elapsed-time","%s: usec_time() is %llu instead of %llu (start %lld, stop %lld)",when,got,want,(long long)m.start,(long long)m.stop);
   const double s = t.time(), ws = double(want) * 0.000001;
   if (!(s >= ws * (1 - 1e-12) && s <= ws * (1 + 1e-12))) violate("seconds","%s: time() is %.9f instead of %.9f",when,s,ws);
   if (t.usec_time() != got || t.time() != s) violate("elapsed-time","%s: a second reading differs",when);
}
static void tick(bool& jumped)
{
   const int64_t now = sim::now_us();
   int64_t d = 0;
   switch (draw(9,"clock"))
   {
      case 0 : d = 0; break;
      case 1 : d = 1 + draw(1000,"us"); break;
      case 2 : d = 1000000 - now % 1000000 - draw(2,"before-second"); break;             // to the next second
      case 3 : d = int64_t(draw(100,"s")) * 1000000; break;
      case 4 : d = int64_t(draw(2000000000,"big-s")) * 1000000 + draw(1000000,"us"); sim::fault_fired("clock jumps forward"); jumped = true; break;
      case 5 : d = -int64_t(draw(uint32_t(now % 1000000 + 1),"back-us")); sim::fault_fired("clock set back within the second"); jumped = true; break;
      case 6 : d = -(int64_t(draw(100,"back-s")) * 1000000 + draw(1000000,"us")); sim::fault_fired("clock set back"); jumped = true; break;
      case 7 : d = -int64_t(draw(1000000000,"back-big-s")) * 1000000; sim::fault_fired("clock set back"); jumped = true; break;
      default: d = int64_t(draw(3000000,"us")); break;
   }
   sim::clock_set(std::max<int64_t>(1,now + d));
}
void sim_run()
{
   sim::want_second_pass();
   sim::clock_set(1500000000ll * 1000000 + draw(1000000,"epoch-us"));
   std::unique_ptr<strtk::util::timer> t(new strtk::util::timer);
   M m = { 0, 0, false };
   check(*t,m,"new timer");
   bool jumped = false;
   for (int k = 0; k < 60 && more(14,"more"); ++k)
   {
      tick(jumped);
      if (jumped) sim::mark_nontrivial();
      switch (draw(8,"op"))
      {
         case 0 : case 1 : { sim::Op op("start"); t->start(); m.start = sim::now_us(); m.running = true; break; }
         case 2 : case 3 : case 4 : { sim::Op op("stop"); t->stop(); m.stop = sim::now_us(); m.running = false; break; }
         case 5 : { sim::Op op("copy"); std::unique_ptr<strtk::util::timer> c(new strtk::util::timer(*t)); t.reset(); t.swap(c); break; }
         default:
         {
            sim::Op op("scoped timer");
            double v = -1.0; const int64_t from = sim::now_us(); const bool boom = flip("throw");
            if (boom) sim::fault_fired("exception leaves the timed scope");
            try
            {
               strtk::util::scoped_timer st(v);
               if (v != -1.0) violate("scoped","the result changed before the end of the scope");
               tick(jumped);
               if (boom) throw 1;
            }
            catch (int) {}
            const int64_t to = sim::now_us();
            const double want = to < from ? double(std::numeric_limits<ull>::max()) * 0.000001 : double(to - from) * 0.000001;
            if (!(v >= want * (1 - 1e-12) && v <= want * (1 + 1e-12))) violate("scoped","scoped timer says %.9f instead of %.9f",v,want);
            break;
         }
      }
      sim::shape(m.running ? "running" : m.stop < m.start ? "back" : "read");
      logf("start %lld stop %lld running %d -> %llu",(long long)m.start,(long long)m.stop,int(m.running),t->usec_time());
      check(*t,m,"reading");
   }
}
