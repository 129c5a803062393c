// C06: load_from_text_file / write_to_text_file.
#include "models.hpp"
#include <queue>
#include <sstream>
#include <stack>
using namespace w;
PROPERTY("C06","one run: a history of saves and loads of containers of integers and strings through simulated files and streams with failing opens, write errors, full disks, failing "
               "closes, read errors, short and interrupted transfers, kills inside a save, allocation failures and unconvertible lines; "
               "non-trivial: a fault fired, or a line did not convert, or more than a stream buffer was moved; distinct: different sequence of operations, faults and outcomes");
namespace {
// access to the contents of every container kind, in insertion order where it has one, else sorted
template <typename C> struct Seq
{
   typedef typename C::value_type T;
   C c;
   void add(const T& t) { c.push_back(t); }
   std::vector<T> all() const { return std::vector<T>(c.begin(),c.end()); }
   static std::vector<T> expect(std::vector<T> v) { return v; }
   size_t save(const std::string& f, const std::string& d) { return strtk::write_to_text_file(f,c,d); }
   size_t save(std::ostream& f, const std::string& d) { return strtk::write_to_text_file(f,c,d); }
   static const bool saves = true;
};
template <typename C> struct Assoc
{
   typedef typename C::value_type T;
   C c;
   void add(const T& t) { c.insert(t); }
   std::vector<T> all() const { return std::vector<T>(c.begin(),c.end()); }
   static std::vector<T> expect(const std::vector<T>& v) { C x(v.begin(),v.end()); return std::vector<T>(x.begin(),x.end()); }
   size_t save(const std::string& f, const std::string& d) { return strtk::write_to_text_file(f,c,d); }
   size_t save(std::ostream& f, const std::string& d) { return strtk::write_to_text_file(f,c,d); }
   static const bool saves = true;
};
template <typename C> struct Adapt   // queue, stack, priority_queue
{
   typedef typename C::value_type T;
   C c;
   void add(const T& t) { c.push(t); }
   static const T& front(const std::queue<T>& q) { return q.front(); }
   static const T& front(const std::stack<T>& q) { return q.top(); }
   static const T& front(const std::priority_queue<T>& q) { return q.top(); }
   std::vector<T> all() const { C x(c); std::vector<T> v; while (!x.empty()) { v.push_back(front(x)); x.pop(); } return v; }
   static std::vector<T> expect(const std::vector<T>& v) { Adapt a; for (size_t i = 0; i < v.size(); ++i) a.c.push(v[i]); return a.all(); }
   size_t save(const std::string&, const std::string&) { return 0; }
   size_t save(std::ostream&, const std::string&) { return 0; }
   static const bool saves = false;
};
const std::string F = "/sim/data", G = "/sim/other";
std::string str(const std::string& s) { return s; }
std::string str(int i) { return std::to_string(i); }
std::string str(unsigned long long i) { return std::to_string(i); }
std::string str(long i) { return std::to_string(i); }
std::string str(short i) { return std::to_string(i); }
void make(std::string& t)
{
   sim::NoFault nf;
   t = sim::bytes(sim::size_upto(sim::one_in(20,"huge") ? 30000 : 24,"len"),"string");
}
void make(int& t) { t = int(uint32_t(sim::u64("int"))); }
void make(unsigned long long& t) { t = sim::u64("u64"); }
void make(long& t) { t = long(sim::u64("long") >> draw(64,"shift")); if (flip("negative")) t = t > 0 ? -t : t; }
void make(short& t) { t = short(sim::u64("short")); }
template <typename T> bool convertible(const std::string& s, T& t) { return model::conv<T>::get(s,t); }

template <typename H> void round_()
{
   typedef typename H::T T;
   H h;
   std::vector<T> in;
   const int n = sim::one_in(4,"many") ? int(draw(3000,"count")) : int(draw(12,"count"));
   if (n > 100)
   {  // one draw expands to many elements
      sim::Rng r(draw(0xffffffffu,"elements"));
      for (int i = 0; i < n; ++i)
      {
         T t = T(); std::string s = std::to_string(r.next() >> (r.below(60) + 4));
         if (!convertible(s,t)) continue;
         in.push_back(t);
      }
   }
   else for (int i = 0; i < n; ++i) { T t; make(t); in.push_back(t); }
   for (size_t i = 0; i < in.size(); ++i) h.add(in[i]);
   const std::vector<T> content = h.all();
   static const char* const delims[] = { "\n", ",", "", "\r\n", ";;", " | " };
   const std::string d = delims[flip("newline") ? 0 : draw(6,"delimiter")];
   std::string image; std::vector<size_t> cut(1,0);
   for (size_t i = 0; i < content.size(); ++i) { image += str(content[i]) + d; cut.push_back(image.size()); }
   const std::string other = fs::get(G);
   if (H::saves && flip("save"))
   {
      const bool stream = sim::one_in(3,"to-stream");
      const std::string old = fs::get(F);
      const std::string name = stream ? "write_to_text_file(stream)" : "write_to_text_file(file)";
      sim::Op op(name.c_str());
      size_t r; bool closed = true;
      {
         fs::Window win;
         if (stream) { std::ofstream s(F.c_str()); r = h.save(s,d); s.close(); closed = !s.fail(); }
         else r = h.save(F,d);
      }
      const std::string& now = fs::get(F);
      logf("%s: %zu of %zu, file %zu of %zu bytes",name.c_str(),r,content.size(),now.size(),image.size());
      if (image.size() > 8191) sim::mark_nontrivial();
      sim::shape(r == content.size() ? "full" : r ? "part" : "none");
      if (fs::killed())
      {
         if (!fs::hard_before_kill() && now != old && image.compare(0,now.size(),now) != 0) violate("kill-garbage","after a kill the file holds neither the old contents nor a prefix: %s",diff(now,image).c_str());
         fs::restart();
      }
      else
      {
         if (r > content.size()) violate("count-too-big","%zu elements counted, the container has %zu",r,content.size());
         if (stream ? (closed && now != image.substr(0,cut[r])) : (r == content.size() && r && now != image))
            violate("saved-count-lies","%zu of %zu elements reported, but %s",r,content.size(),diff(now,image).c_str());
         if (!stream && r == content.size() && content.empty() && fs::exists(F) && !fs::hard_fired() && !now.empty()) violate("saved-count-lies","nothing to save, file not empty");
         if (!fs::hard_fired() && (r != content.size() || now != image)) violate("save-failed","healthy disk: %zu of %zu elements, %s",r,content.size(),diff(now,image).c_str());
         no_open_files("saving");
      }
   }
   else
   {
      std::string t = d == "\n" ? image : std::string();
      if (d != "\n" || flip("mangle"))
      {
         for (int k = 0; k < 20 && more(2,"more-lines"); ++k)
         {
            std::string l = flip("junk") ? sim::bytes(draw(10,"len"),"junk") : model::number(draw(6,"kind"),sim::u64("number"));
            t += l + (sim::one_in(8,"no-newline") ? "" : "\n");
         }
      }
      fs::put(F,t);
   }
   // load into a container that may already hold something
   H l;
   std::vector<T> had;
   for (int k = 0; k < 5 && more(1,"preloaded"); ++k) { T t; make(t); had.push_back(t); l.add(t); }
   if (sim::one_in(12,"missing")) fs::erase(F);
   const std::string t = fs::get(F);
   const model::strings lines = model::lines(t);
   std::vector<T> want; size_t bad = size_t(-1);
   for (size_t i = 0; i < lines.size(); ++i)
   {
      T v = T();
      if (!convertible(lines[i],v)) { bad = i; break; }
      want.push_back(v);
   }
   const bool stream = sim::one_in(3,"from-stream");
   const uint32_t af = sim::one_in(6,"alloc?") ? sim::draw_alloc_fault(40,"alloc-at") : 0;
   const std::string name = stream ? "load_from_text_file(stream)" : "load_from_text_file(file)";
   sim::Op op(name.c_str());
   size_t r = 0; bool threw = false, oom = false, fired;
   {
      fs::Window win;
      std::ifstream s; if (stream) s.open(F.c_str());
      sim::AllocWindow aw(af);
      try { if (stream) r = strtk::load_from_text_file(s,l.c); else r = strtk::load_from_text_file(F,l.c,flip("hint") ? strtk::one_kilobyte : draw(5000,"hint")); }
      catch (const std::invalid_argument&) { threw = true; }
      catch (const std::bad_alloc&) { oom = true; }
      fired = aw.fired();
   }
   if (oom && !fired) violate("spurious-bad-alloc","bad_alloc without an allocation failure");
   const bool hard = fs::hard_fired() || fired;
   if (fs::killed()) { fs::restart(); return; }        // the container died with the process
   logf("%s: %zu of %zu lines%s%s",name.c_str(),r,lines.size(),threw ? ", invalid_argument" : "",oom ? ", bad_alloc" : "");
   if (threw) { sim::mark_nontrivial(); sim::shape("unconvertible"); }
   std::vector<T> got = l.all();
   // which prefix of the lines was added?
   size_t k = r;
   std::vector<T> v = had; 
   if (threw || oom)
   {
      size_t best = size_t(-1);
      for (size_t i = 0; i <= want.size(); ++i)
      {
         if (v.size() >= got.size() && H::expect(v) == got) { best = i; if (!oom && i == bad) break; if (oom) break; }
         if (i < want.size()) v.push_back(want[i]);
      }
      if (best == size_t(-1)) violate("load-mismatch","after an exception the container holds no prefix of the file's lines on top of what it had");
      if (threw && !hard && (bad == size_t(-1) || best != bad)) violate("load-mismatch","invalid_argument after %zu elements, line %zu is the first that does not convert",best,bad + 1);
      if (threw && bad == size_t(-1) && !fired) violate("load-mismatch","invalid_argument although every line converts");
   }
   else
   {
      if (k > want.size()) violate("load-count","%zu lines counted, %zu convert",k,want.size());
      for (size_t i = 0; i < k; ++i) v.push_back(want[i]);
      if (H::expect(v) != got) violate("load-mismatch","%zu lines reported; the container holds %zu elements which are not those lines on top of the %zu it had",r,got.size(),had.size());
      if (bad != size_t(-1) && !hard) violate("load-mismatch","line %zu does not convert but no exception came",bad + 1);
      if (!hard && k != lines.size()) violate("load-count","%zu of %zu lines on a healthy disk",k,lines.size());
   }
   no_open_files("loading");
   if (fs::get(F) != t) violate("file-changed","loading changed the file");
   if (fs::get(G) != other) violate("other-file-changed","an uninvolved file changed");
}
template <typename T> void kinds()
{
   switch (draw(8,"container"))
   {
      case 0 : sim::shape("vector"); round_<Seq<std::vector<T> > >(); break;
      case 1 : sim::shape("deque"); round_<Seq<std::deque<T> > >(); break;
      case 2 : sim::shape("list"); round_<Seq<std::list<T> > >(); break;
      case 3 : sim::shape("set"); round_<Assoc<std::set<T> > >(); break;
      case 4 : sim::shape("multiset"); round_<Assoc<std::multiset<T> > >(); break;
      case 5 : sim::shape("queue"); round_<Adapt<std::queue<T> > >(); break;
      case 6 : sim::shape("stack"); round_<Adapt<std::stack<T> > >(); break;
      default: sim::shape("priority_queue"); round_<Adapt<std::priority_queue<T> > >(); break;
   }
}
}
void sim_run()
{
   fs::profile(fs::draw_profile((fs::rd_faults & ~fs::seek_fail) | fs::wr_faults | fs::kill));
   fs::put(G,"uninvolved");
   for (int k = 0; k < 6 && (k == 0 || more(3,"more")); ++k)
      switch (draw(5,"type"))
      {
         case 0 : kinds<int>(); break;
         case 1 : kinds<std::string>(); break;
         case 2 : kinds<long>(); break;
         case 3 : kinds<short>(); break;
         default: kinds<unsigned long long>(); break;
      }
   sim::Op op("round trip after faults");
   fs::profile(fs::Profile{0,8});
   std::vector<int> v; for (int i = 0; i < 40; ++i) v.push_back(i * 7919 - 50);
   std::list<int> l; size_t a, b;
   { fs::Window win; a = strtk::write_to_text_file(F,v,"\n"); b = strtk::load_from_text_file(F,l); }
   if (a != 40 || b != 40 || std::vector<int>(l.begin(),l.end()) != v) violate("no-progress","round trip on a healthy disk: wrote %zu, read %zu of 40",a,b);
}
