// C08: read_pod / write_pod on streams and in memory.
#include "models.hpp"
#include <memory>
using namespace w;
PROPERTY("C08","one run: a history of plain values (1-10/12 scalars and structs per call, arrays, sequences, sets) written to a stream on a simulated disk and read back, with write errors, "
               "full disks, failing closes, kills, truncation at any byte, read errors, short and interrupted transfers, failing allocations; and the same values through exactly sized memory; "
               "non-trivial: a fault fired or the file was cut; distinct: different sequence of operations, faults and outcomes");
namespace {
typedef unsigned long long ull;
struct Rec { int a; short b; char c; char d; };
bool operator<(const Rec& x, const Rec& y) { return memcmp(&x,&y,sizeof x) < 0; }
template <typename T> T value(sim::Rng& r)
{
   T t; char b[sizeof(T)];
   const uint32_t style = r.below(4);
   for (size_t i = 0; i < sizeof b; ++i) b[i] = style == 0 ? char(r.below(3)) : style == 1 ? char(0xff) : char(r.next());
   memcpy(&t,b,sizeof b); return t;
}
template <> float value<float>(sim::Rng& r) { return float(r.below(100000)) / 8 - 500; }
template <> double value<double>(sim::Rng& r) { return double(r.next() >> 20) / 1024 - 77; }
template <typename T> std::string raw(const T& t) { return std::string(reinterpret_cast<const char*>(&t),sizeof t); }
struct Item
{
   virtual ~Item() {}
   virtual std::string bytes() = 0;
   virtual bool write(std::ofstream&) = 0;
   virtual unsigned char* write(unsigned char*) = 0;
   // reads; says what was read as bytes (for containers: only what was added)
   virtual bool read(std::ifstream&, std::string& got) = 0;
   virtual unsigned char* read(unsigned char*, std::string& got) = 0;
   virtual bool container() { return false; }
   virtual size_t unit() { return 0; }
   virtual const char* name() = 0;
   virtual std::string canon(const std::string& b) { return b; }   // sets: order and duplicates do not matter
};
struct V   // one value of every position
{
   int a; char b; double c; short d; ull e; Rec f; unsigned char g; float h; long i; unsigned int j; signed char k; long long l;
};
struct Tuple : Item
{
   int n; V v; bool mem;
   Tuple(int n_, sim::Rng& r, bool mem_) : n(n_), mem(mem_)
   {
      v.a = value<int>(r); v.b = value<char>(r); v.c = value<double>(r); v.d = value<short>(r); v.e = value<ull>(r); v.f = value<Rec>(r);
      v.g = value<unsigned char>(r); v.h = value<float>(r); v.i = value<long>(r); v.j = value<unsigned int>(r); v.k = value<signed char>(r); v.l = value<long long>(r);
   }
   static std::string bytes(const V& v, int n)
   {
      std::string s;
      switch (n)
      {
         case 12: s = raw(v.l) + s; case 11: s = raw(v.k) + s; case 10: s = raw(v.j) + s; case 9: s = raw(v.i) + s; case 8: s = raw(v.h) + s; case 7: s = raw(v.g) + s;
         case 6: s = raw(v.f) + s; case 5: s = raw(v.e) + s; case 4: s = raw(v.d) + s; case 3: s = raw(v.c) + s; case 2: s = raw(v.b) + s; default: s = raw(v.a) + s;
      }
      return s;
   }
   std::string bytes() { return bytes(v,n); }
   template <typename F, typename S> static auto call(F f, S& s, V& v, int n) -> decltype(f(s,v.a))
   {
      switch (n)
      {
         case 1 : return f(s,v.a);
         case 2 : return f(s,v.a,v.b);
         case 3 : return f(s,v.a,v.b,v.c);
         case 4 : return f(s,v.a,v.b,v.c,v.d);
         case 5 : return f(s,v.a,v.b,v.c,v.d,v.e);
         case 6 : return f(s,v.a,v.b,v.c,v.d,v.e,v.f);
         case 7 : return f(s,v.a,v.b,v.c,v.d,v.e,v.f,v.g);
         case 8 : return f(s,v.a,v.b,v.c,v.d,v.e,v.f,v.g,v.h);
         case 9 : return f(s,v.a,v.b,v.c,v.d,v.e,v.f,v.g,v.h,v.i);
         default: return f(s,v.a,v.b,v.c,v.d,v.e,v.f,v.g,v.h,v.i,v.j);
      }
   }
   struct Wr { template <typename... A> bool operator()(std::ofstream& s, A&... a) { return strtk::fileio::write_pod(s,a...); } };
   struct Rd { template <typename... A> bool operator()(std::ifstream& s, A&... a) { return strtk::fileio::read_pod(s,a...); } };
   struct Wm { template <typename... A> unsigned char* operator()(unsigned char* s, A&... a) { return strtk::write_pod(s,a...); } };
   struct Rm { template <typename... A> unsigned char* operator()(unsigned char* s, A&... a) { return strtk::read_pod(s,a...); } };
   bool write(std::ofstream& s) { return call(Wr(),s,v,n); }
   bool read(std::ifstream& s, std::string& got) { V x; memset(&x,0xa5,sizeof x); bool r = call(Rd(),s,x,n); got = bytes(x,n); return r; }
   unsigned char* write(unsigned char* p)
   {
      if (n == 11) return strtk::write_pod(p,v.a,v.b,v.c,v.d,v.e,v.f,v.g,v.h,v.i,v.j,v.k);
      if (n == 12) return strtk::write_pod(p,v.a,v.b,v.c,v.d,v.e,v.f,v.g,v.h,v.i,v.j,v.k,v.l);
      return call(Wm(),p,v,n);
   }
   unsigned char* read(unsigned char* p, std::string& got)
   {
      V x; memset(&x,0xa5,sizeof x); unsigned char* q;
      if (n == 11) q = strtk::read_pod(p,x.a,x.b,x.c,x.d,x.e,x.f,x.g,x.h,x.i,x.j,x.k);
      else if (n == 12) q = strtk::read_pod(p,x.a,x.b,x.c,x.d,x.e,x.f,x.g,x.h,x.i,x.j,x.k,x.l);
      else q = call(Rm(),p,x,n);
      got = bytes(x,n); return q;
   }
   const char* name() { static const char* const nm[] = {"","1 value","2 values","3 values","4 values","5 values","6 values","7 values","8 values","9 values","10 values","11 values","12 values"}; return nm[n]; }
};
template <typename T, size_t N> struct Arr : Item
{
   T t[N];
   Arr(sim::Rng& r) { for (size_t i = 0; i < N; ++i) t[i] = value<T>(r); }
   std::string bytes() { return std::string(reinterpret_cast<char*>(t),sizeof t); }
   bool write(std::ofstream& s) { return strtk::fileio::write_pod(s,t); }
   bool read(std::ifstream& s, std::string& got) { T x[N]; memset(x,0x5a,sizeof x); bool r = strtk::fileio::read_pod(s,x); got.assign(reinterpret_cast<char*>(x),sizeof x); return r; }
   unsigned char* write(unsigned char* p) { return strtk::write_pod(p,t); }
   unsigned char* read(unsigned char* p, std::string& got) { T x[N]; memset(x,0x5a,sizeof x); unsigned char* q = strtk::read_pod(p,x); got.assign(reinterpret_cast<char*>(x),sizeof x); return q; }
   const char* name() { return "array"; }
};
template <typename C> std::string all_raw(const C& c) { std::string s; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) s += raw(*i); return s; }
template <typename C> struct WrMem { static unsigned char* go(unsigned char* p, const C& c) { return strtk::write_pod(p,c); } };
// the in-memory writer takes contiguous sequences only
template <typename T> struct WrMem<std::list<T> > { static unsigned char* go(unsigned char* p, const std::list<T>& c) { return strtk::write_pod(p,std::vector<T>(c.begin(),c.end())); } };
template <typename T> struct WrMem<std::deque<T> > { static unsigned char* go(unsigned char* p, const std::deque<T>& c) { return strtk::write_pod(p,std::vector<T>(c.begin(),c.end())); } };
template <typename C> struct Cont : Item
{
   typedef typename C::value_type T;
   C c; const char* nm;
   Cont(const char* n, size_t count, sim::Rng& r) : nm(n) { for (size_t i = 0; i < count; ++i) c.insert(c.end(),value<T>(r)); }
   std::string bytes() { return all_raw(c); }
   bool write(std::ofstream& s) { const C& k = c; return strtk::fileio::write_pod(s,k); }
   bool read(std::ifstream& s, std::string& got)
   {
      C x; const size_t n = c.size();
      bool r;
      try { r = strtk::fileio::read_pod(s,n,x); }
      catch (...) { sim::NoFault nf; got = all_raw(x); throw; }
      sim::NoFault nf; got = all_raw(x);
      return r;
   }
   unsigned char* write(unsigned char* p) { return WrMem<C>::go(p,c); }
   unsigned char* read(unsigned char* p, std::string& got) { C x; const size_t n = c.size(); unsigned char* q = strtk::read_pod(p,n,x); got = all_raw(x); return q; }
   bool container() { return true; }
   size_t unit() { return sizeof(T); }
   const char* name() { return nm; }
   std::string canon(const std::string& b) { C x; for (size_t i = 0; i + sizeof(T) <= b.size(); i += sizeof(T)) { T t; memcpy(&t,b.data() + i,sizeof t); x.insert(x.end(),t); } return all_raw(x); }
};
template <typename T> Item* cont(size_t n, sim::Rng& r)
{
   switch (draw(5,"container"))
   {
      case 0 : return new Cont<std::vector<T> >("vector",n,r);
      case 1 : return new Cont<std::deque<T> >("deque",n,r);
      case 2 : return new Cont<std::list<T> >("list",n,r);
      case 3 : return new Cont<std::set<T> >("set",n,r);
      default: return new Cont<std::multiset<T> >("multiset",n,r);
   }
}
Item* make(bool mem)
{
   const uint32_t kind = draw(5,"item");
   const size_t n = kind == 4 ? (flip("long") ? draw(4000,"count") : draw(6,"count")) : 0;
   const uint32_t sub = draw(kind == 3 ? 6 : kind == 4 ? 5 : mem ? 12 : 10,"sub");
   sim::Rng r(draw(0xffffffffu,"values"));
   if (kind < 3) return new Tuple(1 + int(sub),r,mem);
   if (kind == 3)
      switch (sub)
      {
         case 0 : return new Arr<int,1>(r);
         case 1 : return new Arr<char,17>(r);
         case 2 : return new Arr<double,3>(r);
         case 3 : return new Arr<Rec,5>(r);
         case 4 : return new Arr<short,4096>(r);
         default: return new Arr<ull,2>(r);
      }
   switch (sub)
   {
      case 0 : return cont<int>(n,r);
      case 1 : return cont<double>(n,r);
      case 2 : return cont<Rec>(n,r);
      case 3 : return cont<unsigned char>(n,r);
      default: return cont<ull>(n,r);
   }
}
}
void sim_run()
{
   fs::profile(fs::draw_profile((fs::rd_faults | fs::wr_faults | fs::kill) & ~fs::seek_fail));
   const std::string F = "/sim/pods";
   for (int k = 0; k < 3 && (k == 0 || more(2,"more-files")); ++k)
   {
      std::vector<std::unique_ptr<Item> > items;
      std::string image; std::vector<size_t> start;
      for (int i = 0; i < 30 && more(6,"more-items"); ++i) { sim::NoFault nf; items.emplace_back(make(false)); start.push_back(image.size()); image += items.back()->bytes(); }
      start.push_back(image.size());
      // write
      {
         sim::Op op("write_pod");
         const std::string old = fs::get(F);
         bool failed = false, closed = false, opened = false;
         std::vector<char> ok(items.size());
         {
            fs::Window win;
            std::ofstream s(F.c_str(),std::ios::out | std::ios::binary); opened = bool(s);
            for (size_t i = 0; i < items.size(); ++i) ok[i] = items[i]->write(s);
            s.close(); closed = !s.fail();
         }
         size_t good = 0;
         for (size_t i = 0; i < items.size(); ++i)
         {
            if (!ok[i]) failed = true;
            else if (failed && items[i]->bytes().size()) violate("success-after-failure","write %zu (%s) reports success on a stream that had already failed",i,items[i]->name());
            if (ok[i] && !failed) ++good;
         }
         logf("wrote %zu of %zu items, close %d, %zu of %zu bytes on disk",good,items.size(),int(closed),fs::get(F).size(),image.size());
         sim::shape(failed ? "write-failed" : "written");
         if (fs::killed()) { fs::restart(); sim::probe("killed while writing"); }
         else
         {
            no_open_files("write_pod");
            if (failed && !fs::hard_fired()) violate("failure-without-cause","item %zu (%s) refused on a healthy disk",good,items[good]->name());
            if (opened && closed && !failed && fs::get(F) != image) violate("lost-values","every write and the close succeeded, but %s",diff(fs::get(F),image).c_str());
            if (!fs::hard_fired() && !closed) violate("failure-without-cause","the stream failed on a healthy disk");
         }
      }
      // read: what the writer left, or the complete image, perhaps cut
      if (flip("complete")) fs::put(F,image);
      if (sim::one_in(3,"cut") && !fs::get(F).empty()) { std::string t = fs::get(F); t.resize(draw(uint32_t(t.size()),"cut-at")); fs::put(F,t); sim::probe("file cut"); sim::mark_nontrivial(); }
      const std::string disk = fs::exists(F) ? fs::get(F) : std::string();
      const bool intact = image.compare(0,disk.size(),disk) == 0;
      {
         sim::Op op("read_pod");
         std::ifstream* s;
         { fs::Window win; s = new std::ifstream(F.c_str(),std::ios::in | std::ios::binary); }
         bool hard = fs::hard_fired() || !*s, dead = !*s;
         size_t at = 0;
         for (size_t i = 0; i < items.size() && intact; ++i)
         {
            const uint32_t af = sim::one_in(10,"alloc?") ? sim::draw_alloc_fault(8,"alloc-at") : 0;
            bool r = false, oom = false, fired; std::string got;
            {
               fs::Window win; sim::AllocWindow aw(items[i]->container() ? af : 0);
               try { r = items[i]->read(*s,got); } catch (const std::bad_alloc&) { oom = true; }
               fired = aw.fired();
            }
            hard |= fs::hard_fired() || fired;
            const std::string want = items[i]->bytes();
            logf("read %s -> %d%s",items[i]->name(),int(r),oom ? ", bad_alloc" : "");
            if (oom && !fired) violate("spurious-bad-alloc","bad_alloc without an allocation failure");
            if (r)
            {
               if (dead && want.size()) violate("success-after-failure","item %zu read from a failed stream",i);
               if (want.size() && at + want.size() > disk.size()) violate("invented-value","item %zu (%s) spans bytes %zu..%zu of a file of %zu bytes, yet was read",i,items[i]->name(),at,at + want.size(),disk.size());
               if (items[i]->canon(want) != got) violate("wrong-value","item %zu (%s) reads back differently: %s",i,items[i]->name(),diff(got,want).c_str());
            }
            else
            {
               if (!oom && !hard && at + want.size() <= disk.size()) violate("failure-without-cause","item %zu (%s) is completely in the file, read refused",i,items[i]->name());
               if (items[i]->container())
               {  // only whole values that are in the file
                  const size_t u = items[i]->unit(), there = std::min(want.size(),disk.size() > at ? disk.size() - at : 0) / u * u;
                  bool ok = false;
                  size_t lo = 0, hi = there / u;             // the number of distinct values grows with the prefix
                  while (lo < hi) { const size_t m = (lo + hi) / 2; if (items[i]->canon(want.substr(0,m * u)).size() < got.size()) lo = m + 1; else hi = m; }
                  ok = items[i]->canon(want.substr(0,lo * u)) == got;
                  if (!ok) violate("invented-value","a failed read of item %zu (%s) added values that are not in the file",i,items[i]->name());
               }
               dead = true;
               if (oom) break;
            }
            at += want.size();
         }
         if (fs::killed()) fs::restart();
         delete s;
         if (!fs::killed()) no_open_files("read_pod");
         if (fs::exists(F) && fs::get(F) != disk) violate("file-changed","reading changed the file");
      }
   }
   // in memory, exactly sized buffers
   for (int k = 0; k < 3 && more(1,"memory"); ++k)
   {
      sim::Op op("in-memory pods");
      std::vector<std::unique_ptr<Item> > items; std::string image;
      for (int i = 0; i < 12 && more(3,"more-items"); ++i) { items.emplace_back(make(true)); image += items.back()->bytes(); }
      std::unique_ptr<unsigned char[]> b(new unsigned char[image.size() + 1]);
      unsigned char* const base = b.get() + 1; // deliberately unaligned
      unsigned char* p = base;
      for (auto& i : items)
      {
         unsigned char* q = i->write(p);
         if (q != p + i->bytes().size()) violate("cursor","writing %s moved the cursor by %ld instead of %zu bytes",i->name(),long(q - p),i->bytes().size());
         p = q;
      }
      if (std::string(reinterpret_cast<char*>(base),image.size()) != image) violate("wrong-value","memory image: %s",diff(std::string(reinterpret_cast<char*>(base),image.size()),image).c_str());
      p = base;
      for (auto& i : items)
      {
         std::string got; unsigned char* q = i->read(p,got);
         if (q != p + i->bytes().size()) violate("cursor","reading %s moved the cursor by %ld instead of %zu bytes",i->name(),long(q - p),i->bytes().size());
         if (i->canon(i->bytes()) != got) violate("wrong-value","%s read back from memory: %s",i->name(),diff(got,i->bytes()).c_str());
         p = q;
      }
      sim::probe("memory round trip");
   }
}
