// C07: parse_line / parse_line_n / read_line_as_value on a stream.
#include "models.hpp"
#include <queue>
#include <stack>
using namespace w;
PROPERTY("C07","one run: a stream over a simulated file of records (well-formed, malformed, short, long, empty lines; 1-12 fields, containers, single values) consumed by a history of "
               "record-parser calls of varying shape, with read errors, short and interrupted reads, failing opens and allocation failures; "
               "non-trivial: a fault fired, a line was malformed, or the file exceeded a stream buffer; distinct: different sequence of operations, faults and outcomes");
namespace {
typedef unsigned long long ull;
static const char* const delim_sets[] = { ",", ",;|", " \t", "|", ", " };
struct Targets   // values of every parameter position, kept as text to compare
{
   int i[12]; std::string s[12]; ull u[12]; short h[12];
   Targets() { for (int k = 0; k < 12; ++k) { i[k] = -77000 - k; s[k] = "untouched"; s[k] += char('a' + k); u[k] = 990000 + k; h[k] = short(-500 - k); } }
};
// position k of shape v: its type by a fixed pattern
template <int K> struct Mixed; // int, string, ull, short, ...
#define MT(K,M) template <> struct Mixed<K> { static auto& of(Targets& t) { return t.M[K]; } };
MT(0,i) MT(1,s) MT(2,u) MT(3,h) MT(4,s) MT(5,i) MT(6,i) MT(7,u) MT(8,s) MT(9,h) MT(10,i) MT(11,s)
#undef MT
static const char kinds[] = "isuhsiiushis";
template <int K> struct Same { static int& of(Targets& t) { return t.i[K]; } };
#define A(n) P<n>::of(t)
template <template <int> class P> bool parse_line_(std::ifstream& s, const std::string& d, Targets& t, int n)
{
   using strtk::parse_line;
   switch (n)
   {
      case 1 : return parse_line(s,d,A(0));
      case 2 : return parse_line(s,d,A(0),A(1));
      case 3 : return parse_line(s,d,A(0),A(1),A(2));
      case 4 : return parse_line(s,d,A(0),A(1),A(2),A(3));
      case 5 : return parse_line(s,d,A(0),A(1),A(2),A(3),A(4));
      case 6 : return parse_line(s,d,A(0),A(1),A(2),A(3),A(4),A(5));
      case 7 : return parse_line(s,d,A(0),A(1),A(2),A(3),A(4),A(5),A(6));
      case 8 : return parse_line(s,d,A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7));
      case 9 : return parse_line(s,d,A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8));
      case 10: return parse_line(s,d,A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9));
      case 11: return parse_line(s,d,A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9),A(10));
      default: return parse_line(s,d,A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9),A(10),A(11));
   }
}
#undef A
char kind_of(bool mixed, int k) { return mixed ? kinds[k] : 'i'; }
bool field(char kind, int k, const std::string& tok, Targets& t)
{
   switch (kind)
   {
      case 'i': return model::integer(tok,t.i[k]);
      case 'u': return model::integer(tok,t.u[k]);
      case 'h': return model::integer(tok,t.h[k]);
      default : t.s[k] = tok; return true;
   }
}
bool same(char kind, int k, const Targets& a, const Targets& b)
{
   switch (kind)
   {
      case 'i': return a.i[k] == b.i[k];
      case 'u': return a.u[k] == b.u[k];
      case 'h': return a.h[k] == b.h[k];
      default : return a.s[k] == b.s[k];
   }
}
std::string value(char kind, int k, const Targets& a)
{
   switch (kind)
   {
      case 'i': return std::to_string(a.i[k]);
      case 'u': return std::to_string(a.u[k]);
      case 'h': return std::to_string(a.h[k]);
      default : return a.s[k];
   }
}
std::string record(const std::string& d)
{
   sim::NoFault nf;
   const uint32_t style = draw(6,"record-style");
   if (style == 5) { std::string l = sim::bytes(sim::size_upto(sim::one_in(10,"over-long") ? 20000 : 60,"len"),"junk"); for (char& c : l) if (c == '\n') c = ' '; return l; }
   if (style == 4) return "";
   std::string l;
   const int n = style == 3 ? int(draw(40,"fields")) : int(draw(14,"fields"));
   const bool mixed = flip("mixed");
   const int wide = sim::one_in(12,"wide-field") ? int(draw(3,"which")) : -1;
   for (int k = 0; k < n; ++k)
   {
      if (k) l += d[draw(uint32_t(d.size()),"delim")];
      if (style == 2 && sim::one_in(5,"stutter")) l += d[draw(uint32_t(d.size()),"delim")];
      const char kd = kind_of(mixed,k % 12);
      if (style == 1 && sim::one_in(7,"bad")) { l += flip("empty") ? "" : flip("letters") ? "x1" : "12x"; continue; }
      if (style == 1 && sim::one_in(9,"wide")) { l += model::number(draw(6,"number-kind"),sim::u64("number")); continue; }
      if (k == wide) { l += std::string(sim::size_upto(sim::one_in(5,"huge") ? 20000 : 5000,"width"),kd == 's' ? 'w' : '0') + '1'; continue; }
      if (kd == 's') { std::string v; for (uint32_t m = draw(9,"word-len"); m; --m) v += char('a' + draw(26,"letter")); l += v.empty() ? std::string("w") : v; }
      else if (kd == 'i') l += std::to_string(int(uint32_t(sim::u64("int"))));
      else if (kd == 'h') l += std::to_string(int(int16_t(sim::u64("short"))));
      else l += std::to_string(ull(sim::u64("u64")));
   }
   if (style == 2 && flip("trailing")) l += d[0];
   if (style == 2 && flip("leading")) l = d[0] + l;
   return l;
}
// container targets
template <typename C> struct Push { typedef typename C::value_type T; static void add(C& c, const T& t) { c.push_back(t); } static std::vector<T> all(const C& c) { return std::vector<T>(c.begin(),c.end()); } };
template <typename C> struct Ins  { typedef typename C::value_type T; static void add(C& c, const T& t) { c.insert(t); } static std::vector<T> all(const C& c) { return std::vector<T>(c.begin(),c.end()); } };
template <typename C> struct Que
{
   typedef typename C::value_type T;
   static void add(C& c, const T& t) { c.push(t); }
   static const T& front(const std::queue<T>& q) { return q.front(); }
   static const T& front(const std::stack<T>& q) { return q.top(); }
   static const T& front(const std::priority_queue<T>& q) { return q.top(); }
   static std::vector<T> all(C c) { std::vector<T> v; while (!c.empty()) { v.push_back(front(c)); c.pop(); } return v; }
};
struct Outcome { bool called_ok; bool oom; };

struct Ctx
{
   std::ifstream* s; std::string d; const model::strings* lines; std::vector<size_t> start; size_t at; size_t size;
   bool hard; bool dead;
   size_t pos() { return size_t(std::streamoff(s->rdbuf()->pubseekoff(0,std::ios::cur,std::ios::in))); }
};
// after a call: how far did the stream advance? returns true if exactly one line was consumed
void advance(Ctx& c, bool fired)
{
   if (c.dead) return;
   if (!*c.s && !c.s->eof()) { if (!c.hard) violate("stream-state","the stream failed at line %zu without a cause",c.at + 1); c.dead = true; return; }
   if (c.at >= c.lines->size()) { if (!*c.s) c.dead = true; return; }
   if (!*c.s) { if (!c.hard) violate("stream-state","the stream failed although line %zu was there",c.at + 1); c.dead = true; return; }
   const size_t p = c.pos();
   const size_t next = c.at + 1 < c.lines->size() ? c.start[c.at + 1] : c.size;
   if (p == next) ++c.at;
   else if (!(fired && p == c.start[c.at])) violate("wrong-consumption","line %zu spans bytes %zu..%zu; after the call the stream is at %zu",c.at + 1,c.start[c.at],next,p);
}
template <typename H, typename C> void container(Ctx& c, const char* kind)
{
   typedef typename C::value_type T;
   C target; 
   for (int k = 0; k < 3 && more(1,"preloaded"); ++k) { T t = T(); model::conv<T>::get(std::to_string(100 + draw(50,"pre")),t); H::add(target,t); }
   const C before(target);
   const bool bounded = flip("bounded"), compress = flip("compress");
   const size_t n = flip("exact") ? sim::size_upto(20,"n") : draw(5,"n");
   const strtk::split_options::type opt = compress ? strtk::split_options::compress_delimiters : strtk::split_options::default_mode;
   const uint32_t af = sim::one_in(8,"alloc?") ? sim::draw_alloc_fault(14,"alloc-at") : 0;
   char name[60]; snprintf(name,sizeof name,"parse_line%s(%s)",bounded ? "_n" : "",kind);
   sim::Op op(name);
   size_t r = 0; bool oom = false, fired;
   const bool was_dead = c.dead;
   {
      fs::Window win; sim::AllocWindow aw(af);
      try { r = bounded ? strtk::parse_line_n(*c.s,c.d,n,target,opt) : strtk::parse_line(*c.s,c.d,target,opt); }
      catch (const std::bad_alloc&) { oom = true; }
      fired = aw.fired();
   }
   c.hard |= fs::hard_fired() || fired;
   logf("%s -> %zu%s",name,r,oom ? ", bad_alloc" : "");
   sim::shape(r ? "got" : "none");
   if (oom && !fired) violate("spurious-bad-alloc","bad_alloc without an allocation failure");
   const size_t line = c.at;
   advance(c,fired);
   const std::vector<T> got = H::all(target);
   C want(before); size_t added = 0, fields = 0;
   std::vector<C> steps(1,want);
   if (!was_dead && line < c.lines->size())
   {
      const model::strings tok = c.d.empty() ? model::strings() : model::tokens((*c.lines)[line],c.d,compress);   // no delimiters: refused
      for (size_t i = 0; i < tok.size() && !(bounded && i >= n); ++i)
      {
         T t = T(); ++fields;
         if (!model::conv<T>::get(tok[i],t)) { sim::mark_nontrivial(); continue; }
         H::add(want,t); steps.push_back(want);
      }
   }
   added = H::all(want).size() - H::all(before).size();
   if (!bounded) added = fields;                // the unbounded form reports the fields of the line
   if (got == H::all(want) && !oom && r == added) { if (line < c.lines->size() && !was_dead && c.at == line && added) violate("wrong-consumption","values delivered, line not consumed"); return; }
   if (c.hard && !oom && r == 0 && got == H::all(before)) return;      // read failed
   if (oom) { for (size_t i = 0; i < steps.size(); ++i) if (got == H::all(steps[i])) return; violate("container-mismatch","after bad_alloc the container holds no prefix of the line's values"); }
   violate("container-mismatch","line %zu %s: returned %zu of %zu values, container %s the expected one",line + 1,show(line < c.lines->size() ? (*c.lines)[line] : "").c_str(),r,added,got == H::all(want) ? "is" : "differs from");
}
template <typename T> void containers(Ctx& c)
{
   switch (draw(8,"container"))
   {
      case 0 : container<Push<std::vector<T> >,std::vector<T> >(c,"vector"); break;
      case 1 : container<Push<std::deque<T> >,std::deque<T> >(c,"deque"); break;
      case 2 : container<Push<std::list<T> >,std::list<T> >(c,"list"); break;
      case 3 : container<Ins<std::set<T> >,std::set<T> >(c,"set"); break;
      case 4 : container<Ins<std::multiset<T> >,std::multiset<T> >(c,"multiset"); break;
      case 5 : container<Que<std::queue<T> >,std::queue<T> >(c,"queue"); break;
      case 6 : container<Que<std::stack<T> >,std::stack<T> >(c,"stack"); break;
      default: container<Que<std::priority_queue<T> >,std::priority_queue<T> >(c,"priority_queue"); break;
   }
}
void fields(Ctx& c)
{
   const int n = 1 + int(draw(12,"arity"));
   const bool mixed = flip("mixed"), value_form = n == 1 && flip("as-value");
   const uint32_t af = sim::one_in(8,"alloc?") ? sim::draw_alloc_fault(14,"alloc-at") : 0;
   Targets t;
   char name[60]; snprintf(name,sizeof name,value_form ? "read_line_as_value" : "parse_line(%d fields)",n);
   sim::Op op(name);
   bool r = false, oom = false, fired; const bool was_dead = c.dead;
   {
      fs::Window win; sim::AllocWindow aw(af);
      try
      {
         if (value_form) r = mixed ? strtk::read_line_as_value(*c.s,t.s[0]) : strtk::read_line_as_value(*c.s,t.i[0],draw(3000,"hint"));
         else r = mixed ? parse_line_<Mixed>(*c.s,c.d,t,n) : parse_line_<Same>(*c.s,c.d,t,n);
      }
      catch (const std::bad_alloc&) { oom = true; }
      fired = aw.fired();
   }
   if (oom && !fired) violate("spurious-bad-alloc","bad_alloc without an allocation failure");
   c.hard |= fs::hard_fired() || fired;
   logf("%s -> %d%s",name,int(r),oom ? ", bad_alloc" : "");
   sim::shape(r ? "ok" : "no");
   const size_t line = c.at;
   advance(c,fired);
   const Targets fresh;
   Targets want; bool ok = false; size_t have = 0;
   const char k0 = value_form && mixed ? 's' : 0;
   if (!was_dead && line < c.lines->size())
   {
      const std::string& l = (*c.lines)[line];
      const model::strings tok = value_form ? model::strings(1,l) : c.d.empty() ? model::strings() : model::tokens(l,c.d,true);
      have = tok.size();
      ok = have >= size_t(n);
      for (int k = 0; k < n && k < int(have); ++k)
         if (!field(k0 ? k0 : kind_of(mixed,k),k,tok[k],want)) { ok = false; sim::mark_nontrivial(); }
   }
   if (!ok && line < c.lines->size()) { sim::mark_nontrivial(); sim::probe("malformed record"); }
   // every target is either as before or exactly its field
   for (int k = 0; k < 12; ++k)
   {
      const char kd = k0 && k == 0 ? k0 : kind_of(mixed,k);
      const bool unchanged = same(kd,k,t,fresh), right = same(kd,k,t,want);
      if (!unchanged && (!right || k >= n)) violate("invented-field","target %d is %s, its field of line %zu is %s",k + 1,show(value(kd,k,t)).c_str(),line + 1,show(value(kd,k,want)).c_str());
      if (r && !right) violate("success-without-value","success, but target %d is %s instead of %s",k + 1,show(value(kd,k,t)).c_str(),show(value(kd,k,want)).c_str());
   }
   if (r && !ok) violate("success-on-malformed","success on line %zu %s with %zu fields",line + 1,show(line < c.lines->size() ? (*c.lines)[line] : "<none>").c_str(),have);
   if (r && c.at == line) violate("wrong-consumption","success without consuming the line");
   if (!r && ok && !c.hard) violate("failure-without-cause","well-formed line %zu %s refused",line + 1,show((*c.lines)[line]).c_str());
}
}
void sim_run()
{
   fs::profile(fs::draw_profile(fs::rd_faults & ~fs::seek_fail));
   const std::string F = "/sim/records";
   for (int k = 0; k < 3 && (k == 0 || more(2,"more-files")); ++k)
   {
      Ctx c; c.d = delim_sets[draw(5,"delims")]; c.at = 0; c.hard = c.dead = false;
      std::string t;
      { sim::NoFault nf; while (t.size() < 100000 && more(flip("many") ? 60 : 6,"more-lines")) { t += record(c.d); t += '\n'; }
        if (t.size() && flip("no-final-newline")) t.resize(t.size() - 1); }
      if (sim::one_in(12,"no-delimiters")) c.d.clear();
      fs::put(F,t);
      if (t.size() > 8191) sim::mark_nontrivial();
      const model::strings lines = model::lines(t);
      c.lines = &lines; c.size = t.size();
      for (size_t i = 0, p = 0; i < lines.size(); ++i) { c.start.push_back(p); p += lines[i].size() + 1; }
      std::ifstream* s;
      { fs::Window win; s = new std::ifstream(F.c_str(),std::ios::in | std::ios::binary); c.hard = fs::hard_fired(); }
      c.s = s; if (!*s) c.dead = true;
      for (int j = 0; j < 40 && more(8,"more-calls"); ++j)
      {
         switch (draw(4,"call")) { case 0: case 1: fields(c); break; case 2: containers<int>(c); break; default: containers<std::string>(c); break; }
         if (c.dead && j > 2 && flip("stop")) break;
      }
      delete s;
      no_open_files("record parsing");
      if (fs::get(F) != t) violate("file-changed","reading changed the file");
   }
   sim::Op op("parse after faults");
   fs::profile(fs::Profile{0,8});
   fs::put(F,"12,abc,34\nx,y\n56,def,78");
   std::ifstream s(F.c_str()); int a = 0, b = 0; std::string m; bool r[4];
   { fs::Window win; r[0] = strtk::parse_line(s,",",a,m,b); }
   if (!r[0] || a != 12 || m != "abc" || b != 34) violate("no-progress","first record not parsed on a healthy disk");
   { fs::Window win; r[1] = strtk::parse_line(s,",",a,m,b); r[2] = strtk::parse_line(s,",",a,m,b); r[3] = strtk::parse_line(s,",",a,m,b); }
   if (r[1] || !r[2] || r[3] || a != 56 || m != "def" || b != 78) violate("no-progress","records not parsed on a healthy disk");
}
