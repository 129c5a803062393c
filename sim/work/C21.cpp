// C21: text functions when memory runs out.
#define BOOST_REGEX_MAX_CACHE_BLOCKS 0   // boost keeps freed blocks from run to run otherwise
#include "models.hpp"
#include "c21_money.hpp"
#include "kinds_list.hpp"
#include <functional>
#include <memory>
#include <sstream>
using namespace w;
PROPERTY("C21","one run: a history of calls over the tokenising, parsing, conversion, encoding, joining, replacement and text-transforming functions on drawn inputs, and of all the kinds of call C20 makes in threads; each call runs undisturbed against a reference model, "
               "then with the k-th allocation (and possibly every n-th after it) failing, then undisturbed again; "
               "non-trivial: an allocation failed inside a covered function; distinct: different sequence of calls, failing allocations and outcomes");
strtk_string_to_type_begin(c21::Money)
   return strtk::parse(std::string(begin,end)," ",t.cents,t.currency);
strtk_string_to_type_end()
namespace {
using c21::Money;
typedef model::strings strings;
typedef unsigned long long ull;
// ---- digests of results; simulator work, never fails
using c21::put;
void put(std::string& s, const std::string& v) { s += std::to_string(v.size()); s += ':'; s += v; s += ' '; }
void put(std::string& s, const char* v) { put(s,std::string(v)); }
template <typename T> typename std::enable_if<std::is_arithmetic<T>::value>::type put(std::string& s, T v)
{ char b[64]; if (std::is_floating_point<T>::value) snprintf(b,sizeof b,"%a ",double(v)); else snprintf(b,sizeof b,"%lld ",(long long)(v)); s += b; }
template <typename A, typename B> void put(std::string& s, const std::pair<A,B>& p) { put(s,p.first); put(s,p.second); }
template <typename C> typename std::enable_if<!std::is_arithmetic<C>::value, typename std::conditional<true,void,typename C::const_iterator>::type>::type put(std::string& s, const C& c)
{ s += '['; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) put(s,*i); s += ']'; }
inline void put_all(std::string&) {}
template <typename T, typename... R> void put_all(std::string& s, const T& t, const R&... r) { put(s,t); put_all(s,r...); }
template <typename... R> std::string dig(const R&... r) { sim::NoFault nf; std::string s; put_all(s,r...); return s; }
const char* const failed = "<failed>";
std::string failure() { sim::NoFault nf; return failed; }
// ---- one call
template <typename F> void attempt(const char* name, const std::string* want, const strings& inputs, const std::vector<const std::string*>& live, F fn)
{
   std::string before; { sim::NoFault nf; for (const std::string* p : live) put(before,*p); }
   (void)inputs;
   auto unchanged = [&](const char* when)
   {
      sim::NoFault nf;
      std::string now; for (const std::string* p : live) put(now,*p);
      if (now != before) violate("input-changed","%s changed its input%s",name,when);
   };
   sim::Op op(name);
   std::string first; uint64_t allocations = 0;
   {
      sim::AllocWindow win(0);
      try { first = fn(); }
      catch (const std::exception& e) { sim::NoFault nf; violate("exception","%s threw %s although no allocation failed",name,e.what()); }
      allocations = win.allocations();
   }
   unchanged("");
   if (want && first != *want) { sim::NoFault nf; violate("wrong-result","%s: %s",name,diff(first,*want).c_str()); }
   if (!allocations) { sim::shape("no-alloc"); return; }
   const uint32_t tries = 1 + draw(allocations > 6 ? 3 : 2,"tries");
   for (uint32_t t = 0; t < tries; ++t)
   {
      const uint32_t k = draw(uint32_t(std::min<uint64_t>(allocations,400)) + 1,"fail-at");
      if (!k) continue;
      const uint32_t again = sim::one_in(4,"again") ? 1 + draw(4,"again-every") : 0;
      bool oom = false, fired; std::string r;
      {
         sim::AllocWindow win(k,again);
         try { r = fn(); }
         catch (const std::bad_alloc&) { oom = true; }
         catch (const std::invalid_argument& e)          // how type_to_string reports a failure
         {
            sim::NoFault nf;
            if (!win.fired()) violate("exception","%s threw %s although no allocation failed",name,e.what());
            r = failed;
         }
         catch (const std::exception& e) { sim::NoFault nf; violate("exception","%s threw %s when allocation %u failed",name,e.what(),k); }
         fired = win.fired();
      }
      unchanged(" when an allocation failed");
      if (fired) sim::mark_nontrivial();
      if (oom && !fired) violate("spurious-bad-alloc","%s threw bad_alloc although no allocation failed",name);
      sim::NoFault nf;
      sim::shape(oom ? "bad_alloc" : r == failed ? "reported" : "survived");
      logf("%s: allocation %u of %llu fails%s -> %s",name,k,(ull)allocations,again ? " (and more)" : "",oom ? "bad_alloc" : r == failed ? "reported failure" : "result");
      if (!oom && r != first && !(fired && r == failed))
         violate("wrong-result-as-success","%s, allocation %u of %llu failing%s, returned a wrong result as success: %s",name,k,(ull)allocations,again ? " (and more)" : "",diff(r,first).c_str());
   }
   std::string last;
   {
      sim::AllocWindow win(0);
      try { last = fn(); }
      catch (const std::exception& e) { sim::NoFault nf; violate("exception","%s, called again with memory available, threw %s",name,e.what()); }
   }
   unchanged(" when called again");
   if (last != first) { sim::NoFault nf; violate("no-recovery","%s, called again with memory available: %s",name,diff(last,first).c_str()); }
}
typedef std::vector<const std::string*> Live;
template <typename F> void check(const char* name, const std::string& want, const Live& live, F fn) { attempt(name,&want,strings(),live,fn); }
template <typename F> void check(const char* name, const Live& live, F fn) { attempt(name,(const std::string*)nullptr,strings(),live,fn); }
// ---- inputs
const char* const sets[] = { ",", "|", ",;", " \t", ",;:|/", "xX" };
std::string text_of(const std::string& delims, size_t max, const char* alphabet = "abcdefXYZ0189-._")
{
   sim::NoFault nf;
   std::string s(sim::size_upto(max,"text-size"),'a');
   const uint32_t dense = 2 + draw(24,"density"); const bool runs = flip("runs");
   sim::Rng r(draw(1u << 30,"text-seed"));
   const uint32_t n = uint32_t(std::strlen(alphabet));
   for (size_t i = 0; i < s.size(); ++i)
   {
      const bool d = r.below(dense) == 0 || (runs && i && model::is_delim(delims,s[i - 1]) && r.below(2));
      s[i] = d && !delims.empty() ? delims[r.below(uint32_t(delims.size()))] : alphabet[r.below(n)];
   }
   return s;
}
std::string word(size_t max) { return text_of("",max); }
// what an output holds before the call
std::string used() { return flip("used") ? text_of("",flip("long use") ? 400 : 16,"#used") : std::string(); }
std::string numbers(const std::string& d, uint32_t n, bool bad)
{
   sim::NoFault nf; std::string s;
   for (uint32_t i = 0; i < n; ++i)
   {
      if (i) s += d[draw(uint32_t(d.size()),"which-delim")];
      s += bad && sim::one_in(6,"bad-number") ? std::string("1x") : std::to_string(int(uint32_t(sim::u64("number"))));
   }
   return s;
}
strings words(uint32_t n, size_t max) { sim::NoFault nf; strings v; for (uint32_t i = 0; i < n; ++i) v.push_back(word(max)); return v; }
strtk::split_options::type copt(bool c) { return c ? strtk::split_options::compress_delimiters : strtk::split_options::default_mode; }
// ---- a user type with its own conversions
struct Keep { strings* out; template <typename R> void operator()(const R& r) const { out->push_back(std::string(r.first,r.second)); } };
template <typename C> struct Add { static void to(C& c, const typename C::value_type& v) { c.push_back(v); } };
template <typename T> struct Add<std::set<T> > { static void to(std::set<T>& c, const T& v) { c.insert(v); } };
template <typename T> struct Add<std::multiset<T> > { static void to(std::multiset<T>& c, const T& v) { c.insert(v); } };
// ---- splitting
template <typename C> strtk::range_to_type_back_inserter_iterator<C> ins(C& c) { return strtk::range_to_type_back_inserter(c); }
template <typename T> strtk::range_to_type_inserter_iterator<std::set<T> > ins(std::set<T>& c) { return strtk::range_to_type_inserter(c); }
template <typename T> strtk::range_to_type_inserter_iterator<std::multiset<T> > ins(std::multiset<T>& c) { return strtk::range_to_type_inserter(c); }
template <typename C> void split_into(const char* kind)
{
   const std::string d = sets[draw(6,"delims")], s = text_of(d,flip("long") ? 400 : 60); const bool c = flip("compress");
   const strings tok = model::tokens(s,d,c);
   C want_c; for (size_t i = 0; i < tok.size(); ++i) Add<C>::to(want_c,tok[i]);
   const std::string want = dig(tok.size(),want_c);
   char name[60]; snprintf(name,sizeof name,"split into %s",kind);
   const uint32_t form = draw(4,"form");
   check(name,want,Live{&s,&d},[&]() -> std::string
   {
      C out; size_t n;
      if (form == 0) n = strtk::split(d,s,ins(out),copt(c));
      else if (form == 1) n = strtk::split(strtk::multiple_char_delimiter_predicate(d),s,ins(out),copt(c));
      else if (form == 2) n = strtk::split(d.c_str(),s,ins(out),copt(c));
      else n = strtk::split(strtk::multiple_char_delimiter_predicate(d),s.begin(),s.end(),ins(out),copt(c));
      return dig(n,out);
   });
}
template <typename T> struct Tokens
{
   static void run(const char* kind, bool bad)
   {
      const std::string d = sets[draw(5,"delims")], s = numbers(d,draw(40,"count"),bad); const bool c = flip("compress");
      const strings tok = model::tokens(s,d,c);
      std::vector<T> want_c; for (size_t i = 0; i < tok.size(); ++i) { T t; if (model::conv<T>::get(tok[i],t)) want_c.push_back(t); }
      const bool n_form = flip("parse_n"); const size_t n = draw(12,"n");
      std::vector<T> first_n; for (size_t i = 0; i < tok.size() && i < n; ++i) { T t; if (model::conv<T>::get(tok[i],t)) first_n.push_back(t); }
      const std::string want = n_form ? dig(first_n.size(),first_n) : dig(tok.size(),want_c);
      char name[60]; snprintf(name,sizeof name,"%s into a container of %s",n_form ? "parse_n" : "parse",kind);
      const uint32_t cont = draw(3,"container");
      check(name,want,Live{&s,&d},[&]() -> std::string
      {
         if (cont == 0) { std::vector<T> out; size_t r = n_form ? strtk::parse_n(s,d,n,out,copt(c)) : strtk::parse(s,d,out,copt(c)); return dig(r,out); }
         if (cont == 1) { std::deque<T> out;  size_t r = n_form ? strtk::parse_n(s,d,n,out,copt(c)) : strtk::parse(s,d,out,copt(c)); return dig(r,out); }
         std::list<T> out; size_t r = n_form ? strtk::parse_n(s,d,n,out,copt(c)) : strtk::parse(s,d,out,copt(c)); return dig(r,out);
      });
   }
};
void tokenizers()
{
   const std::string d = sets[draw(6,"delims")], s = text_of(d,300); const bool c = flip("compress");
   const strings tok = model::tokens(s,d,c);
   const std::string want = dig(tok);
   switch (draw(3,"kind"))
   {
      case 0 :
         check("tokenizer",want,Live{&s,&d},[&]() -> std::string
         {
            strings out;
            typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type T;
            strtk::multiple_char_delimiter_predicate p(d);
            T t(s,p,c);
            for (T::iterator i = t.begin(); i != t.end(); ++i) out.push_back(std::string((*i).first,(*i).second));
            return dig(out);
         });
         break;
      case 1 :
         check("for_each_token",dig(model::tokens(s,d,false)),Live{&s,&d},[&]() -> std::string
         {
            strings out;
            strtk::for_each_token(s,d,Keep{&out});
            return dig(out);
         });
         break;
      default:
         const size_t n = draw(8,"n");
         strings w(tok); if (w.size() > n) w.resize(n);
         check("split_n",dig(w.size(),w),Live{&s,&d},[&]() -> std::string
         {
            strings out; const size_t r = strtk::split_n(d,s,n,ins(out),copt(c));
            return dig(r,out);
         });
   }
}
void offsets_call()
{
   const std::string s = word(200);
   static const int o[3] = { 5, 18, 30 };
   strings out_w; size_t p = 0;
   for (int i = 0; i < 3 && p < s.size(); ++i) { out_w.push_back(s.substr(p,o[i])); p += o[i]; }
   if (s.size() < 53) return;
   check("offset_splitter",dig(size_t(3),out_w),Live{&s},[&]() -> std::string
   {
      strings out; const size_t n = strtk::offset_splitter(s,strtk::offsets(o[0],o[1],o[2]),ins(out));
      return dig(n,out);
   });
}
// ---- parsing into variables
void parse_fields()
{
   const std::string d = sets[draw(5,"delims")];
   std::string s; int a = int(uint32_t(sim::u64("int"))); ull b = sim::u64("u64"); std::string w1 = word(60), w2 = word(60); double x = double(int(draw(2000000,"double"))) / 64 - 9000;
   if (w1.empty()) w1 = "w"; if (w2.empty()) w2 = "w";
   w1.erase(std::remove_if(w1.begin(),w1.end(),[&](char ch) { return model::is_delim(d,ch); }),w1.end()); w2.erase(std::remove_if(w2.begin(),w2.end(),[&](char ch) { return model::is_delim(d,ch); }),w2.end());
   if (w1.empty()) w1 = "w"; if (w2.empty()) w2 = "w";
   if (d.find('-') != std::string::npos) return;
   char buf[64]; snprintf(buf,sizeof buf,"%.6f",x);
   const bool bad = sim::one_in(5,"bad");
   s = std::to_string(a) + d[0] + w1 + d[0] + std::to_string(b) + d[0] + (bad ? "?" : buf) + d[0] + w2;
   const uint32_t form = draw(4,"form");
   if (form == 0)
      check("parse into variables",bad ? failed : dig(a,w1,b,x,w2),Live{&s,&d},[&]() -> std::string
      {
         int ra = 0; ull rb = 0; double rx = 0; std::string r1, r2;
         if (!strtk::parse(s,d,ra,r1,rb,rx,r2)) return failure();
         return dig(ra,r1,rb,rx,r2);
      });
   else if (form == 1)
      check("parse with adapters",bad ? failed : dig(a,strtk::as_lowercase(w1),b,x,strtk::as_uppercase(w2)),Live{&s,&d},[&]() -> std::string
      {
         int ra = 0; ull rb = 0; double rx = 0; std::string r1, r2;
         strtk::details::conv_to_lcase_impl l = strtk::as_lcase(r1); strtk::details::conv_to_ucase_impl u = strtk::as_ucase(r2);
         if (!strtk::parse(s,d,ra,l,rb,rx,u)) return failure();
         return dig(ra,r1,rb,rx,r2);
      });
   else if (form == 2)
   {
      const std::string pat(w1.substr(0,w1.size() / 2) + "*");
      const std::string exp(flip("expected") ? w2 : w2 + "x");
      check("parse with expect, like and inrange",bad || exp != w2 || x < -9000 ? failed : dig(a,b,x),Live{&s,&d,&pat,&exp},[&]() -> std::string
      {
         int ra = 0; ull rb = 0; double rx = 0;
         if (!strtk::parse(s,d,ra,strtk::like(pat).ref(),rb,strtk::inrange(rx,-9000.0,1e9).ref(),strtk::expect(exp).ref())) return failure();
         return dig(ra,rb,rx);
      });
   }
   else
   {
      const std::string padded = std::string(3,'#') + std::to_string(a) + "##" + d[0] + "####" + w1 + "##" ;
      check("parse with trim",dig(a,w1),Live{&padded,&d},[&]() -> std::string
      {
         int ra = 0; std::string r1; const std::string hash("#");
         if (!strtk::parse(padded,d,strtk::trim(hash,ra).ref(),strtk::trim(hash,r1).ref())) return failure();
         return dig(ra,r1);
      });
   }
}
void columns()
{
   const std::string d = ",;"; const uint32_t n = 1 + draw(9,"columns");
   strings f; std::string s; 
   for (uint32_t i = 0; i < n; ++i) { std::string w = "col" + std::to_string(i) + text_of("",40,"abcdefgh"); f.push_back(w); if (i) s += d[i & 1]; s += w; }
   const size_t c0 = draw(4,"c0"), c1 = c0 + 1 + draw(3,"c1"), c2 = c1 + 1 + draw(2,"c2");
   const bool ok = c2 < f.size();
   check("parse_columns",ok ? dig(f[c0],f[c1],f[c2]) : failed,Live{&s},[&]() -> std::string
   {
      std::string a, b, c;
      const size_t idx[3] = { c0, c1, c2 };
      if (!strtk::parse_columns(s,d,strtk::column_list(idx),a,b,c)) return failure();
      return dig(a,b,c);
   });
}
// fields followed by a container that takes all remaining ones
template <typename T, typename C> strings drain(std::queue<T,C>& q) { strings o; while (!q.empty()) { o.push_back(dig(q.front())); q.pop(); } return o; }
template <typename T, typename C> strings drain(std::stack<T,C>& q) { strings o; while (!q.empty()) { o.push_back(dig(q.top())); q.pop(); } return o; }
template <typename T, typename C, typename L> strings drain(std::priority_queue<T,C,L>& q) { strings o; while (!q.empty()) { o.push_back(dig(q.top())); q.pop(); } return o; }
template <typename C> strings drain(C& c) { strings o; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) o.push_back(dig(*i)); return o; }
template <typename T, typename C> void add_to(std::queue<T,C>& q, const T& v) { q.push(v); }
template <typename T, typename C> void add_to(std::stack<T,C>& q, const T& v) { q.push(v); }
template <typename T, typename C, typename L> void add_to(std::priority_queue<T,C,L>& q, const T& v) { q.push(v); }
template <typename C> void add_to(C& c, const typename C::value_type& v) { c.insert(c.end(),v); }
bool field(const std::string& s, int& v) { return model::integer(s,v); }
bool field(const std::string& s, std::string& v) { v = s; return true; }
template <typename C, typename T> void rest_into(const char* name)
{
   const std::string d = sets[draw(5,"delims")];
   if (d.find('-') != std::string::npos) return;
   const uint32_t n = draw(14,"fields"), heads = 1 + draw(4,"heads");
   std::string s;
   for (uint32_t i = 0; i < n; ++i)
   {
      if (i) for (uint32_t k = 1 + draw(5,"delimiters") / 4; k; --k) s += d[draw(uint32_t(d.size()),"which")];
      s += sim::one_in(12,"word") ? "x" + std::to_string(draw(50,"word")) : std::to_string(int(draw(2000,"number")) - 700) ;
   }
   const strings t = model::tokens(s,d,true);
   std::string want = failed;
   const char* form[] = { "", "parse a field and the rest", "parse two fields and the rest", "parse three fields and the rest", "parse four fields and the rest" };
   bool ok = t.size() > heads; int h[4] = { 0 }; C c;
   for (uint32_t i = 0; ok && i < heads; ++i) ok = model::integer(t[i],h[i]);
   for (size_t i = heads; ok && i < t.size(); ++i) { T v = T(); if (!field(t[i],v)) { ok = false; break; } add_to(c,v); }
   if (ok) want = dig(std::vector<int>(h,h + heads),drain(c));
   sim::probe(name);
   check(form[heads],want,Live{&s,&d},[&]() -> std::string
   {
      int g[4] = { 0 }; C r; bool k;
      switch (heads)
      {
         case 1 : k = strtk::parse(s,d,g[0],r); break;
         case 2 : k = strtk::parse(s,d,g[0],g[1],r); break;
         case 3 : k = strtk::parse(s,d,g[0],g[1],g[2],r); break;
         default: k = strtk::parse(s,d,g[0],g[1],g[2],g[3],r); break;
      }
      if (!k) return failure();
      sim::NoFault nf; return dig(std::vector<int>(g,g + heads),drain(r));
   });
}
void head_and_rest()
{
   switch (draw(9,"rest"))
   {
      case 0 : rest_into<std::vector<int>,int>("rest into vector"); break;
      case 1 : rest_into<std::deque<std::string>,std::string>("rest into deque"); break;
      case 2 : rest_into<std::list<int>,int>("rest into list"); break;
      case 3 : rest_into<std::set<std::string>,std::string>("rest into set"); break;
      case 4 : rest_into<std::multiset<int>,int>("rest into multiset"); break;
      case 5 : rest_into<std::queue<int>,int>("rest into queue"); break;
      case 6 : rest_into<std::stack<std::string>,std::string>("rest into stack"); break;
      case 7 : rest_into<std::vector<std::string>,std::string>("rest into vector of strings"); break;
      default: rest_into<std::priority_queue<int>,int>("rest into priority queue"); break;
   }
}
void sinks()
{
   const std::string in = ",", out_d = "|"; const uint32_t n = 1 + draw(20,"count");
   strings f; std::string s = "header" + out_d;
   for (uint32_t i = 0; i < n; ++i) { std::string w = "v" + std::to_string(i) + text_of("",30,"abcdefgh"); f.push_back(w); if (i) s += in; s += w; }
   s += out_d; const std::string nums = numbers(in,1 + draw(15,"ints"),false); s += nums;
   std::deque<int> ints; { const strings t = model::tokens(nums,in,true); for (const std::string& x : t) { int v = 0; model::integer(x,v); ints.push_back(v); } }
   const std::string head("header");
   check("parse into sinks",dig(head,f,ints),Live{&s},[&]() -> std::string
   {
      std::string h; strings v; std::deque<int> di;
      strtk::vector_sink<std::string>::type vs(in); strtk::deque_sink<int>::type ds(in);
      if (!strtk::parse(s,out_d,h,vs(v).reference(),ds(di).reference())) return failure();
      return dig(h,v,di);
   });
}
void conversions()
{
   const ull u = sim::u64("u64"); const int i = int(uint32_t(sim::u64("int"))); const double x = double(int(draw(2000000,"double"))) / 64 - 9000; const std::string w = word(80);
   char b[64];
   switch (draw(10,"kind"))
   {
      case 0 : snprintf(b,sizeof b,"%llu",u); check("type_to_string of an integer",dig(std::string(b)),Live(),[&]() -> std::string { return dig(strtk::type_to_string(u)); }); break;
      case 1 : check("type_to_string of a double",Live(),[&]() -> std::string
               { std::string r; if (!strtk::type_to_string(x,r)) return failure(); double back = 0; { sim::NoFault nf; if (!strtk::string_to_type_converter(r,back) || std::fabs(back - x) > 1e-5) violate("wrong-result","type_to_string(%.9g) gave %s",x,r.c_str()); } return dig(r); }); break;
      case 2 : check("type_to_string value of a double",Live(),[&]() -> std::string
               { const std::string r = strtk::type_to_string(x); { sim::NoFault nf; double back = 0; if (!strtk::string_to_type_converter(r,back) || std::fabs(back - x) > 1e-5) violate("wrong-result-as-success","type_to_string(%.9g) gave \"%s\"",x,r.c_str()); } return dig(r); }); break;
      case 3 :
      {
         Money m; m.cents = i; m.currency = "currency_" + text_of("",40,"abcdef");
         std::ostringstream os; os << m;
         check("type_to_string of a user type",dig(os.str()),Live(),[&]() -> std::string { std::string r; if (!strtk::type_to_string(m,r)) return failure(); return dig(r); });
         break;
      }
      case 4 :
      {
         Money m; m.cents = i; m.currency = "currency_" + text_of("",60,"abcdef");
         const std::string t = std::to_string(m.cents) + " " + m.currency;
         check("string_to_type of a user type",dig(m),Live{&t},[&]() -> std::string { Money r; if (!strtk::string_to_type_converter(t,r)) return failure(); return dig(r); });
         break;
      }
      case 5 :
      {
         std::vector<Money> v; std::string t; const uint32_t n = 1 + draw(8,"count");
         for (uint32_t k = 0; k < n; ++k) { Money m; m.cents = int(uint32_t(sim::u64("int"))); m.currency = "currency_" + text_of("",30,"abcdef"); v.push_back(m); if (k) t += ','; t += std::to_string(m.cents) + " " + m.currency; }
         const std::string d(",");
         check("parse into a container of a user type",dig(v.size(),v),Live{&t},[&]() -> std::string { std::vector<Money> r; const size_t n = strtk::parse(t,d,r); return dig(n,r); });
         break;
      }
      case 6 : case 7 :
      {
         Money m; m.cents = i; m.currency = "currency_" + text_of("",40,"abcdef");
         std::ostringstream os; os << m;
         check("type_to_string of a user type (no boost)",dig(os.str()),Live(),[&]() -> std::string { std::string r; if (!c21::plain_to_string(m,r)) return failure(); return dig(r); });
         break;
      }
      case 8 :
      {
         std::vector<Money> v; std::string t; const std::string sep = text_of("",20);
         for (uint32_t k = 0, n = draw(5,"count"); k < n; ++k) { Money m; m.cents = int(uint32_t(sim::u64("int"))); m.currency = "currency_" + text_of("",30,"abcdef"); v.push_back(m); if (k) t += sep; std::ostringstream os; os << m; t += os.str(); }
         check("join of a user type (no boost)",dig(t),Live{&sep},[&]() -> std::string { return dig(c21::plain_join(sep,v)); });
         break;
      }
      default: check("string_to_type of a string",dig(w),Live{&w},[&]() -> std::string { std::string r; strtk::util::value v(r); if (!v(w)) return failure(); return dig(r); });
   }
}
void composing()
{
   const std::string sep = text_of("",20), pre = text_of("",24), post = text_of("",24);
   const strings v = words(draw(12,"words"),40);
   const std::string had = used();
   std::vector<int> iv; for (uint32_t k = draw(20,"ints"); k; --k) iv.push_back(int(uint32_t(sim::u64("int"))));
   std::vector<double> dv; for (uint32_t k = draw(8,"doubles"); k; --k) dv.push_back(double(int(draw(2000000,"double"))) / 64 - 9000);
   switch (draw(9,"kind"))
   {
      case 0 : { std::string w; for (size_t k = 0; k < v.size(); ++k) { if (k) w += sep; w += v[k]; } check("join",dig(w),Live{&sep},[&]() -> std::string { return dig(strtk::join(sep,v)); }); break; }
      case 1 : { std::string w; for (size_t k = 0; k < iv.size(); ++k) { if (k) w += sep; w += std::to_string(iv[k]); } check("join of integers",dig(had + w),Live{&sep,&had},[&]() -> std::string { std::string o(had); strtk::join(o,sep,iv.begin(),iv.end()); return dig(o); }); break; }
      case 2 : check("join of doubles",Live{&sep},[&]() -> std::string { return dig(strtk::join(sep,dv)); }); break;
      case 3 : { std::string w; bool f = true; for (size_t k = 0; k < iv.size(); ++k) if (iv[k] % 2) { if (!f) w += sep; f = false; w += std::to_string(iv[k]); } check("join_if",dig(had + w),Live{&sep,&had},[&]() -> std::string { if (!had.empty()) { std::string o(had); strtk::join_if(o,sep,[](int q) { return q % 2 != 0; },iv.begin(),iv.end()); return dig(o); } return dig(strtk::join_if(sep,[](int q) { return q % 2 != 0; },iv.begin(),iv.end())); }); break; }
      case 4 : { std::string w; for (size_t k = 0; k < v.size(); ++k) w += pre + v[k] + post; check("bracketize",dig(w),Live{&pre,&post},[&]() -> std::string { strings c(v); return dig(strtk::bracketize(pre,post,c)); }); break; }
      case 5 : { std::string w; for (size_t k = 0; k < iv.size(); ++k) w += pre + std::to_string(iv[k]) + post; check("bracketize of integers",dig(had + w),Live{&pre,&post,&had},[&]() -> std::string { std::string o(had); strtk::bracketize(o,pre,post,iv.begin(),iv.end()); return dig(o); }); break; }
      case 6 :
      {
         const int a = int(uint32_t(sim::u64("int"))); const ull b = sim::u64("u64"); const short h = short(draw(60000,"short"));
         const uint32_t n = 2 + draw(5,"arity");
         const std::string f[6] = { std::to_string(a), pre, std::to_string(b), post, std::to_string(h), sep };
         std::string w; for (uint32_t k = 0; k < n; ++k) { if (k) w += sep; w += f[k]; }
         check("construct",dig(had + w),Live{&sep,&pre,&post,&had},[&]() -> std::string
         {
            std::string o(had);
            switch (n)
            {
               case 2 : strtk::construct(o,sep,a,pre); break;
               case 3 : strtk::construct(o,sep,a,pre,b); break;
               case 4 : strtk::construct(o,sep,a,pre,b,post); break;
               case 5 : strtk::construct(o,sep,a,pre,b,post,h); break;
               default: strtk::construct(o,sep,a,pre,b,post,h,sep); break;
            }
            return dig(o);
         });
         break;
      }
      case 7 :
      {
         const int a = int(uint32_t(sim::u64("int")));
         check("build_string",dig(pre + std::to_string(a) + sep + post),Live{&sep,&pre,&post},[&]() -> std::string { strtk::build_string bs(draw(1,"x") + 1); bs << pre << a << sep << post; return dig(bs.to_str()); });
         break;
      }
      default:
      {
         const size_t n = draw(9,"n"); std::string w; for (size_t k = 0; k < n; ++k) w += pre;
         if (flip("inplace")) check("replicate_inplace",dig(pre + w),Live{&pre},[&]() -> std::string { std::string s(pre); strtk::replicate_inplace(n,s); return dig(s); });
         else check("replicate",dig(had + w),Live{&pre,&had},[&]() -> std::string { if (!had.empty()) { std::string o(had); strtk::replicate(n,pre,o); return dig(o); } return dig(strtk::replicate(n,pre)); });
      }
   }
}
// ---- replacing
std::string replaced(const std::string& s, const std::string& p, const std::string& r)
{
   sim::NoFault nf;
   if (p.empty()) return s;
   std::string o; size_t i = 0;
   while (i < s.size()) if (s.compare(i,p.size(),p) == 0) { o += r; i += p.size(); } else o += s[i++];
   return o;
}
void replacing()
{
   const std::string s = text_of("",300,"aab"), p = text_of("",4,"ab"), r = text_of("",flip("long") ? 30 : 3,"abXY"), had = used();
   switch (draw(4,"kind"))
   {
      case 0 : check("replace_pattern",dig(replaced(s,p,r)),Live{&s,&p,&r},[&]() -> std::string { std::string o(had); strtk::replace_pattern(s,p,r,o); return dig(o); }); break;
      case 1 : check("remove_pattern",dig(replaced(s,p,"")),Live{&s,&p},[&]() -> std::string { std::string o(had); strtk::remove_pattern(s,p,o); return dig(o); }); break;
      case 2 : check("replace_pattern over ranges",dig(replaced(s,p,r).size(),replaced(s,p,r)),Live{&s,&p,&r},[&]() -> std::string
               { std::string o; const size_t n = strtk::replace_pattern(s.begin(),s.end(),p.begin(),p.end(),r.begin(),r.end(),std::back_inserter(o)); return dig(n,o); }); break;
      default:
      {
         const uint32_t how = draw(5,"operator");
         std::string w; 
         switch (how) { case 0 : w = replaced(s,p,r); break; case 1 : w = replaced(s,p,""); break; case 2 : for (int k = 0; k < 3; ++k) w += s; break; case 3 : w = s + r + "17"; break; default: w = replaced(s,p,"") + r; }
         check("ext_string",dig(w),Live{&s,&p,&r},[&]() -> std::string
         {
            strtk::ext_string e(s);
            switch (how)
            {
               case 0 : e.replace(p,r); return dig(e.as_string());
               case 1 : return dig((e - p).as_string());
               case 2 : return dig((e * size_t(3)).as_string());
               case 3 : e << r << 17; return dig(e.as_string());
               default: e -= p; e += r; return dig(e.as_string());
            }
         });
      }
   }
}
// ---- encoding
const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string base64(const std::string& s)
{
   sim::NoFault nf; std::string o;
   for (size_t i = 0; i < s.size(); i += 3)
   {
      const size_t n = std::min<size_t>(3,s.size() - i); uint32_t v = 0;
      for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
      for (size_t k = 0; k < 4; ++k) o += k <= n ? b64[v >> (18 - 6 * k) & 63] : '=';
   }
   return o;
}
void encoding()
{
   const std::string s = sim::bytes(1 + sim::size_upto(200,"size"),"binary");
   std::string h; for (unsigned char c : s) { char b[3]; snprintf(b,3,"%02X",c); h += b; }
   const std::string b = base64(s), had = used();
   switch (draw(6,"kind"))
   {
      case 0 : check("convert_bin_to_hex",dig(h),Live{&s},[&]() -> std::string { if (s.size() & 1) return dig(strtk::convert_bin_to_hex(s)); std::string o(had); strtk::convert_bin_to_hex(s,o); return dig(o); }); break;
      case 1 : check("convert_hex_to_bin",dig(s),Live{&h},[&]() -> std::string { std::string o(had); if (!strtk::convert_hex_to_bin(h,o)) return failure(); return dig(o); }); break;
      case 2 : check("convert_bin_to_base64",dig(b),Live{&s},[&]() -> std::string { std::string o(had); strtk::convert_bin_to_base64(s,o); return dig(o); }); break;
      case 3 : check("convert_base64_to_bin",dig(s),Live{&b},[&]() -> std::string { std::string o(had); strtk::convert_base64_to_bin(b,o); return dig(o); }); break;
      case 4 :
      {
         const std::string t = std::string("0x") + h + ",tail";
         check("parse with hex_to_string_sink",dig(s,std::string("tail")),Live{&t},[&]() -> std::string
         { std::string o, tail; strtk::hex_to_string_sink k(o); if (!strtk::parse(t,",",k,tail)) return failure(); return dig(o,tail); });
         break;
      }
      default:
      {
         std::string w(s); for (char& c : w) if ((unsigned char)c <= 32 || (unsigned char)c > 126) c = '.';
         check("convert_to_printable_chars",dig(w),Live{&s},[&]() -> std::string { std::string c(s); strtk::convert_to_printable_chars(c); return dig(c); });
      }
   }
}
// ---- transforming
void transforming()
{
   const std::string rem = "._-", s = text_of(rem,160,"abcXYZ019");
   std::string w(s);
   switch (draw(14,"kind"))
   {
      case 0 : for (char& c : w) c = char(std::tolower(c)); check("as_lowercase",dig(w),Live{&s},[&]() -> std::string { return dig(strtk::as_lowercase(s)); }); break;
      case 1 : for (char& c : w) c = char(std::toupper(c)); check("as_uppercase",dig(w),Live{&s},[&]() -> std::string { return dig(strtk::as_uppercase(s)); }); break;
      case 2 : w = ""; for (char c : s) if (!model::is_delim(rem,c)) w += c; check("remove_inplace",dig(w),Live{&s},[&]() -> std::string { std::string c(s); strtk::remove_inplace(strtk::multiple_char_delimiter_predicate(rem),c); return dig(c); }); break;
      case 3 : w = ""; for (size_t i = 0; i < s.size(); ++i) if (!(i && model::is_delim(rem,s[i]) && model::is_delim(rem,s[i - 1]))) w += s[i];
               check("remove_consecutives_inplace",dig(w),Live{&s},[&]() -> std::string { std::string c(s); strtk::remove_consecutives_inplace(rem,c); return dig(c); }); break;
      case 4 : while (!w.empty() && model::is_delim(rem,w[0])) w.erase(0,1); check("remove_leading",dig(w),Live{&s},[&]() -> std::string { std::string c(s); strtk::remove_leading(rem,c); return dig(c); }); break;
      case 5 : while (w.size() > 1 && model::is_delim(rem,w[w.size() - 1])) w.resize(w.size() - 1); check("remove_trailing",dig(w),Live{&s},[&]() -> std::string { std::string c(s); strtk::remove_trailing(rem,c); return dig(c); }); break;
      case 6 :
      {
         const std::string bin = flip("binary") ? sim::bytes(sim::size_upto(200,"size"),"chars") : s;
         w = ""; for (char c : bin) if (w.find(c) == std::string::npos) w += c;
         check("remove_duplicates",dig(w),Live{&bin},[&]() -> std::string { return dig(strtk::remove_duplicates(bin)); });
         break;
      }
      case 7 : std::replace(w.begin(),w.end(),'a','Q'); check("replace",dig(w),Live{&s},[&]() -> std::string { std::string c(s); strtk::replace('a','Q',c); return dig(c); }); break;
      case 8 :
      {
         const size_t width = sim::size_upto(200,"width"); const size_t pad = width > s.size() ? width - s.size() : 0; const uint32_t how = draw(3,"align");
         w = how == 0 ? s + std::string(pad,'.') : how == 1 ? std::string(pad,'.') + s : std::string(pad / 2,'.') + s + std::string(pad - pad / 2,'.');
         check(how == 0 ? "left_align" : how == 1 ? "right_align" : "center",dig(w),Live{&s},[&]() -> std::string
         { return dig(how == 0 ? strtk::text::left_align(width,'.',s) : how == 1 ? strtk::text::right_align(width,'.',s) : strtk::text::center(width,'.',s)); });
         break;
      }
      case 9 :
      {
         const int v = int(uint32_t(sim::u64("int"))); const size_t width = sim::size_upto(80,"width"); const std::string t = std::to_string(v); const size_t pad = width > t.size() ? width - t.size() : 0;
         check("right_align of an integer",dig(std::string(pad,' ') + t),Live(),[&]() -> std::string { return dig(strtk::text::right_align(width,v)); });
         break;
      }
      case 10:
      {
         const size_t i = sim::size_upto(180,"index"); const bool e = flip("empty");
         check("remaining_string",dig(i < s.size() ? s.substr(i) : e ? std::string() : s),Live{&s},[&]() -> std::string { if (e) { std::string o("held"); strtk::text::remaining_string(i,s,o,e); return dig(o); } return dig(strtk::text::remaining_string(i,s)); });
         break;
      }
      case 11:
      {
         const size_t i = sim::size_upto(180,"i"), j = sim::size_upto(180,"j"); const uint32_t how = draw(3,"edit");
         if (how == 0 && i < w.size() && j < w.size()) std::swap(w[i],w[j]);
         if (how == 1 && i < w.size()) w.erase(i,1);
         if (how == 2) { if (i > w.size()) break; w.insert(i,1,'%'); }
         check(how == 0 ? "text::swap" : how == 1 ? "text::remove" : "text::insert",dig(w),Live{&s},[&]() -> std::string
         { return dig(how == 0 ? strtk::text::swap(s,i,j) : how == 1 ? strtk::text::remove(s,i) : strtk::text::insert(s,i,'%')); });
         break;
      }
      case 12:
      {
         const strings v = words(draw(8,"words"),60); const size_t r0 = draw(20,"r0"), r1 = r0 + draw(30,"len"); strings o;
         for (const std::string& x : v) if (x.size() >= r0) o.push_back(x.substr(r0,r1 - r0));
         check("cut",dig(o),Live(),[&]() -> std::string { strings c; strtk::cut(r0,r1,v.begin(),v.end(),std::back_inserter(c)); return dig(c); });
         break;
      }
      default:
      {
         std::string from = "abcXYZ", to = "\xE4" "23789"; std::string bin = sim::bytes(sim::size_upto(100,"size"),"chars");
         if (flip("high")) { from += "\xE9\xFF"; to += "eb"; }
         w = bin; for (char& c : w) { const size_t k = from.find(c); if (k != std::string::npos) c = to[k]; }
         check("translate",dig(w),Live{&bin,&from,&to},[&]() -> std::string { const strtk::translation_table t(from,to); return dig(strtk::translate(t,bin)); });
      }
   }
}
// ---- sequences
void sequences()
{
   const std::string s = text_of("",80,"abcdefgh");
   switch (draw(9,"kind"))
   {
      case 0 : { const strings v = words(draw(20,"words"),3); strings o(v); std::sort(o.begin(),o.end()); o.erase(std::unique(o.begin(),o.end()),o.end());
                 check("extract_unique",dig(o),Live(),[&]() -> std::string { strings r; strtk::extract_unique(v.begin(),v.end(),std::back_inserter(r)); return dig(r); }); break; }
      case 1 :
      {
         const size_t r = 3 + draw(8,"r"), k = 2 + draw(uint32_t(r - 1),"k"); ull total = 1; for (size_t i = 0; i < k; ++i) total = total * (r - i) / (i + 1);
         const ull n = draw(uint32_t(total),"n");
         std::vector<size_t> idx(k); for (size_t i = 0; i < k; ++i) idx[i] = i;
         for (ull i = 0; i < n; ++i) { size_t p = k; while (idx[p - 1] == r - k + p - 1) --p; ++idx[p - 1]; for (; p < k; ++p) idx[p] = idx[p - 1] + 1; }
         const bool complete = flip("complete");
         std::vector<size_t> w(idx); if (complete) for (size_t i = 0; i < r; ++i) if (std::find(idx.begin(),idx.end(),i) == idx.end()) w.push_back(i);
         check("nth_combination_sequence",dig(w),Live(),[&]() -> std::string { std::vector<size_t> o; strtk::nth_combination_sequence(n,r,k,std::back_inserter(o),complete); return dig(o); });
         break;
      }
      case 2 :
      {
         const std::string p = s.substr(0,1 + draw(7,"k")); if (p.empty()) break;
         ull total = 1; for (size_t i = 2; i <= p.size(); ++i) total *= i;
         const ull n = draw(uint32_t(total),"n"); std::string left(p), w; ull m = n, f = total;
         while (!left.empty()) { f /= left.size(); const size_t i = size_t(m / f); m %= f; w += left[i]; left.erase(i,1); }
         check("nth_permutation_sequence",dig(w),Live{&p},[&]() -> std::string { return dig(strtk::nth_permutation_sequence(size_t(n),p)); });
         break;
      }
      case 3 :
      {
         std::map<std::string,int> m; for (uint32_t k = draw(15,"keys"); k; --k) m[word(30)] = int(k);
         strings w; for (auto& x : m) w.push_back(x.first);
         check("make_key_list",dig(w),Live(),[&]() -> std::string { strings o; strtk::util::make_key_list(m,o); return dig(o); });
         break;
      }
      case 4 :
      {
         std::multimap<int,std::string> m; for (uint32_t k = draw(15,"values"); k; --k) m.insert(std::make_pair(int(draw(3,"key")),word(30)));
         const int key = int(draw(3,"wanted")); strings w; for (auto& x : m) if (x.first == key) w.push_back(x.second);
         check("make_value_list",dig(w),Live(),[&]() -> std::string { strings o; strtk::util::make_value_list(m,key,std::back_inserter(o)); return dig(o); });
         break;
      }
      case 5 :
      {
         const std::string t = text_of("",200,"ab"), p = text_of("",3,"ab"); if (p.empty()) break;
         std::vector<std::pair<size_t,size_t> > w; for (size_t i = 0; (i = t.find(p,i)) != std::string::npos; i += p.size()) w.push_back(std::make_pair(i,i + p.size()));
         check("find_all",dig(w.size(),w),Live{&t,&p},[&]() -> std::string
         {
            std::vector<std::pair<const char*,const char*> > o; const size_t n = strtk::find_all(p,t,std::back_inserter(o));
            std::vector<std::pair<size_t,size_t> > r; { sim::NoFault nf; for (auto& x : o) r.push_back(std::make_pair(size_t(x.first - t.data()),size_t(x.second - t.data()))); }
            std::string out = dig(n,r); { sim::NoFault nf; std::vector<std::pair<size_t,size_t> >().swap(r); } return out;
         });
         break;
      }
      case 7 :
      {
         const std::string t = text_of(" ",160,"ab=12"), ex = "([a-z]+)=([0-9]+)"; const uint32_t mode = draw(3,"match"); const size_t limit = flip("limited") ? 1 + draw(6,"n") : 1000; strings w;
         for (size_t i = 0; i < t.size() && w.size() < limit;)
         {
            size_t a = i; while (a < t.size() && std::isalpha(t[a])) ++a;
            if (a == i) { ++i; continue; }
            size_t b = a + 1; while (a < t.size() && t[a] == '=' && b < t.size() && std::isdigit(t[b])) ++b;
            if (a < t.size() && t[a] == '=' && b > a + 1) { w.push_back(mode == 0 ? t.substr(i,b - i) : mode == 1 ? t.substr(i,a - i) : t.substr(a + 1,b - a - 1)); i = b; } else i = a;
         }
         check("split_regex",dig(w.size(),w),Live{&t,&ex},[&]() -> std::string
         { strings o; const strtk::regex_match_mode::type m = strtk::regex_match_mode::type(mode); const size_t k = limit < 1000 ? strtk::split_regex_n(ex,t,limit,ins(o),m) : strtk::split_regex(ex,t,ins(o),m); return dig(k,o); });
         break;
      }
      case 6 :
      {
         const std::string t = text_of("1",200,"ab22");
         check("split into a set through an inserter",Live{&t},[&]() -> std::string { std::set<std::string> o; const size_t k = strtk::split("2",t,ins(o)); return dig(k,o); });
         break;
      }
      default:
      {
         const size_t n = 1 + draw(40,"n"); const int from = int(draw(1000,"from")); std::vector<int> w; for (size_t i = 0; i < n; ++i) w.push_back(from + int(i));
         check("iota",dig(w),Live(),[&]() -> std::string { std::vector<int> o; strtk::iota(o,n,from); return dig(o); });
      }
   }
}
// ---- the calls of kinds_*.cpp: what they give is checked by themselves where anything more is known than that it is
// the same every time; memory errors, leaks and anything but an exception when an allocation fails show by themselves
void kind_call()
{
   Call c; std::string nm, dir;
   { sim::NoFault nf; c.kind = draw(uint32_t(Kinds::get().all.size()),"kind"); nm = std::string("call of kind ") + Kinds::get().all[c.kind].name; dir = "/sim/"; }
   c.seed = draw(1u << 20,"data"); c.variant = flip("variant?") ? 1 + draw(1000,"variant") : 0; c.size = draw(4,"bigger") ? draw(10,"size") : draw(60,"size");
   const Kind& k = Kinds::get().all[c.kind];
   sim::Op op(nm.c_str());
   auto undisturbed = [&](uint64_t& allocations)
   {
      std::string d;
      {
         fs::Window fw; sim::AllocWindow win(0);
         try { d = k.run(c,dir); }
         catch (const Wrong& e) { sim::NoFault nf; violate("wrong-result","%s (seed %u, size %u, variant %u): %s",nm.c_str(),c.seed,c.size,c.variant,e.what()); }
         catch (const std::exception& e) { sim::NoFault nf; d = std::string("exception ") + e.what(); }
         allocations = win.allocations();
      }
      return d;
   };
   uint64_t allocations = 0, again = 0;
   const std::string first = undisturbed(allocations);
   sim::shape("kind"); sim::shape(nm.c_str());
   const uint32_t tries = allocations ? 1 + draw(allocations > 6 ? 3 : 2,"tries") : 0;
   for (uint32_t t = 0; t < tries; ++t)
   {
      const uint32_t at = draw(uint32_t(std::min<uint64_t>(allocations,4000)) + 1,"fail-at");
      if (!at) continue;
      const uint32_t every = sim::one_in(4,"again") ? 1 + draw(4,"again-every") : 0;
      const char* what = "result"; bool fired;
      {
         fs::Window fw; sim::AllocWindow win(at,every);
         try { const std::string d = k.run(c,dir); if (d == first) what = "the same result"; }
         catch (const std::bad_alloc&) { what = "bad_alloc"; }
         catch (const std::exception&) { what = "exception"; }
         fired = win.fired();
      }
      if (fired) sim::mark_nontrivial();
      sim::NoFault nf;
      if (!fired && std::strcmp(what,"the same result") && first.compare(0,9,"exception")) violate("another-result","%s (seed %u, size %u, variant %u): %s, although no allocation failed",nm.c_str(),c.seed,c.size,c.variant,what);
      sim::shape(what);
      logf("%s (seed %u, size %u, variant %u): allocation %u of %llu fails%s -> %s",nm.c_str(),c.seed,c.size,c.variant,at,(ull)allocations,every ? " (and more)" : "",what);
   }
   if (tries)
   {
      const std::string after = undisturbed(again);
      sim::NoFault nf;
      if (after != first) violate("another-result","%s (seed %u, size %u, variant %u) gave another result after an allocation had failed: %s",nm.c_str(),c.seed,c.size,c.variant,diff(after,first).c_str());
   }
}
void one_call()
{
   if (sim::one_in(3,"kind?")) { kind_call(); return; }
   switch (draw(16,"group"))
   {
      case 0 : split_into<std::vector<std::string> >("a vector"); break;
      case 1 : switch (draw(4,"container")) { case 0 : split_into<std::deque<std::string> >("a deque"); break; case 1 : split_into<std::list<std::string> >("a list"); break; case 2 : split_into<std::set<std::string> >("a set"); break; default: split_into<std::multiset<std::string> >("a multiset"); } break;
      case 2 : Tokens<int>::run("int",true); break;
      case 3 : flip("string") ? Tokens<std::string>::run("string",true) : Tokens<ull>::run("unsigned long long",true); break;
      case 4 : tokenizers(); break;
      case 5 : offsets_call(); break;
      case 6 : case 7 : parse_fields(); break;
      case 8 : switch (draw(3,"columns")) { case 0 : columns(); break; case 1 : sinks(); break; default: head_and_rest(); } break;
      case 9 : conversions(); break;
      case 10: composing(); break;
      case 11: replacing(); break;
      case 12: encoding(); break;
      case 13: transforming(); break;
      case 14: sequences(); break;
      default: flip("conv") ? conversions() : composing(); break;
   }
}
}
void sim_run()
{
   sim::want_second_pass();
   {  // boost::regex keeps its traits from the first use on: have that behind us
      sim::NoFault nf; std::vector<std::string> o; strtk::split_regex("([a-z]+)=([0-9]+)",std::string("a=1"),strtk::range_to_type_back_inserter(o));
   }
   for (int k = 0; k < 40 && (k == 0 || more(10,"more-calls")); ++k) one_call();
}
