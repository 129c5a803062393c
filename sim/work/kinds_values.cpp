// Kinds of calls: values, containers and the helpers around them.
#include "kinds.hpp"
#include "models.hpp"
#include <map>
#include <tuple>
#include <utility>
namespace {
namespace u = strtk::util;
std::string down(std::string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
std::string numbers(R& r, size_t n) { std::string s; for (size_t i = 0; i < n; ++i) { if (i) s += ",;"[r.below(2)]; s += std::to_string(r.num()); } return s; }
std::string dig_text(int v) { return std::to_string(v); }
std::string dig_text(unsigned v) { return std::to_string(v); }
std::string dig_text(long long v) { return std::to_string(v); }
std::string dig_text(const std::string& v) { return v; }
int conv12(int) { return 12; } unsigned conv12(unsigned) { return 12; } long long conv12(long long) { return 12; } std::string conv12(const std::string&) { return "12"; }
// ---- a type-erased reference to a variable
template <typename T> void refs(R& r, strings& o, const char* what)
{
   T a = T(), b = T(), want = T(); u::value v(a), w, x(v); need(!w && !!v && !!x && !(w == v) && v == v,"value: emptiness",what);
   for (int i = 0; i < 4; ++i)
   {
      const std::string s = r.below(4) ? std::to_string(r.num()) : r.word(6); const bool good = model::conv<T>::get(s,want); const u::value& y = r.below(2) ? v : x;
      bool ok = false; switch (r.below(3)) { case 0 : ok = y(s); break; case 1 : ok = y(s.data(),s.data() + s.size()); break; default: ok = y(std::make_pair(s.data(),s.data() + s.size())); }
      need(ok == good && a == want,"value: assigned from text",what,s,ok,a); std::string t; need(x.to_string(t) && t == dig_text(a),"value: text of it",what,t); o.push_back(t);
   }
   w.assign(b); need(w("12") && b == conv12(b),"value: given a variable later",what); x = w; need(x("12"),"value: copied",what); w = u::value(); need(!w("12") && !w,"value: cleared",what); std::string none("n"); need(!w.to_string(none) && none == "n","value: text of none",what);
}
KIND(value_refs) { strings o; refs<int>(r,o,"int"); refs<unsigned>(r,o,"unsigned"); refs<std::string>(r,o,"string"); refs<long long>(r,o,"long long"); (void)n; return dig(o); }
// ---- values with a history
KIND(attributes)
{
   strings o; const int start = int(n); u::attribute<std::string> a; u::attribute<int> b(start); std::string now, before; bool set = false; int bn = int(n), bp = int(n); need(!a.initialised() && b.initialised() && !b.changed() && b == bn,"attribute: start");
   for (size_t i = 0; i < 1 + n; ++i)
   {
      const std::string s = r.word(3); const int k = r.num() % 3;
      switch (r.below(5))
      {
         case 0 : { a = s; before = now; now = s; set = true; b = k; bp = bn; bn = k; break; }
         case 1 : { need(strtk::string_to_type_converter(s,a),"attribute: from text"); now = s; set = true; const std::string t = r.below(3) ? std::to_string(k) : s; int x; const bool good = model::integer(t,x); need(strtk::string_to_type_converter(t,b) == good,"attribute: number from text",t); if (good) bn = x; break; }
         case 2 : { const std::string t = s + "," + std::to_string(k); need(strtk::parse(t,",",a,b),"attribute: parse"); now = s; bn = k; set = true; break; }
         case 3 : { a.value() = s; now = s; b() = k; bn = k; break; }
         default: { u::attribute<std::string> c(a); need(c.value() == a.value() && c.initialised() == a.initialised() && c.previous() == a.previous(),"attribute: copy"); break; }
      }
      std::string t("none"); const bool told = strtk::type_to_string(a,t); std::ostringstream os; os << a << b;
      need(told == set && t == (set ? now : std::string("none")),"attribute: text of it",told,t); need(a.value() == now && a() == now && std::string(a) == now && a.initialised() == set && a.changed() == (set && now != before) && a.previous() == before,"attribute",now,a.value(),before,a.previous());
      need((now.c_str() == a) && !(now.c_str() != a) && (a == now) == set && (a != now) == !set,"attribute: comparison"); need(int(b) == bn && b.previous() == bp && b.changed() == (bn != bp) && b != bn + 1 && os.str() == now + std::to_string(bn),"attribute of a number",bn,bp,os.str());
      o.push_back(dig(now,bn,set));
   }
   return dig(o);
}
KIND(restoring)
{
   strings o; int i = int(n); std::string s = r.word(8); const std::string s0 = s; std::vector<int> v(3,i);
   { u::scoped_restore<int> a(i); i = r.num(); { u::scoped_restore<std::string> b(s,r.below(2) != 0); s = r.word(9); if (r.below(2)) b.restore() = !b.restore(); o.push_back(dig(b.restore())); } u::scoped_restore<std::vector<int> > c(v); v.clear(); }
   need(i == int(n) && v == std::vector<int>(3,i),"scoped_restore"); try { u::scoped_restore<std::string> d(s); s = "lost"; u::scoped_restore<int> e(i,false); i = 7; throw 5; } catch (int) {} need(s != "lost" && i == 7,"scoped_restore: left by an exception"); o.push_back(dig(s == s0,s)); return dig(o);
}
// ---- actions called with the text of a field
struct Act { strings* o; bool ok; bool operator()(const unsigned char* b, const unsigned char* e) const { o->push_back(std::string(b,e)); return ok; } };
KIND(actions)
{
   strings o, seen, want; Act good = { &seen, true }, bad = { &seen, false }; u::semantic_action_impl a = u::semantic_action(good), b = u::semantic_action(bad), none, c(a); need(!none && !!a && !!c && !(none == a) && a == a,"semantic_action: emptiness");
   for (size_t i = 0; i < 1 + n / 3; ++i)
   {
      const std::string s = r.word(12), t = r.word(4); const int k = r.num(); int x = 0; const bool fails = r.below(3) == 0, empty = r.below(6) == 0;
      const bool ok = strtk::parse(s + ";" + std::to_string(k) + ";" + t,";",empty ? none.ref() : fails ? b.ref() : c.ref(),x,a.ref());
      if (!empty) want.push_back(s); if (!fails && !empty) want.push_back(t); need(ok == (!fails && !empty) && x == (ok ? k : 0) && seen == want,"semantic_action in a parse",s,t,ok,x,seen);
      need(a(s) && !b(std::make_pair(t.data(),t.data() + t.size())) && !none(s) && a(s.data(),s.data() + s.size()),"semantic_action called"); want.push_back(s); want.push_back(t); want.push_back(s); need(seen == want,"semantic_action: the text it is called with");
      std::string name; need(strtk::type_to_string(a,name) && name == "semantic_action","semantic_action: its name"); o.push_back(dig(ok,x,seen.size()));
   }
   return dig(o,seen);
}
// ---- keys and values of maps
template <typename C, typename M> void keys(const M& m, const strings& want, const char* what) { C c; u::make_key_list(m,c); need(strings(c.begin(),c.end()) == want,"make_key_list",what); }
KIND(key_lists)
{
   std::map<std::string,int> m; std::multimap<int,std::string> mm; for (size_t i = 0; i < n; ++i) { m[r.word(3)] = int(i); mm.insert(std::make_pair(int(r.below(3)),r.word(5))); } strings want, vals; for (const auto& p : m) want.push_back(p.first); for (const auto& p : mm) if (p.first == 1) vals.push_back(p.second);
   keys<strings>(m,want,"vector"); keys<std::list<std::string> >(m,want,"list"); keys<std::deque<std::string> >(m,want,"deque"); keys<std::set<std::string> >(m,want,"set"); keys<std::multiset<std::string> >(m,want,"multiset");
   strings a; std::list<std::string> b; strings c; u::make_value_list(mm,1,a); u::make_value_list(mm,1,b); u::make_value_list(mm,1,std::back_inserter(c)); need(a == vals && strings(b.begin(),b.end()) == vals,"make_value_list",a,vals);
   need(c == vals,"make_value_list to an iterator"); return dig(want,vals);
}
// ---- containers of pointers
struct Counted { static thread_local long alive; int v; long at; explicit Counted(int i) : v(i), at(alive) { ++alive; } ~Counted() { --alive; } };
thread_local long Counted::alive = 0;
struct Earlier { bool operator()(const Counted* a, const Counted* b) const { return a->v != b->v ? a->v < b->v : a->at < b->at; } };      // by address, a set would be another one every time
typedef std::set<Counted*,Earlier> counted_set; typedef std::multiset<Counted*,Earlier> counted_multiset;
struct Uneven { bool operator()(const Counted* c) const { return c->v % 2 != 0; } template <typename K> bool operator()(const std::pair<const K,Counted*>& p) const { return p.second->v % 2 != 0; } };
template <typename C> struct Owner { C c; ~Owner() { for (Counted* p : c) delete p; } };
template <typename C> struct MapOwner { C c; ~MapOwner() { for (auto& p : c) delete p.second; } };
void add(std::vector<Counted*>& c, Counted* p) { c.reserve(c.size() + 1); c.push_back(p); } void add(std::deque<Counted*>& c, Counted* p) { c.push_back(p); } void add(std::list<Counted*>& c, Counted* p) { c.push_back(p); } void add(counted_set& c, Counted* p) { c.insert(p); } void add(counted_multiset& c, Counted* p) { c.insert(p); }
template <typename C> void some(C& c, std::multiset<int>&) { u::delete_if(Uneven(),c); }
void some(counted_set& c, std::multiset<int>& left) { left.clear(); for (Counted* p : c) left.insert(p->v); }            // delete_if of sets does not compile
void some(counted_multiset& c, std::multiset<int>& left) { left.clear(); for (Counted* p : c) left.insert(p->v); }
template <typename C> void owned(R& r, strings& o, size_t n, const char* what)
{
   const long before = Counted::alive; Owner<C> x; std::multiset<int> even, left; for (size_t i = 0; i < n; ++i) { const int v = int(r.below(100)); std::unique_ptr<Counted> p(new Counted(v)); add(x.c,p.get()); p.release(); if (v % 2 == 0) even.insert(v); }
   some(x.c,even); for (Counted* p : x.c) left.insert(p->v); need(left == even && Counted::alive == before + long(even.size()),"delete_if",what,Counted::alive - before); u::delete_all(x.c); need(x.c.empty() && Counted::alive == before,"delete_all",what,Counted::alive - before); o.push_back(dig(even));
}
template <typename C> void owned_map(R& r, strings& o, size_t n, const char* what)
{
   const long before = Counted::alive; MapOwner<C> x; std::multiset<int> even, left; for (size_t i = 0; i < n; ++i) { const int v = int(r.below(100)); std::unique_ptr<Counted> p(new Counted(v)); x.c.insert(typename C::value_type(int(i) / (what[1] == 'u' ? 2 : 1),p.get())); p.release(); if (v % 2 == 0) even.insert(v); }
   u::delete_if(Uneven(),x.c); for (auto& p : x.c) left.insert(p.second->v); need(left == even && Counted::alive == before + long(even.size()),"delete_if",what,Counted::alive - before); u::delete_all(x.c); need(x.c.empty() && Counted::alive == before,"delete_all",what,Counted::alive - before); o.push_back(dig(even));
}
KIND(pointers)
{
   strings o; owned<std::vector<Counted*> >(r,o,n,"vector"); owned<std::deque<Counted*> >(r,o,n,"deque"); owned<std::list<Counted*> >(r,o,n,"list"); owned<counted_set >(r,o,n,"set"); owned<counted_multiset >(r,o,n,"multiset");
   owned_map<std::map<int,Counted*> >(r,o,n,"map"); owned_map<std::multimap<int,Counted*> >(r,o,n,"multimap"); return dig(o);
}
template <size_t N> struct Push
{
   template <size_t... I> static void go(const std::vector<int>& v, std::index_sequence<I...>)
   {
      const std::vector<int> w(v.begin(),v.begin() + N); std::vector<int> a; std::list<int> b; std::deque<int> c; std::set<int> d; std::multiset<int> e; u::push_back(a,v[I]...); u::push_back(b,v[I]...); u::push_back(c,v[I]...); need(a == w && std::vector<int>(b.begin(),b.end()) == w && std::vector<int>(c.begin(),c.end()) == w,"push_back of several",w,a);
      sets(v,w,d,e,std::index_sequence<I...>(),std::integral_constant<bool,(N < 11)>()); u::clear(a); u::clear(b); u::clear(c); u::clear(d); u::clear(e); need(a.empty() && b.empty() && c.empty() && d.empty() && e.empty(),"clear");
   }
   template <size_t... I> static void sets(const std::vector<int>& v, const std::vector<int>& w, std::set<int>& d, std::multiset<int>& e, std::index_sequence<I...>, std::true_type) { u::push_back(d,v[I]...); u::push_back(e,v[I]...); need(d == std::set<int>(w.begin(),w.end()) && e == std::multiset<int>(w.begin(),w.end()),"push_back of several into a set",w); }
   template <size_t... I> static void sets(const std::vector<int>&, const std::vector<int>&, std::set<int>&, std::multiset<int>&, std::index_sequence<I...>, std::false_type) {}
   static void one(const std::vector<int>& v, size_t n) { if (n == N) go(v,std::make_index_sequence<N>()); else Push<N - 1>::one(v,n); }
};
template <> struct Push<0> { static void one(const std::vector<int>&, size_t) {} };
KIND(pushing)
{
   std::vector<int> v; for (int i = 0; i < 12; ++i) v.push_back(int(r.below(9))); for (int i = 0; i < 4; ++i) Push<11>::one(v,1 + r.below(11)); std::queue<int> q; std::stack<int> s; std::priority_queue<int> p; for (size_t i = 0; i < n; ++i) { q.push(int(i)); s.push(int(i)); p.push(int(i)); }
   std::multimap<int,int> m; u::clear(q); u::clear(s); need(q.empty() && s.empty(),"clear of a queue"); return dig(v);
}
// ---- names and lengths of types
KIND(names)
{
   const std::vector<int> v; const std::deque<double> d; const std::list<std::string> l; const std::set<unsigned> s; const std::multiset<short> m; const int a[3] = { 0, 0, 0 }; const std::pair<int,std::string> p;
   const strings got = { strtk::type_name(int(n)), strtk::type_name(v), strtk::type_name(d), strtk::type_name(l), strtk::type_name(s), strtk::type_name(m), strtk::type_name(a), strtk::type_name(p), strtk::type_name(1.5f), strtk::type_name(1.5), strtk::type_name(short(1)), strtk::type_name(1ull), strtk::type_name(r) };
   static const char* const want[] = { "int", "std::vector<int>", "std::deque<double>", "std::list<std::string>", "std::set<unsigned int>", "std::multiset<short>", "int[3]", "std::pair<int,std::string>", "float", "double", "short", "unsigned long long int", "Unknown" };
   for (size_t i = 0; i < got.size(); ++i) need(got[i] == want[i],"type_name",got[i],want[i]); return dig(got,strtk::type_length<int>(),strtk::type_length(1ull),strtk::type_length<short>());
}
// ---- the string with operators
KIND(ext_strings)
{
   strings o; std::string m; strtk::ext_string e;
   auto replaced = [](const std::string& s, const std::string& p, const std::string& q) { std::string t; size_t at = 0; for (;;) { const size_t f = s.find(p,at); if (f == std::string::npos) break; t += s.substr(at,f - at) + q; at = f + p.size(); } return t + s.substr(at); };
   for (size_t i = 0; i < 2 + n / 2; ++i)
   {
      const std::string s = r.text(r.below(12),"abAB.-"), p = r.text(1 + r.below(2),"ab"); const int k = r.num();
      switch (r.below(12))
      {
         case 0 : e << s << k; m += s + std::to_string(k); break;
         case 1 : e += s; e += k; m += s + std::to_string(k); break;
         case 2 : { if (m.size() > 200) { e.as_string().erase(50); m.erase(50); } const size_t t = 1 + r.below(3); e *= t; std::string w; for (size_t j = 0; j <= t; ++j) w += m; m = w; break; }              // adds that many copies to the one there is
         case 3 : e -= p; m = replaced(m,p,""); break;
         case 4 : e.replace(p,s); m = replaced(m,p,s); break;
         case 5 : e.to_lowercase(); m = down(m); break;
         case 6 : e.to_uppercase(); for (char& c : m) if (c >= 'a' && c <= 'z') c = char(c - 32); break;
         case 7 : e.remove_leading(p); { const size_t f = m.find_first_not_of(p); m = f == std::string::npos ? std::string() : m.substr(f); } break;
         case 8 : e.remove_trailing(p); { const size_t f = m.find_last_not_of(p); m = f == std::string::npos ? std::string() : m.substr(0,f + 1); } break;
         case 9 : { const size_t t = r.below(4); std::string w; for (size_t j = 0; j < t; ++j) w += s; need((strtk::ext_string(s) * t).as_string() == w && (t * strtk::ext_string(s.c_str())).as_string() == w,"ext_string: repeated",s,t); break; }
         case 10: need((e + k).as_string() == m + std::to_string(k) && (k + e).as_string() == std::to_string(k) + m && (e - p).as_string() == replaced(m,p,"") && (e - p.c_str()).as_string() == replaced(m,p,"") && (e - strtk::ext_string(p)).as_string() == replaced(m,p,""),"ext_string: sum and difference",m,p); break;
         default: { strtk::ext_string f(e); need(f.imatch(down(m)) && e.imatch(f) && !f.imatch(m + "x"),"ext_string: imatch"); std::string w(s); if (!w.empty()) { const strtk::ext_string g(strtk::range::adapter<char>(&w[0],w.size())); need(g.clone() == s,"ext_string of a range",s); } break; }
      }
      std::ostringstream os; os << e; need(e.as_string() == m && std::string(e) == m && os.str() == m,"ext_string",m,e.as_string()); o.push_back(m);
   }
   const std::string t = numbers(r,n); std::vector<int> v, w; const strtk::ext_string et(t); const size_t a = et.parse(",;",v), b = et.parse(std::string(",;"),w); strings x, y, z, q; const size_t c = et.split(strtk::multiple_char_delimiter_predicate(",;"),x), d = et.split(",;",ins(y)), f = et.split_n(strtk::multiple_char_delimiter_predicate(",;"),3,z), g = et.split_n(',',2,ins(q));
   const strings toks = model::tokens(t,",;",false), one = model::tokens(t,",",false); need(x == toks && y == toks && c == toks.size() && d == c,"ext_string: split",t,x,y); need(z == strings(toks.begin(),toks.begin() + std::min<size_t>(3,toks.size())) && f == z.size() && q == strings(one.begin(),one.begin() + std::min<size_t>(2,one.size())) && g == q.size(),"ext_string: split_n",t,z,q);
   need(a == v.size() && v == w && b == a && v.size() == toks.size(),"ext_string: parse",t,v); int i = 0; need(strtk::ext_string("12").as_type<int>() == 12 && strtk::ext_string("13").as_type(i) && i == 13 && !strtk::ext_string("x").as_type(i),"ext_string: as_type");
   need(strtk::ext_string::all_digits().as_string() == "0123456789" && strtk::ext_string::all_letters().as_string() == strtk::ext_string::all_lowercase_letters().as_string() + strtk::ext_string::all_uppercase_letters().as_string() && strtk::ext_string::all_chars().as_string().size() == 256 && strtk::ext_string::all_chars().as_string()[200] == char(200),"ext_string: alphabets");
   return dig(o,v,x,z,q);
}
// ---- conditions on text
KIND(conditions)
{
   strings o; typedef strtk::string_condition C; const std::string p = r.text(1 + r.below(4),"ab"), pat = r.text(1 + r.below(4),"ab*?"); C eq(C::equal,p), ne(C::notequal,p), li(C::like,pat), be(C::begins_with,p), en(C::ends_with,p), in(C::within,p), ou(C::notwithin,p);
   for (size_t i = 0; i < 2 + n; ++i)
   {
      const std::string s = r.below(4) ? r.text(r.below(9),"ab") : r.below(2) ? p : p + r.text(r.below(3),"ab") + p; const bool has = s.find(p) != std::string::npos;
      need(eq(s) == (s == p) && ne(s) == (s != p),"string_condition: equal",p,s); need(in(s) == has && ou(s) == !has,"string_condition: within",p,s); need(li(s) == strtk::match(pat,s),"string_condition: like",pat,s);
      typedef const unsigned char* U; const U b = U(s.data()), e = b + s.size(); need(be(b,e) == (s.compare(0,p.size(),p) == 0),"string_condition: begins_with",p,s); need(en(b,e) == (s.size() >= p.size() && s.compare(s.size() - p.size(),p.size(),p) == 0),"string_condition: ends_with",p,s); o.push_back(dig(has,li(s)));
   }
   return dig(o);
}
template <typename P> void sizes(const P& p, bool want, const std::string& s, const char* what)
{
   const std::vector<char> v(s.begin(),s.end()); const std::list<char> l(s.begin(),s.end()); std::set<int> st; std::multiset<int> ms; for (size_t i = 0; i < s.size(); ++i) { st.insert(int(i)); ms.insert(1); }
   need(p(s) == want && p(v) == want && p(l) == want && p(st) == want && p(ms) == want && p(s.data(),s.data() + s.size()) == want && p(std::make_pair(s.begin(),s.end())) == want,"size condition",what,s.size());
}
KIND(size_conditions)
{
   strings o; for (size_t i = 0; i < 4; ++i) { const std::string s = r.text(r.below(10),"ab"); const size_t k = s.size(); sizes(strtk::size_equal_to<4>(),k == 4,s,"equal"); sizes(strtk::size_less_than<5>(),k < 5,s,"less"); sizes(strtk::size_greater_than<3>(),k > 3,s,"greater"); sizes(strtk::size_is_even(),k % 2 == 0,s,"even"); sizes(strtk::size_is_odd(),k % 2 != 0,s,"odd"); o.push_back(s); }
   const strings v = r.words(n,5); strings kept, some, want, rest, lost, wl; const std::string names[] = { v.empty() ? "x" : v[0], "ab", r.word(2) }; Keep all = { &kept };
   strtk::filter_on_wildcard_match<Keep> f("a*",all), g("?b*",all,false); for (const std::string& s : v) { f(s); g(s); if (s[0] == 'a') want.push_back("+" + s); if (!strtk::match("?b*",s)) want.push_back("+" + s); } need(kept == want,"filter_on_wildcard_match",kept,want); kept.clear(); want.clear();
   strtk::filter_on_match<Keep> h(names,names + 3,all,false), k(names,names + 3,all,true,false), m(names,names + 3,all,true); for (const std::string& s : v) { std::string t(s); if (r.below(2)) strtk::convert_to_uppercase(t); bool same = false, close = false; for (const std::string& x : names) { same = same || x == t; close = close || down(x) == down(t); }
      h(t); if (same) want.push_back("+" + t); k(t); if (!close) want.push_back("+" + t); m(std::make_pair(t.data(),t.data() + t.size())); if (close) want.push_back(t); } need(kept == want,"filter_on_match",kept,want);
   return dig(o,kept);
}
// ---- hashes and tries
KIND(hashes)
{
   const std::string s = r.bytes(n * 3); std::vector<int> v; std::deque<unsigned> d; std::list<double> l; std::vector<ull> x; for (size_t i = 0; i < n * 2; ++i) { v.push_back(r.num()); d.push_back(unsigned(r.next())); l.push_back(r.real()); x.push_back(r.next()); }
   const unsigned h = strtk::hash(s), i = strtk::hash(s.begin(),s.size()), j = strtk::hash(s,unsigned(n + 1)), k = strtk::hash(v), q = strtk::hash(d), w = strtk::hash(l), y = strtk::hash(x); need(h == i && h == strtk::hash(std::string(s)),"hash of a string"); need(k == strtk::hash(v.begin(),v.size()) && q == strtk::hash(std::vector<unsigned>(d.begin(),d.end())),"hash of a sequence");
   std::string t(s); if (t.size() > 1 && t.size() % 2 == 0) { t[r.below(uint32_t(t.size()))] ^= char(1 + r.below(255)); } std::string raw(s); const unsigned z = raw.empty() ? 0 : strtk::hash(reinterpret_cast<unsigned char*>(&raw[0]),raw.size()); return dig(h,j,k,q,w,y,z,strtk::hash(t));
}
KIND(tries)
{
   typedef strtk::trie::prefix<std::string::const_iterator,int> T; T t; std::map<std::string,int> m; strings o; for (size_t i = 0; i < n; ++i) { const std::string k = r.text(1 + r.below(5),"ab"); const int v = r.num(); if (r.below(2)) strtk::trie::insert(t,k,v); else t.insert(k.begin(),k.end(),v); m.insert(std::make_pair(k,v)); m[k] = v; }
   for (size_t i = 0; i < 6; ++i) { const std::string k = r.text(1 + r.below(6),"ab"); int a = -1, b = -1; const bool x = strtk::trie::find(t,k,a), y = strtk::trie::find(t,k.c_str(),b), p = strtk::trie::find_prefix(t,k), q = strtk::trie::find_prefix(t,k.c_str()); const auto f = m.find(k); bool pre = false; for (const auto& e : m) pre = pre || e.first.compare(0,k.size(),k) == 0;
      need(x == (f != m.end()) && y == x && a == (x ? f->second : -1) && b == a,"trie: find",k,x,a); need(p == pre && q == pre,"trie: find_prefix",k,p,pre); o.push_back(dig(x,a,p)); }
   return dig(o);
}
} // namespace
