// Kinds of calls: text, ranges, splitting, searching, joining.
#include "text_models.hpp"
namespace {
typedef std::pair<const char*,const char*> crange;
std::string str(const crange& p) { return std::string(p.first,p.second); }
template <typename C> strings texts(const C& c) { strings v; for (const crange& p : c) v.push_back(str(p)); return v; }
std::string numbers(R& r, size_t n, const char* d) { std::string s; for (size_t i = 0; i < n; ++i) { if (i) s += d[r.below(uint32_t(std::strlen(d)))]; s += std::to_string(r.num()); } return s; }
struct Dots { bool operator()(const char c) const { return c == '.' || c == '_'; } bool operator()(const unsigned char c) const { return c == '.'; } };
struct Odds { bool operator()(const int i) const { return i % 2 != 0; } bool operator()(const std::string& s) const { return s.size() % 2 != 0; } };
struct Sum { ull* s; template <typename T> void operator()(const T& t) const { *s = *s * 31 + ull(t); } };
struct Note { strings* o; template <typename I> void operator()(const I b, const I e) const { o->push_back(std::string(b,e)); } };
struct Stop { strings* o; size_t at; template <typename I> bool operator()(const I b, const I e) const { o->push_back(std::string(b,e)); return o->size() < at; } };
typedef strtk::range::adapter<char> chars;
typedef strtk::range::adapter<unsigned char> uchars;
chars all(std::string& s) { return chars(&s[0],s.size()); }
// ---- characters of a range
KIND(ranges)
{
   const std::string s = r.text(2 + n * 3,"ab._-AB"); std::string a(s), b(s), c(s), d(s), e(s), f(s), g(s); strings o;
   const size_t k = strtk::remove_inplace(Dots(),all(a)), l = strtk::remove_consecutives_inplace(Dots(),all(b)), m = strtk::remove_consecutives_inplace(all(c)), p = strtk::remove_trailing(Dots(),all(d)), q = strtk::remove_leading(Dots(),all(e));
   const std::string wa = txt::without(s,Dots()), wb = txt::without_runs(s,Dots()), wc = txt::without_repeats(s);
   need(k == s.size() - wa.size() && a.compare(0,wa.size(),wa) == 0,"remove_inplace of a range",k,a,s); need(l == s.size() - wb.size() && b.compare(0,wb.size(),wb) == 0,"remove_consecutives_inplace of a range",l,b,s); need(m == s.size() - wc.size() && c.compare(0,wc.size(),wc) == 0,"remove_consecutives_inplace of equals in a range",m,c,s);
   same("remove_trailing of a range",s.size() - p,txt::before_trailing(s,Dots()).size(),s); same("remove_leading of a range",s.size() - q,txt::after_leading(s,Dots()).size(),s);
   strtk::replace('a','Q',all(f)); std::string wf(s); for (char& x : wf) if (x == 'a') x = 'Q'; same("replace in a range",f,wf,s);
   chars ca = all(g); ca[0] = 'z'; const chars cc(std::make_pair(&g[0],&g[0] + g.size())); std::string h(s); strtk::convert_to_uppercase(h); same("convert_to_uppercase",h,txt::uppered(s)); need(g[0] == 'z' && cc[1] == s[1] && cc.size() == s.size() && std::string(cc) == g,"range adapter",g,cc.size());
   need(strtk::imatch(chars(all(h)),chars(&const_cast<std::string&>(s)[0],s.size())),"imatch of ranges",h,s);
   same("as_string of a range",std::string(strtk::range::as_string(strtk::range::string(s.data(),s.size()))),s); same("as_string of a range of bytes",std::string(strtk::range::as_string(strtk::range::ustring(reinterpret_cast<const unsigned char*>(s.data()),s.size()))),s);
   return dig(k,a.substr(0,a.size() - k),l,b.substr(0,b.size() - l),m,c.substr(0,c.size() - m),p,q,f,g);
}
KIND(remove)
{
   const std::string s = r.text(2 + n * 3,"ab._-AB"); std::string a(s), b(s), c(s), d(s), e(s), f(s), g(s), h(s), i(s), j(s), k(s); const auto in = [](const char* set) { return [set](char x) { return std::strchr(set,x) != 0; }; };
   strtk::remove_inplace(Dots(),a); strtk::remove_consecutives_inplace('.',b); strtk::remove_consecutives_inplace("._",c); strtk::remove_consecutives_inplace(std::string("ab"),d); strtk::remove_consecutives_inplace(Dots(),e); strtk::remove_consecutives_inplace(f);
   same("remove_inplace",a,txt::without(s,Dots()),s); same("remove_consecutives_inplace of a character",b,txt::without_runs(s,in(".")),s); same("remove_consecutives_inplace of characters",c,txt::without_runs(s,in("._")),s); same("remove_consecutives_inplace of a string",d,txt::without_runs(s,in("ab")),s); same("remove_consecutives_inplace",e,txt::without_runs(s,Dots()),s); same("remove_consecutives_inplace of equals",f,txt::without_repeats(s),s);
   strtk::remove_trailing('.',g); strtk::remove_trailing(Dots(),h); strtk::remove_leading('.',i); strtk::remove_leading(Dots(),j); strtk::remove_trailing("._-",k); const std::string l = strtk::remove_duplicates_inplace(k);
   same("remove_trailing character",g,txt::before_trailing(s,in(".")),s); same("remove_trailing",h,txt::before_trailing(s,Dots()),s); same("remove_leading character",i,txt::after_leading(s,in(".")),s); same("remove_leading",j,txt::after_leading(s,Dots()),s); same("remove_trailing characters",k,txt::before_trailing(s,in("._-")),s); same("remove_duplicates_inplace",l,txt::first_of_each(k),k);
   std::string k2(s), k3(s), k4(s); strtk::remove_trailing(std::string("-_"),k2); strtk::remove_leading(std::string("ab"),k3); strtk::remove_leading("._-",k4); same("remove_trailing of a string",k2,txt::before_trailing(s,in("-_")),s); same("remove_leading of a string",k3,txt::after_leading(s,in("ab")),s); same("remove_leading characters",k4,txt::after_leading(s,in("._-")),s);
   std::vector<int> v; for (size_t x = 0; x < n; ++x) v.push_back(r.num() % 4); std::vector<int> u(v), w(v); strtk::remove_inplace(Odds(),u); strtk::remove_consecutives_inplace(w); same("remove_inplace of numbers",u,txt::without(v,Odds()),v); same("remove_consecutives_inplace of numbers",w,txt::without_repeats(v),v);
   return dig(a,b,c,d,e,f,g,h,i,j,k,l,u,w,k2,k3,k4);
}
KIND(empties)
{
   strings v; for (size_t i = 0; i < n; ++i) v.push_back(r.below(3) ? r.word(20) : std::string()); const strings was(v); std::list<std::string> l(v.begin(),v.end()); std::set<std::string> st(v.begin(),v.end()); std::multiset<std::string> ms(v.begin(),v.end()); std::deque<std::string> q(v.begin(),v.end());
   strtk::remove_empty_strings(v); strtk::remove_empty_strings(l); strtk::remove_empty_strings(st); strtk::remove_empty_strings(ms); strtk::remove_empty_strings(q);
   const strings w = txt::without(was,[](const std::string& x) { return x.empty(); }); { sim::NoFault nf; strings sorted(w); std::sort(sorted.begin(),sorted.end()); const std::set<std::string> ws(w.begin(),w.end()); need(v == w && strings(l.begin(),l.end()) == w && strings(q.begin(),q.end()) == w && st == ws && strings(ms.begin(),ms.end()) == sorted,"remove_empty_strings",was,v,l,q,st,ms); }
   return dig(v,l,st,ms,q);
}
KIND(copying)
{
   std::vector<int> v; for (size_t i = 0; i < n + 2; ++i) v.push_back(r.num()); std::vector<int> a, b, c, d; strtk::copy_n(v.begin(),n,std::back_inserter(a)); const size_t x = size_t(strtk::copy_while(Odds(),v.begin(),v.end(),std::back_inserter(b)) - v.begin()), y = size_t(strtk::copy_until(Odds(),v.begin(),v.end(),std::back_inserter(c)) - v.begin());
   strtk::copy_if(Odds(),v.begin(),v.end(),std::back_inserter(d)); const bool z = strtk::range_only_contains(Odds(),v.begin(),v.end()); const strings ws = r.words(n,3); std::vector<std::string> u; strtk::extract_unique(ws.begin(),ws.end(),std::back_inserter(u));
   { sim::NoFault nf; size_t i = 0, j = 0; while (i < v.size() && v[i] % 2) ++i; while (j < v.size() && !(v[j] % 2)) ++j; const std::vector<int> head(v.begin(),v.begin() + long(n)), odd(v.begin(),v.begin() + long(i)), even(v.begin(),v.begin() + long(j)); const std::set<std::string> us(ws.begin(),ws.end());
     need(a == head,"copy_n",a,v); need(b == odd && x == i,"copy_while",b,x,v); need(c == even && y == j,"copy_until",c,y,v); need(d == txt::without(v,[](int q) { return q % 2 == 0; }),"copy_if",d,v); need(z == (i == v.size()) && strtk::range_only_contains(Odds(),d.begin(),d.end()),"range_only_contains",z,v); need(u == strings(us.begin(),us.end()),"extract_unique",u,ws); }
   return dig(a,b,c,d,x,y,z,u);
}
KIND(replacing)
{
   const std::string s = r.text(4 + n * 6,"aab"), p = r.text(1 + r.below(2),"ab"), q = r.text(r.below(6),"abXY"); std::string o(used(r)), w(s.size() * 8 + 16,'\0'); const size_t k = strtk::replace_pattern(s.data(),s.data() + s.size(),p.data(),p.data() + p.size(),q.data(),q.data() + q.size(),&w[0]);
   const std::string want = txt::replaced(s,p,q); need(k == want.size() && w.compare(0,k,want) == 0,"replace_pattern of a range",k,w.substr(0,k),s,p,q);
   strtk::replace_pattern(s,p,q,o); same("replace_pattern",o,want,s); std::string e(used(r)), c(s); strtk::remove_pattern(s,p,e); same("remove_pattern",e,txt::replaced(s,p,std::string()),s); std::string t(s); strtk::replace('a','b',t.begin(),t.end()); same("replace",t,std::string(s.size(),'b'),s); strtk::sort(c); { sim::NoFault nf; std::string sorted(s); std::sort(sorted.begin(),sorted.end()); same("sort",c,sorted); }
   const std::string m = s + r.text(r.below(3),"1_"); const bool letters = strtk::text::is_all_letters(m), digits = strtk::text::is_all_digits(p) || !strtk::text::is_all_digits("0918273645"); need(letters == (m.find_first_of("1_") == std::string::npos) && !digits,"is_all_letters, is_all_digits",m,p); return dig(k,o,e,t,c,letters);
}
KIND(matching)
{
   strings o; for (size_t i = 0; i < 2 + n / 2; ++i)
   {
      const std::string s = r.text(1 + r.below(20),"abAB"), w = r.text(r.below(7),"ab*?"); std::string t(s), h = s.substr(s.size() / 2), p = s.substr(0,s.size() / 2 + 1); if (r.below(4)) strtk::convert_to_uppercase(t); if (r.below(3) == 0) t[r.below(uint32_t(t.size()))] = 'x';
      strings v = r.words(3,6); v.push_back(t); const std::set<std::string> st(v.begin(),v.end()); const std::multiset<std::string> ms(v.begin(),v.end()); if (r.below(2)) strtk::convert_to_uppercase(h); if (r.below(4) == 0) p[r.below(uint32_t(p.size()))] = 'b';
      const bool m1 = strtk::match(w,s), m2 = strtk::match(w.begin(),w.end(),s.begin(),s.end(),'*','?'); need(m1 == m2 && (!m1 || txt::stands_for(w,s)),"match",w,s,m1,m2); need(strtk::match(p + "*",s) == txt::begins(p,s) && strtk::match(s,t) == (s == t) && strtk::match("*",s),"match of plain patterns",p,s,t);
      const bool im = strtk::imatch(s,t); same("imatch",im,txt::same_fold(s,t),t); const size_t at = size_t(strtk::imatch(s,const_cast<const std::string*>(v.data()),const_cast<const std::string*>(v.data() + v.size())) - v.data()); size_t wat = 0; while (wat < v.size() && !txt::same_fold(s,v[wat])) ++wat; same("imatch in a list",at,wat,s);
      const std::string fs = txt::uppered(s), fh = txt::uppered(h), fp = txt::uppered(p);
      const bool ie = strtk::iends_with(h,s), ed = strtk::ends_with(h,s), ib = strtk::ibegins_with(p,t), bg = strtk::begins_with(p,s), ie2 = strtk::iends_with(h.data(),h.data() + h.size(),s.data(),s.data() + s.size()), ed2 = strtk::ends_with(s.data(),s.data() + s.size(),h.data(),h.data() + h.size()), bg2 = strtk::begins_with(t.data(),t.data() + t.size(),s.data(),s.data() + s.size()), ib2 = strtk::ibegins_with(s + "a",s);
      need(ie == txt::ends(fh,fs) && ie2 == ie,"iends_with",h,s,ie,ie2); need(ed == txt::ends(h,s) && ed2 == txt::ends(s,h),"ends_with",h,s,ed,ed2); need(ib == txt::begins(fp,txt::uppered(t)) && !ib2,"ibegins_with",p,t,ib,ib2); need(bg == txt::begins(p,s) && bg2 == txt::begins(t,s),"begins_with",p,s,t,bg,bg2);
      const size_t f = strtk::ifind(h,s), x = strtk::index_of(h,s), y = strtk::index_of(p,s), z = strtk::index_of(s + "b",s); same("ifind",f,fs.find(fh),h); same("index_of",x,s.find(h),h); same("index_of",y,s.find(p),p); same("index_of what is longer",z,std::string::npos); need(strtk::imatch_char('a',s[0]) == (txt::down(s[0]) == 'a'),"imatch_char",s);
      o.push_back(dig(m1,im,at,ie,ed,ib,bg,f,x,y));
   }
   return dig(o);
}
KIND(finding)
{
   const std::string s = r.text(n * 5,"aabA"), p = r.text(1 + r.below(3),"ab"); std::deque<crange> a, b; std::list<crange> c, d; std::vector<crange> e; if (r.below(2)) { e.push_back(crange(p.data(),p.data())); a.push_back(crange(p.data(),p.data() + p.size())); b = a; } const size_t before = a.size(), ebefore = e.size();
   const size_t k = strtk::find_all(p,s,a), l = strtk::ifind_all(p,s,b), m = strtk::find_all(p.data(),p.data() + p.size(),s.data(),s.data() + s.size(),std::back_inserter(c)), q = strtk::ifind_all(p.data(),p.data() + p.size(),s.data(),s.data() + s.size(),std::back_inserter(d)); strtk::find_all(p.data(),p.data() + p.size(),s.data(),s.data() + s.size(),e);
   { sim::NoFault nf; const txt::places w = txt::found(p,s), iw = txt::found(txt::uppered(p),txt::uppered(s)); const auto at = [&](const std::vector<crange>& v, size_t skip) { txt::places o; for (size_t i = skip; i < v.size(); ++i) { need(v[i].second - v[i].first == long(p.size()),"length of a place found",p,s); o.push_back(size_t(v[i].first - s.data())); } return o; };
     need(k == w.size() && at(std::vector<crange>(a.begin(),a.end()),before) == w && m == k && at(std::vector<crange>(c.begin(),c.end()),0) == w && at(e,ebefore) == w,"find_all",p,s,k,m); need(l == iw.size() && at(std::vector<crange>(b.begin(),b.end()),before) == iw && q == l && at(std::vector<crange>(d.begin(),d.end()),0) == iw,"ifind_all",p,s,l,q); }
   return dig(k,texts(a),l,texts(b),m,texts(c),q,texts(d),texts(e));
}
// ---- splitting
KIND(tokenizers)
{
   const std::string d = delims[r.pick(5)], s = field_text(r,n * 4,d), s2 = field_text(r,n * 3,d); strings o; static const uint32_t modes[] = { 0, 1, 2, 3, 4 }; const uint32_t mode = modes[r.pick(5)]; const strtk::tokenize_options::type to = strtk::tokenize_options::type(mode);
   const auto any = [&](char x) { return d.find(x) != std::string::npos; }; const auto only = [&](char x) { return x == d[0]; }; const auto keep = [&](const char* what, const strings& got, const strings& want, const std::string& of) { if (!(got == want)) need(false,what,of,d,mode,got,want); o.insert(o.end(),got.begin(),got.end()); };
   {
      typedef strtk::std_string::tokenizer<>::type T; strtk::std_string::tokenizer<>::predicate_type p(d[0]); T t(s,p,to); strings g, rest; T::iterator i = t.begin(); while (i != t.end()) { g.push_back(i.as_string()); rest.push_back(i.remaining()); i++; } keep("tokenizer",g,txt::fields(s,only,mode),s); for (size_t k = 0; k < g.size(); ++k) if (!txt::ends(rest[k],s) || !txt::begins(g[k],rest[k])) need(false,"remaining text of a tokenizer",s,k,g[k],rest[k]);
      t.assign(s2); strings g2, g3; for (T::iterator j = t.begin(); j != t.end(); ++j) g2.push_back(j.as_string()); keep("tokenizer of another text",g2,txt::fields(s2,only,mode),s2); T u(t); u = t; for (T::iterator j = u.begin(); !(j == u.end()); ++j) g3.push_back(std::string((*j).first,(*j).second)); keep("copied tokenizer",g3,g2,s2);
      T::iterator x = u.begin(), y(x); x = t.begin(); x += 2; if (g2.size() > 2) same("step of two tokens",x.as_string(),g2[2],s2); else need(x == t.end(),"step of two tokens to the end",s2); if (!g2.empty()) same("copied iterator",y.as_string(),g2[0],s2);
   }
   { typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type T; strtk::multiple_char_delimiter_predicate p(d.begin(),d.end()); T t(s.data(),s.data() + s.size(),p,to); strings g, g2; for (T::iterator j = t.begin(); j != t.end(); ++j) g.push_back(std::string((*j).first,(*j).second)); keep("tokenizer with several delimiters",g,txt::fields(s,any,mode),s); t.assign(s2.data(),s2.data() + s2.size()); strtk::for_each_token(s2,t,Keep{&g2}); keep("for_each_token of a tokenizer",g2,txt::fields(s2,any,mode),s2); }
   { typedef strtk::multiple_delimiter_predicate<char> P; const P p(d.data(),d.data() + d.size()); const P q(d.data(),d.size()); for (char c : s) if (p(c) != any(c) || q(c) != any(c)) need(false,"multiple_delimiter_predicate",d,std::string(1,c)); strings g; strtk::split(p,s,ins(g)); keep("split by a predicate of values",g,txt::fields(s,any,0),s); }
   strings g; strtk::for_each_token(s,d.c_str(),Keep{&g}); keep("for_each_token",g,txt::fields(s,any,0),s); return dig(o);
}
KIND(splits)
{
   const std::string d = delims[r.pick(5)], s = field_text(r,n * 4,d), one(1,d[0]); const strtk::split_options::type so = copt(r); strings o, v, v1; std::deque<crange> q, q1; std::list<crange> l; const crange cr(s.data(),s.data() + s.size()); std::vector<crange> w, w1, w2; if (r.below(2)) { w.push_back(crange(d.data(),d.data() + d.size())); q.push_back(w[0]); v.push_back(d); }
   const auto any = [&](char x) { return d.find(x) != std::string::npos; }; const auto only = [&](char x) { return x == d[0]; }; const strings before(v), many = txt::fields(s,any,so), single = txt::fields(s,only,so); const auto plus = [&](strings x, const strings& y) { x.insert(x.end(),y.begin(),y.end()); return x; };
   const size_t a = strtk::split(d.c_str(),s,ins(v),so), b = strtk::split(strtk::multiple_char_delimiter_predicate(d),cr,std::back_inserter(q),so), c = strtk::split(strtk::single_delimiter_predicate<char>(d[0]),cr,std::back_inserter(l),so), e = strtk::split(d[0],s,ins(v1),so), f = strtk::split(d.c_str(),s,w,so), g = strtk::split(d,s,q1,so), h = strtk::split(strtk::single_delimiter_predicate<char>(d[0]),cr,std::back_inserter(w1),so), i = strtk::split(strtk::multiple_char_delimiter_predicate(d),s,std::back_inserter(w2),so);
   { sim::NoFault nf; need(a == many.size() && v == plus(before,many),"split of a text into strings",s,d,int(so),a,v); need(b == a && texts(q) == plus(before,many),"split of a range",s,d,int(so),b); need(c == single.size() && texts(l) == single,"split of a range by a character",s,one,int(so),c); need(e == c && v1 == single,"split by a character",s,one,int(so),e); need(f == a && texts(w) == plus(before,many),"split into a sequence",s,d,int(so),f); need(g == a && texts(q1) == many,"split into a queue",s,d,int(so),g); need(h == c && texts(w1) == single && i == a && texts(w2) == many,"split by predicates",s,d,int(so),h,i); }
   const size_t k = 1 + r.below(8); strings x1, x2; std::vector<crange> y1, y2; const size_t j = strtk::split_n(d.c_str(),s,k,ins(x1),so), m = strtk::split_n(d[0],s,k,ins(x2),so), p = strtk::split_n(d,s.data(),s.data() + s.size(),k,std::back_inserter(y1),so), x = strtk::split_n(strtk::single_delimiter_predicate<char>(d[0]),s,k,std::back_inserter(y2),so);
   { sim::NoFault nf; const uint32_t sn = so & 6 ? (so & 1) | 2 : so; /* of a run of delimiters split_n includes the first one only */ const strings fm = txt::first_n(txt::fields(s,any,sn),k), fs = txt::first_n(txt::fields(s,only,sn),k); need(j == fm.size() && x1 == fm,"split_n",s,d,int(so),k,j,x1); need(m == fs.size() && x2 == fs,"split_n by a character",s,one,int(so),k,m,x2); need(p == j && texts(y1) == fm,"split_n of a range",s,d,int(so),k,p,texts(y1)); need(x == m && texts(y2) == fs,"split_n by a predicate",s,one,int(so),k,x,texts(y2)); }
   return dig(a,b,c,e,f,g,h,i,k,j,m,p,x,v,texts(q),texts(l),texts(w),x1,x2);
}
KIND(regex)
{
   const std::string t = r.text(n * 3,"ab=12 "); strings o, p, q, u, u2, u3; const bool eq = r.below(2); const size_t k = 1 + r.below(4); const boost::regex e(eq ? "([a-z]+)=([0-9]+)" : "[ab]+"); const size_t a = strtk::split_regex(e,t.begin(),t.end(),ins(o)), b = strtk::split_regex("([ab]+)",t.begin(),t.end(),ins(p),strtk::regex_match_mode::match_1), c = strtk::split_regex(e,t,ins(q)), d = strtk::split_regex_n(e,t.begin(),t.end(),k,ins(u)), f = strtk::split_regex_n("[0-9]",t,size_t(2),ins(u2)), g = strtk::split_regex_n(e,t,size_t(2),ins(u3));
   { sim::NoFault nf; strings runs, both, digits; for (size_t i = 0; i < t.size(); ++i) if (std::isdigit(t[i])) digits.push_back(t.substr(i,1)); for (size_t i = 0; i < t.size();) { size_t x = i; while (x < t.size() && (t[x] == 'a' || t[x] == 'b')) ++x; if (x == i) { ++i; continue; } runs.push_back(t.substr(i,x - i)); size_t y = x + 1; while (x < t.size() && t[x] == '=' && y < t.size() && std::isdigit(t[y])) ++y; if (x < t.size() && y > x + 1) { both.push_back(t.substr(i,y - i)); i = y; } else i = x; }
     const strings w = eq ? both : runs; need(a == w.size() && o == w && c == a && q == w,"split_regex",t,a,o,c,q); need(b == runs.size() && p == runs,"split_regex of a group",t,b,p); need(d == std::min(k,w.size()) && u == txt::first_n(w,k) && g == std::min<size_t>(2,w.size()) && u3 == txt::first_n(w,2),"split_regex_n",t,k,d,u,g,u3); need(f == std::min<size_t>(2,digits.size()) && u2 == txt::first_n(digits,2),"split_regex_n of digits",t,f,u2); }
   return dig(a,b,c,d,f,g,o,p,q,u,u2,u3);
}
template <typename P> void cut_up(const std::string& s, const int* v, size_t count, bool rot, const P& by, strings& all, size_t& pieces)
{
   strings o; pieces = strtk::offset_splitter(s,by,ins(o)); sim::NoFault nf; strings w; size_t at = 0; for (size_t i = 0; at < s.size() && (rot || i < count); ++i) { const size_t k = size_t(v[i % count]); w.push_back(s.substr(at,k)); at += k; }
   need(o == w && pieces == w.size(),"offset_splitter",s,count,rot,o,w); all.insert(all.end(),o.begin(),o.end());
}
KIND(offsets)
{
   int v[12]; for (int& x : v) x = int(1 + r.below(6)); const bool rot = r.below(2); const std::string s = r.text(4 + n * 3,"abcdef"); strings o; size_t k[12];
   cut_up(s,v,1,rot,strtk::offsets(v[0],rot),o,k[0]); cut_up(s,v,2,rot,strtk::offsets(v[0],v[1],rot),o,k[1]); cut_up(s,v,3,rot,strtk::offsets(v[0],v[1],v[2],rot),o,k[2]);
   cut_up(s,v,4,rot,strtk::offsets(v[0],v[1],v[2],v[3],rot),o,k[3]); cut_up(s,v,5,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],rot),o,k[4]); cut_up(s,v,6,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],v[5],rot),o,k[5]);
   cut_up(s,v,7,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],v[5],v[6],rot),o,k[6]); cut_up(s,v,8,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],rot),o,k[7]); cut_up(s,v,9,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],rot),o,k[8]);
   cut_up(s,v,10,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],rot),o,k[9]); cut_up(s,v,11,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],rot),o,k[10]); cut_up(s,v,12,rot,strtk::offsets(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],rot),o,k[11]);
   return dig(o,std::vector<size_t>(k,k + 12));
}
KIND(pairs)
{
   strings o; for (size_t i = 0; i < 1 + n / 4; ++i)
   {
      const std::string s = r.word(12) + (r.below(5) ? "=" : "") + r.text(r.below(9),"ab=;c"); const crange was(s.data(),s.data()); crange a(was), b(was), c(was), e(was); const bool x = strtk::split_pair('=',s,a,b), y = strtk::split_pair(strtk::multiple_char_delimiter_predicate("=;"),s,c,e); const size_t p = s.find('='), q = s.find_first_of("=;");
      need(x == (p < s.size() - 1) && y == (q < s.size() - 1), /* wants something behind the delimiter */ "split_pair",s,x,y); if (x) need(str(a) == s.substr(0,p) && str(b) == s.substr(p + 1),"halves of split_pair",s,str(a),str(b)); if (y) need(str(c) == s.substr(0,q) && str(e) == s.substr(q + 1),"halves of split_pair by a predicate",s,str(c),str(e));
      o.push_back(x && y ? dig(str(a),str(b),str(c),str(e)) : dig(x,y));
   }
   return dig(o);
}
KIND(inserters)
{
   const std::string s = numbers(r,n,",;"); std::set<int> a; std::multiset<int> b; std::queue<int> c; std::stack<int> d; std::priority_queue<int> e; std::vector<int> o, want; { sim::NoFault nf; for (const std::string& x : model::tokens(s,",;",false)) { int v = 0; if (model::conv<int>::get(x,v)) want.push_back(v); } } const bool had = r.below(2); if (had) { a.insert(7); b.insert(7); c.push(7); d.push(7); e.push(7); { sim::NoFault nf; want.insert(want.begin(),7); } }
   strtk::split(",;",s,strtk::range_to_type_inserter(a)); strtk::split(",;",s,strtk::range_to_type_inserter(b)); strtk::split(",;",s,strtk::range_to_type_push_inserter(c)); strtk::split(",;",s,strtk::range_to_type_push_inserter(d)); strtk::split(",;",s,strtk::range_to_type_push_inserter(e));
   while (!c.empty()) { o.push_back(c.front()); c.pop(); } same("range_to_type_push_inserter of a queue",o,want,s); std::vector<int> o2, o3; while (!d.empty()) { o2.push_back(d.top()); d.pop(); } while (!e.empty()) { o3.push_back(e.top()); e.pop(); }
   { sim::NoFault nf; same("range_to_type_push_inserter of a stack",std::vector<int>(o2.rbegin(),o2.rend()),want,s); std::vector<int> w(want); std::sort(w.begin(),w.end()); same("range_to_type_push_inserter of a priority queue",std::vector<int>(o3.rbegin(),o3.rend()),w,s); same("range_to_type_inserter of a multiset",std::vector<int>(b.begin(),b.end()),w,s); same("range_to_type_inserter of a set",a,std::set<int>(w.begin(),w.end()),s); }
   std::vector<int> v, v2; std::set<int> st; std::queue<int> q; std::vector<int> src; for (size_t i = 0; i < n; ++i) src.push_back(r.num()); std::copy(src.begin(),src.end(),strtk::back_inserter_with_valuetype(v)); std::copy(src.begin(),src.end(),strtk::inserter_with_valuetype(st)); std::copy(src.begin(),src.end(),strtk::push_inserter(q)); ull sum = 0, wsum = 0; std::copy(src.begin(),src.end(),strtk::functional_inserter(Sum{&sum})); for (int x : src) wsum = wsum * 31 + ull(x);
   while (!q.empty()) { v2.push_back(q.front()); q.pop(); } size_t cnt = 0; std::copy(src.begin(),src.end(),strtk::counting_back_inserter<int>(cnt)); { sim::NoFault nf; need(v == src && v2 == src && st == std::set<int>(src.begin(),src.end()) && sum == wsum && cnt == src.size(),"back, set, push, functional and counting inserters",src,v,v2,st,sum,cnt); }
   strings w; strtk::range_to_type_back_inserter_iterator<strings> bi = ins(w); bi = s; strtk::range_to_type_back_inserter_iterator<std::vector<int> > bj = strtk::range_to_type_back_inserter(v2); bj = std::string("17"); bj(std::make_pair(s.data(),s.data())); const std::string z = "99"; bj(z.begin(),z.end()); strtk::range_to_type_inserter_iterator<std::set<int> > si = strtk::range_to_type_inserter(st); si = std::make_pair(z.begin(),z.end()); si(std::make_pair(z.begin(),z.end()));
   { sim::NoFault nf; std::vector<int> w2(src); w2.push_back(17); w2.push_back(99); std::set<int> ws(src.begin(),src.end()); ws.insert(99); need(v2 == w2 && st == ws && w == strings(1,s),"inserters called with texts",v2,st,w); }
   return dig(a,b,o,o2,o3,v,st,v2,sum,cnt,w);
}
// ---- numbers of a container
KIND(extremes)
{
   std::vector<int> v; for (size_t i = 0; i < n + 1; ++i) v.push_back(r.num()); const std::set<int> s(v.begin(),v.end()); const std::multiset<int> m(v.begin(),v.end()); const std::list<int> l(v.begin(),v.end()); int a, b, c, d, e, f, g, h; strtk::min_max_of_cont(s,a,b); strtk::min_max_of_cont(m,c,d); strtk::min_max_of_cont(l,e,f); strtk::min_max_of_range(v.begin(),v.end(),g,h);
   const int lo = *s.begin(), hi = *s.rbegin(); need(a == lo && c == lo && e == lo && g == lo && b == hi && d == hi && f == hi && h == hi,"min_max_of_cont",v,a,b,c,d,e,f,g,h); need(strtk::min_of_cont(v) == lo && strtk::min_of_cont(s) == lo && strtk::min_of_cont(m) == lo && strtk::max_of_cont(v) == hi && strtk::max_of_cont(s) == hi && strtk::max_of_cont(m) == hi,"min_of_cont, max_of_cont",v);
   std::vector<int> dv; for (size_t i = 0; i < n + 1; ++i) dv.push_back(int(r.below(3))); size_t dup = 0; for (size_t i = 1; i < dv.size(); ++i) dup += dv[i] == dv[i - 1]; same("count_consecutive_duplicates",strtk::count_consecutive_duplicates(dv.begin(),dv.end()),dup,dv);
   std::deque<int> lc(v.begin(),v.end()); strtk::lexicographically_canonicalize(lc); std::string ls = r.text(n + 2,"cab"); const std::string was(ls); strtk::lexicographically_canonicalize(ls); { sim::NoFault nf; const std::deque<int> twice = [&]() { std::deque<int> t(v.begin(),v.end()); t.insert(t.end(),v.begin(),v.end()); return t; }(); need((was + was).find(ls) != std::string::npos && ls[0] == *std::min_element(was.begin(),was.end()) && ls.size() == was.size(),"lexicographically_canonicalize",was,ls); need(lc.size() == v.size() && lc[0] == lo && std::search(twice.begin(),twice.end(),lc.begin(),lc.end()) != twice.end(),"lexicographically_canonicalize of numbers",v,lc); }
   return dig(a,b,c,d,e,f,g,h,dup,lc,ls);
}
KIND(iota)
{
   const int k = r.num() / 2; std::vector<int> a(n,0), b; std::set<int> s; std::multiset<int> m; std::list<int> l; std::deque<int> d(n,5); const bool had = r.below(2); if (had) { b.push_back(7); l.push_back(7); s.insert(k); m.insert(k); } strtk::iota(a.begin(),a.end(),k); strtk::iota(b,n,k); strtk::iota(s,n,k); strtk::iota(m,n,k); strtk::iota(n,k,std::back_inserter(l)); strtk::iota(d,k); int raw[9]; strtk::range::adapter<int> ra(raw,9); strtk::iota(ra,k);
   { sim::NoFault nf; const std::vector<int> w = txt::counted(n,k), w9 = txt::counted(9,k); std::vector<int> w7(w); if (had) w7.insert(w7.begin(),7); std::set<int> ws(w.begin(),w.end()); std::multiset<int> wm(w.begin(),w.end()); if (had) { ws.insert(k); wm.insert(k); } need(a == w && b == w7 && std::vector<int>(l.begin(),l.end()) == w7 && std::vector<int>(d.begin(),d.end()) == w && s == ws && m == wm && std::vector<int>(raw,raw + 9) == w9,"iota",n,k,a,b,l,d,s,m); }
   const strings w = r.words(n + 1,9); strings c(w), e(w), o; const size_t r0 = r.below(5), r1 = r0 + r.below(4); std::list<std::string> ll(w.begin(),w.end()); strtk::cut(r0,r1,w.begin(),w.end(),std::back_inserter(o)); strtk::cut_inplace(r0,r1,c.begin(),c.end()); strtk::cut_inplace(0,2,e.begin(),e.end()); strtk::cut_inplace(1,3,ll.begin(),ll.end()); strings o2; strtk::cut(r0,r1,w,std::back_inserter(o2));
   { sim::NoFault nf; strings wo, wc, we, wl; for (const std::string& x : w) { if (x.size() >= r0) wo.push_back(x.substr(r0,r1 - r0)); wc.push_back(x.size() >= r0 ? x.substr(r0,r1 - r0) : x); we.push_back(x.substr(0,2)); wl.push_back(x.substr(1,2)); } need(o == wo && o2 == wo,"cut",w,r0,r1,o,o2); need(c == wc && e == we && strings(ll.begin(),ll.end()) == wl,"cut_inplace",w,r0,r1,c,e,ll); }
   const size_t every = 1 + r.below(4); std::vector<int> iv; strtk::interval_inserter<int> ii(every,-1); const size_t z = strtk::inserter(ii,a.begin(),a.end(),std::back_inserter(iv)); { sim::NoFault nf; std::vector<int> wi; for (size_t i = 0; i < n; ++i) { wi.push_back(a[i]); if ((i + 1) % every == 0) wi.push_back(-1); } need(iv == wi && z == wi.size(),"interval_inserter",n,every,iv,z); }
   return dig(a,b,s,m,l,d,std::vector<int>(raw,raw + 9),o,c,e,ll,iv,z);
}
KIND(bits)
{
   const std::string s = r.bytes(1 + n * 3), t = r.bytes(s.size()); typedef const unsigned char* U; const U b = reinterpret_cast<U>(s.data()), e = b + s.size(); std::string bits(s), want(s); unsigned char* p = reinterpret_cast<unsigned char*>(&bits[0]); for (int i = 0; i < 6; ++i) { const uint32_t hi = r.below(uint32_t(s.size() * 8)), lo = r.below(uint32_t(s.size() * 8)); strtk::set_bit_high(hi,p); want[hi / 8] = char(want[hi / 8] | 1 << hi % 8); strtk::set_bit_low(lo,p); want[lo / 8] = char(want[lo / 8] & ~(1 << lo % 8)); }
   same("set_bit_high, set_bit_low",bits,want,s); for (size_t i = 0; i < s.size() * 8; ++i) if (strtk::bit_state(i,p) != (want[i / 8] >> i % 8 & 1)) need(false,"bit_state",i,want);
   strings o; for (int op = 0; op < 3; ++op) { std::string x(used(r)); static const strtk::bitwise_operation::type ops[] = { strtk::bitwise_operation::eAND, strtk::bitwise_operation::eOR, strtk::bitwise_operation::eXOR }; strtk::bitwise_transform(ops[op],s,t,x); same("bitwise_transform",x,txt::bitwise(op,s,t),op); o.push_back(x); }
   unsigned short n2[256]; unsigned int n3[256]; std::memset(n3,0,sizeof n3); strtk::create_nway_interleave_table<2>(n2); for (unsigned i = 0; i < 256; ++i) { unsigned w = 0; for (int j = 0; j < 8; ++j) w |= (i >> j & 1) << 2 * j; if (n2[i] != w) need(false,"create_nway_interleave_table",i,n2[i]); }
   const ull v = r.next(); const size_t dist = strtk::hamming_distance(s,t), elem = strtk::hamming_distance_elementwise(s,t); size_t we = 0; for (size_t i = 0; i < s.size(); ++i) we += s[i] != t[i];
   need(strtk::high_bit_count((unsigned char)(v)) == size_t(__builtin_popcountll(v & 0xFF)) && strtk::high_bit_count((unsigned short)(v)) == size_t(__builtin_popcountll(v & 0xFFFF)) && strtk::high_bit_count((unsigned int)(v)) == size_t(__builtin_popcountll(v & 0xFFFFFFFF)) && strtk::high_bit_count((long long int)(v)) == size_t(__builtin_popcountll(v)) && strtk::high_bit_count(b,e) == txt::ones(s) && strtk::high_bit_count(s.data(),s.data() + s.size()) == txt::ones(s) && strtk::high_bit_count(s) == txt::ones(s),"high_bit_count",v,s);
   need(dist == txt::ones(txt::bitwise(2,s,t)) && elem == we && strtk::hamming_distance_elementwise(s.begin(),s.end(),t.begin(),t.end()) == we && strtk::hamming_distance(s,t + "x") == size_t(-1),"hamming_distance",s,t,dist,elem); return dig(bits,dist,elem,o,v);
}
KIND(encodings)
{
   const std::string s = r.bytes(2 + n * 2); typedef unsigned char* U; typedef const unsigned char* CU; std::string a(s.size() * 2,'\0'), b(a), c(a), d(s.size(),'\0'), e(d), f(d), g(d); const std::pair<U,U> pu(U(s.data()),U(s.data()) + s.size()); const std::pair<CU,CU> pc(CU(s.data()),CU(s.data()) + s.size()); const crange pk(s.data(),s.data() + s.size());
   strtk::convert_bin_to_hex(pu,U(&a[0])); strtk::convert_bin_to_hex(pc,U(&b[0])); strtk::convert_bin_to_hex(pk,&c[0]); std::string a2(used(r)); strtk::convert_bin_to_hex(s,a2); const std::string wh = txt::hex(s); need(a == wh && b == wh && c == wh && a2 == wh && strtk::convert_bin_to_hex(s) == wh,"convert_bin_to_hex",s,a,b,c,a2);
   const bool odd = r.below(3) == 0; std::string h(a,0,a.size() - (odd ? 1 : 0)); if (r.below(4) == 0) h[r.below(uint32_t(h.size()))] = "gG/:@`"[r.below(6)]; if (r.below(4) == 0) h = txt::lowered(h); std::string wb; const bool ok = txt::unhex(h,wb);
   const bool x = strtk::convert_hex_to_bin(std::make_pair(U(&h[0]),U(&h[0]) + h.size()),U(&d[0])), y = strtk::convert_hex_to_bin(std::make_pair(CU(h.data()),CU(h.data()) + h.size()),U(&e[0])), z = strtk::convert_hex_to_bin(std::make_pair(&h[0],&h[0] + h.size()),&f[0]), w = strtk::convert_hex_to_bin(std::make_pair(h.data(),h.data() + h.size()),&g[0]); std::string d2(used(r)); const bool x2 = strtk::convert_hex_to_bin(h,d2);
   const bool even = h.size() % 2 == 0; /* what is no digit counts as 0 */ need(x == even && y == even && z == even && w == even && x2 == even,"convert_hex_to_bin accepts",h,x,y,z,w,x2); if (ok) need(d == wb && e == wb && f == wb && g == wb && d2 == wb,"convert_hex_to_bin",h,d,d2);
   std::string p(s), q(s), t(s); strtk::convert_to_printable_chars(&p[0],&p[0] + p.size()); strtk::convert_to_uppercase(&q[0],&q[0] + q.size()); strtk::convert_to_lowercase(&t[0],&t[0] + t.size()); need(p == txt::printable(s) && q == txt::uppered(s) && t == txt::lowered(s),"convert_to_printable_chars, uppercase, lowercase",s,p,q,t);
   std::string b64(s.size() * 2,'\0'), back(s.size() + 4,'\0'); const size_t l = strtk::convert_bin_to_base64(s.data(),s.data() + s.size(),&b64[0]), m = strtk::convert_base64_to_bin(b64.data(),b64.data() + l,&back[0]); std::string b2(used(r)), bk2(used(r)); strtk::convert_bin_to_base64(s,b2); strtk::convert_base64_to_bin(b2,bk2); const std::string w64 = txt::base64(s); need(l == w64.size() && b64.compare(0,l,w64) == 0 && b2 == w64,"convert_bin_to_base64",s,l,b2,w64); need(m == s.size() && back.compare(0,m,s) == 0 && bk2 == s,"convert_base64_to_bin",w64,m,bk2);
   const char* nr = strtk::first_non_repeated_char(s.data(),s.data() + s.size()); const CU nu = strtk::first_non_repeated_char(pc.first,pc.second); size_t wn = 0; while (wn < s.size() && std::count(s.begin(),s.end(),s[wn]) != 1) ++wn; need(size_t(nr - s.data()) == wn && size_t(nu - pc.first) == wn,"first_non_repeated_char",s,nr - s.data(),nu - pc.first);
   std::string il(s.size() * 2,'\0'), il2(used(r)); const bool i2 = strtk::twoway_bitwise_interleave(s.data(),s.data() + s.size(),p.data(),p.data() + p.size(),&il[0]), i3 = strtk::twoway_bitwise_interleave(s,p,il2); need(i2 && i3 && il == txt::interleaved(s,p) && il2 == il,"twoway_bitwise_interleave",s,p,il,il2); return dig(a,h,x,d2,p,q,t,l,b64,m,back,nr - s.data(),il);
}
// ---- building text
template <size_t... I> std::string construct_all(const strings& v, const std::string& d, std::index_sequence<I...>) { strings w; { sim::NoFault nf; w.assign(v.begin(),v.begin() + long(sizeof...(I))); } std::string o(d + "<"), want = d + "<" + txt::joined(w,d); strtk::construct(o,d,v[I]...); same("construct",o,want,w); return o; }
KIND(construct)
{
   const strings v = r.words(12,9); const std::string d = r.word(3); strings o; o.push_back(construct_all(v,d,std::make_index_sequence<2>())); o.push_back(construct_all(v,d,std::make_index_sequence<3>())); o.push_back(construct_all(v,d,std::make_index_sequence<5>())); o.push_back(construct_all(v,d,std::make_index_sequence<6>())); o.push_back(construct_all(v,d,std::make_index_sequence<7>()));
   o.push_back(construct_all(v,d,std::make_index_sequence<8>())); o.push_back(construct_all(v,d,std::make_index_sequence<9>())); o.push_back(construct_all(v,d,std::make_index_sequence<10>())); o.push_back(construct_all(v,d,std::make_index_sequence<11>())); o.push_back(construct_all(v,d,std::make_index_sequence<12>())); return dig(o);
}
KIND(join)
{
   const strings v = r.words(n,8); const std::string d = r.word(4), had = used(r); const std::list<std::string> l(v.begin(),v.end()); const std::set<std::string> s(v.begin(),v.end()); const std::multiset<std::string> m(v.begin(),v.end()); const std::deque<std::string> q(v.begin(),v.end()); std::string o; const std::string wv = txt::joined(v,d), ws = txt::joined(s,d), wm = txt::joined(m,d); const auto keep = [&](const char* what, const std::string& got, const std::string& want) { same(what,got,want,d); o += got; o += '/'; };
   { std::string x(had); strtk::join(x,d,v); keep("join of a vector onto a text",x,had + wv); } { std::string x(had); strtk::join(x,d,s); keep("join of a set onto a text",x,had + ws); } { std::string x(had); strtk::join(x,d,m); keep("join of a multiset onto a text",x,had + wm); } { std::string x(had); strtk::join(x,d,std::make_pair(v.begin(),v.end())); keep("join of a range onto a text",x,had + wv); } { std::string x(had); strtk::join(x,d,v.begin(),v.end()); keep("join of iterators onto a text",x,had + wv); }
   keep("join of a range",strtk::join(d,std::make_pair(v.begin(),v.end())),wv); keep("join of a list",strtk::join(d,l),wv); keep("join of a set",strtk::join(d,s),ws); keep("join of a multiset",strtk::join(d,m),wm); keep("join of a deque",strtk::join(d,q),wv); keep("join of iterators",strtk::join(d,v.begin(),v.end()),wv);
   const std::string iv = txt::joined_if(v,d,Odds()), is = txt::joined_if(s,d,Odds()), im = txt::joined_if(m,d,Odds());
   { std::string x(had); strtk::join_if(x,d,Odds(),v); keep("join_if of a vector onto a text",x,had + iv); } { std::string x(had); strtk::join_if(x,d,Odds(),s); keep("join_if of a set onto a text",x,had + is); } { std::string x(had); strtk::join_if(x,d,Odds(),m); keep("join_if of a multiset onto a text",x,had + im); } { std::string x(had); strtk::join_if(x,d,Odds(),std::make_pair(v.begin(),v.end())); keep("join_if of a range onto a text",x,had + iv); } { std::string x(had); strtk::join_if(x,d,Odds(),v.begin(),v.end()); keep("join_if of iterators onto a text",x,had + iv); }
   keep("join_if of a range",strtk::join_if(d,Odds(),std::make_pair(v.begin(),v.end())),iv); keep("join_if of a set",strtk::join_if(d,Odds(),s),is); keep("join_if of a multiset",strtk::join_if(d,Odds(),m),im); keep("join_if of a deque",strtk::join_if(d,Odds(),q),iv);
   std::vector<char*> av; for (const std::string& w : v) av.push_back(const_cast<char*>(w.c_str())); av.push_back(0); { std::string x(had); strtk::join(x,d,int(n),&av[0]); keep("join of arguments onto a text",x,had + wv); } keep("join of arguments",strtk::join(d,int(n),&av[0]),wv); return o;
}
KIND(bracketize)
{
   strings v = r.words(n,8); const std::string d = r.word(4), e = r.word(3), had = used(r); std::list<std::string> l(v.begin(),v.end()); std::set<std::string> s(v.begin(),v.end()); std::multiset<std::string> m(v.begin(),v.end()); std::deque<std::string> q(v.begin(),v.end()); std::string o; const std::string wv = txt::wrapped(v,d,e), ws = txt::wrapped(s,d,e), wm = txt::wrapped(m,d,e); const auto keep = [&](const char* what, const std::string& got, const std::string& want) { same(what,got,want,d); o += got; o += '/'; };
   { std::string x(had); strtk::bracketize(x,d,e,v); keep("bracketize of a vector onto a text",x,had + wv); } { std::string x(had); strtk::bracketize(x,d,e,s); keep("bracketize of a set onto a text",x,had + ws); } { std::string x(had); strtk::bracketize(x,d,e,m); keep("bracketize of a multiset onto a text",x,had + wm); } { std::string x(had); strtk::bracketize(x,d,e,v.begin(),v.end()); keep("bracketize of iterators onto a text",x,had + wv); }
   keep("bracketize of a list",strtk::bracketize(d,e,l),wv); keep("bracketize of a set",strtk::bracketize(d,e,s),ws); keep("bracketize of a multiset",strtk::bracketize(d,e,m),wm); keep("bracketize of a deque",strtk::bracketize(d,e,q),wv);
   const size_t k = n % 9; std::string t(d), u(had); strtk::replicate_inplace(k,t); keep("replicate_inplace",t,txt::repeated(k + 1,d)); strtk::replicate(k,e,u); keep("replicate onto a text",u,had + txt::repeated(k,e)); keep("replicate",strtk::replicate(k,d),txt::repeated(k,d));
   const int num = r.num(); strtk::build_string b(30); b << d << e << num; const char* const cs = b; const std::string wb = d + e + std::to_string(num); keep("build_string as characters",cs,wb); keep("build_string",b.to_str(),wb); return o;
}
KIND(align)
{
   const std::string s = r.word(20); const int i = r.num(); using namespace strtk::text; strings o; const std::string t0 = std::to_string(i); const auto pads = [&](const std::string& x, char c, int how) { sim::NoFault nf; const size_t k = n > x.size() ? n - x.size() : 0; return how == 0 ? x + std::string(k,c) : how == 1 ? std::string(k,c) + x : std::string(k / 2,c) + x + std::string(k - k / 2,c); }; const auto keep = [&](const char* what, const std::string& got, const std::string& want) { same(what,got,want,n); o.push_back(got); };
   keep("center of a number",center(n,'*',i),pads(t0,'*',2)); keep("right_align of a number",right_align(n,'*',i),pads(t0,'*',1)); keep("left_align of a number",left_align(n,'*',i),pads(t0,'*',0)); keep("center",center(n,i),pads(t0,' ',2)); keep("right_align",right_align(n,s),pads(s,' ',1)); keep("left_align",left_align(n,s),pads(s,' ',0)); keep("center of a text",center(n,'-',s),pads(s,'-',2));
   std::string x(used(r)); const size_t at = n % 9; remaining_string(at,s,x); keep("remaining_string",x,at < s.size() ? s.substr(at) : s); remaining_string(n,s,x,true); keep("remaining_string or nothing",x,n < s.size() ? s.substr(n) : std::string());
   std::string t(s), u(s), v(s); const size_t a = r.below(uint32_t(s.size())), b = r.below(uint32_t(s.size())), far = s.size() + r.below(2); swap_inplace(t,a,b); remove_inplace(u,a); insert_inplace(v,a,'#'); std::string wt(s), wu(s), wv(s), wi(s); std::swap(wt[a],wt[b]); wu.erase(a,1); wv.insert(a,1,'#'); wi.insert(b,1,'%'); keep("swap_inplace",t,wt); keep("text::remove_inplace",u,wu); keep("insert_inplace",v,wv); keep("text::swap",swap(s,a,b),wt); keep("text::remove",remove(s,a),wu); keep("text::insert",insert(s,b,'%'),wi);
   std::string same_as(s); swap_inplace(same_as,a,far); swap_inplace(same_as,far,b); remove_inplace(same_as,far); keep("edits behind the end",same_as,s);
   for (int c = 0; c < 256; ++c) { const char ch = char(c); const bool lower = c >= 'a' && c <= 'z', upper = c >= 'A' && c <= 'Z', digit = c >= '0' && c <= '9', hexa = digit || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); if (is_letter(ch) != (lower || upper) || is_lowercase_letter(ch) != lower || is_uppercase_letter(ch) != upper || is_digit(ch) != digit || is_hex_digit(ch) != hexa || is_letter_or_digit(ch) != (lower || upper || digit)) need(false,"classes of characters",c); } return dig(o);
}
KIND(consecutive)
{
   const std::string t = r.text(n * 3,"aabB11  "); strings o; using namespace strtk; const find_type::type ty = find_type::type(r.pick(8)); const find_mode::type mo = r.pick(2) ? find_mode::exactly_n : find_mode::atleast_n; const size_t k = 1 + r.below(3);
   const size_t a = split_on_consecutive(k,ty,mo,t,ins(o)), b = split_on_consecutive(k,ty,mo,t.data(),t.data() + t.size(),ins(o)), d = split_on_consecutive(k,text::is_digit,t,ins(o)), e = split_on_consecutive(k,text::is_letter,t.data(),t.data() + t.size(),ins(o));
   using namespace strtk::details; const bool f = match_exactly_n_consecutive_values(k,text::is_letter,t.begin(),t.end()), g = match_atleast_n_consecutive_values(k,text::is_digit,t.begin(),t.end()), h = match_n_consecutive_values(k,mo,text::is_letter,t.begin(),t.end());
   return dig(a,b,d,e,f,g,h,o);
}
KIND(wordlike)
{
   const std::string s = r.text(n,"aabc"); const std::vector<char> v(s.begin(),s.end()); const std::string w = r.text(n,"ab01"); std::string t = numbers(r,3,","); strings o; int i = 0, j = 0, k = 0; std::string lc, uc, a, b; char buf[9] = { 0 };
   strtk::details::expect_impl ex = strtk::expect("abc"); strtk::details::iexpect_impl ie = strtk::iexpect("aBc"); const int lo = -1000, hi = 100000; strtk::details::inrange_impl<int> ir = strtk::inrange(i,lo,hi); const bool q = strtk::parse(std::string(r.below(2) ? "abc" : "abd") + ",ABC," + std::to_string(r.num()) + ",x",",",ex,ie,ir,a);
   strtk::details::fill_array_impl fa = strtk::fill_array(buf,4); strtk::details::like_impl lk = strtk::like("a*"); const bool p = strtk::parse(r.text(4,"abcd") + "," + r.text(3,"ab"),",",fa,lk); std::string fs(5,'.'); strtk::details::fill_array_impl fb = strtk::fill_array(fs); const bool y = strtk::parse(r.text(5,"abcd") + ",q",",",fb,b); strtk::trim("#",j); strtk::details::conv_to_lcase_impl l2 = strtk::as_lcase(lc); const bool z = strtk::parse(std::string("ABC,x"),",",l2.ref(),uc);
   ex.set_value("zz"); ie.set_value("q"); lk.set_pattern("?"); ir.set_low_hi(1,2); return dig(q,i,a,p,std::string(buf),y,fs,b,z,lc,uc);
}
}
