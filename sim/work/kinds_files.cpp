// Kinds of calls: files of lines, values and whole contents.
#include "kinds.hpp"
#include "kinds_containers.hpp"
#include "models.hpp"
#include <tuple>
#include <utility>
namespace {
std::string part(R& r, size_t n) { return r.below(3) ? r.text(n,"abcXYZ019 -,_") : std::to_string(r.num()); }
strings lines_of(R& r, size_t n) { strings v; for (size_t i = 0; i < n; ++i) v.push_back(part(r,r.below(20) ? r.below(12) : r.below(1500))); return v; }
std::string joined(const strings& v, bool last = true) { std::string s; for (size_t i = 0; i < v.size(); ++i) { s += v[i]; if (last || i + 1 < v.size()) s += '\n'; } return s; }
// ---- iteration over the lines of a file or stream
struct Until { strings* o; size_t stop; bool operator()(const std::string& s) const { if (o->size() >= stop) return false; o->push_back(s); return true; } };
KIND(line_walks)
{
   strings o; const std::string f = dir + "walked", t = joined(lines_of(r,n),r.below(2) != 0); const strings all = model::lines(t); need(strtk::fileio::write_file(f,t),"write_file");
   const size_t k = 1 + r.below(uint32_t(n + 2)), stop = r.below(uint32_t(n + 2)), buf = r.below(3000); const strings head(all.begin(),all.begin() + long(std::min(k,all.size()))), till(all.begin(),all.begin() + long(std::min(stop,all.size()))), both(all.begin(),all.begin() + long(std::min(std::min(k,stop),all.size())));
   { strings v; Collect c(v); const size_t x = strtk::for_each_line(f,c,buf); need(x == all.size() && v == all,"for_each_line of a file",t,x,v); }
   { strings v; Collect c(v); const size_t x = strtk::for_each_line_n(f,k,c,buf); need(x == head.size() && v == head,"for_each_line_n of a file",t,k,x,v); }
   { strings v; const Until c = { &v, stop }; const size_t x = strtk::for_each_line_conditional(f,c,buf); need(x == till.size() && v == till,"for_each_line_conditional of a file",t,stop,x,v); }
   { strings v; const Until c = { &v, stop }; const size_t x = strtk::for_each_line_n_conditional(f,k,c,buf); need(x == both.size() && v == both,"for_each_line_n_conditional of a file",t,k,stop,x,v); }
   std::ifstream is(f.c_str()); strings v; Collect c(v); size_t x = strtk::for_each_line_n(is,k,c,buf); need(x == head.size() && v == head,"for_each_line_n of a stream",t,k,x,v);
   x += strtk::for_each_line_n_conditional(is,2,c,buf); x += strtk::for_each_line_conditional(is,c,buf); need(x == all.size() && v == all,"the rest of the lines of a stream",t,k,x,v); need(strtk::for_each_line(is,c) == 0,"for_each_line behind the end");
   std::istringstream ss(t); v.clear(); std::string s; int i = 0; size_t got = 0, good = 0, want = 0;
   for (const std::string& l : all) { int w = i; if (r.below(2)) { const bool b = model::integer(l,w); need(strtk::read_line_as_value(ss,i,buf) == b && i == w,"read_line_as_value of a number",l,i); good += b; ++want; } else { s = "before"; need(strtk::read_line_as_value(ss,s,buf) && s == l,"read_line_as_value of a string",l,s); ++got; } }
   need(!strtk::read_line_as_value(ss,s,buf),"read_line_as_value behind the end"); need(strtk::for_each_line(dir + "missing",c) == 0 && strtk::for_each_line_n_conditional(dir + "missing",3,c) == 0,"lines of a missing file");
   o.push_back(dig(x,good,want,got,t)); return dig(o);
}
// ---- containers as text
template <typename T> struct Vals { static T one(R& r) { return T(r.num()); } };
template <> struct Vals<std::string> { static std::string one(R& r) { return r.text(r.below(14),"abc XYZ,019"); } };
template <> struct Vals<long long> { static long long one(R& r) { return (long long)(r.next() >> (1 + r.below(63))) * (r.below(2) ? 1 : -1); } };
std::string shown(const std::string& v) { return v; }
template <typename T> std::string shown(const T& v) { return std::to_string(v); }
template <typename T, typename W> void text_into(R& r, strings& o, const W& w, const std::string& f, const std::vector<T>& order, bool append)
{
   const std::string d = r.below(6) ? "\n" : "", e = r.below(2) ? "\n" : ";"; std::ostringstream os; std::string want; for (const T& x : order) want += shown(x) + e;
   need(strtk::write_to_text_file(os,w,e) == order.size() && os.str() == want,"write_to_text_file to a stream",os.str()); want.clear(); for (const T& x : order) want += shown(x) + d;
   need(strtk::write_to_text_file(f,w,d) == order.size(),"write_to_text_file"); std::string t; need(strtk::fileio::load_file(f,t) && t == want,"what write_to_text_file wrote",t);
   o.push_back(dig(want,append));
}
template <typename C, typename T> void text_from(R& r, strings& o, const std::vector<T>& v, const std::string& f)
{
   const C* const tag = nullptr; std::string t; for (size_t i = 0; i < v.size(); ++i) { t += shown(v[i]); if (i + 1 < v.size() || r.below(2)) t += "\n"; }
   const std::vector<T> back = [&]() { std::vector<T> b; for (const std::string& l : model::lines(t)) { T x = T(); model::conv<T>::get(l,x); b.push_back(x); } return b; }();
   need(strtk::fileio::write_file(f,t),"write_file"); C a; need(strtk::load_from_text_file(f,a,r.below(2000)) == back.size() && flat(a) == arranged(back,tag),"load_from_text_file",t,flat(a));
   std::vector<T> twice(back); twice.insert(twice.end(),back.begin(),back.end()); std::istringstream is(t); need(strtk::load_from_text_file(is,a) == back.size() && flat(a) == arranged(twice,tag),"load_from_text_file on top of values",t,flat(a));
   need(strtk::load_from_text_file(is,a) == 0 && strtk::load_from_text_file(f + "-missing",a) == 0 && flat(a) == arranged(twice,tag),"load_from_text_file of nothing"); o.push_back(dig(flat(a)));
}
template <typename T> void texts(R& r, strings& o, size_t n, const std::string& f)
{
   std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(Vals<T>::one(r));
   switch (r.below(5)) { case 0 : text_into(r,o,v,f,v,false); break; case 1 : text_into(r,o,std::deque<T>(v.begin(),v.end()),f,v,false); break; case 2 : text_into(r,o,std::list<T>(v.begin(),v.end()),f,v,false); break;
                         case 3 : { const std::set<T> s(v.begin(),v.end()); text_into(r,o,s,f,std::vector<T>(s.begin(),s.end()),true); break; } default: { const std::multiset<T> s(v.begin(),v.end()); text_into(r,o,s,f,std::vector<T>(s.begin(),s.end()),true); } }
   switch (r.below(8)) { case 0 : text_from<std::vector<T> >(r,o,v,f); break; case 1 : text_from<std::deque<T> >(r,o,v,f); break; case 2 : text_from<std::list<T> >(r,o,v,f); break; case 3 : text_from<std::set<T> >(r,o,v,f); break; case 4 : text_from<std::multiset<T> >(r,o,v,f); break;
                         case 5 : text_from<std::queue<T> >(r,o,v,f); break; case 6 : text_from<std::stack<T> >(r,o,v,f); break; default: text_from<std::priority_queue<T> >(r,o,v,f); }
}
KIND(text_files) { strings o; const std::string f = dir + "texts"; texts<int>(r,o,n,f); texts<std::string>(r,o,n,f); texts<long long>(r,o,n / 2,f); return dig(o); }
// ---- values as bytes
template <size_t I> struct Pod { typedef typename std::tuple_element<I % 4,std::tuple<int,char,double,long long> >::type type; };
template <typename Seq> struct Pods; template <size_t... I> struct Pods<std::index_sequence<I...> > { typedef std::tuple<typename Pod<I>::type...> type; };
void some(R& r, int& x) { x = r.num(); } void some(R& r, char& x) { x = char(r.next()); } void some(R& r, double& x) { x = r.real(); } void some(R& r, long long& x) { x = (long long)r.next(); }
template <size_t N> struct Stored
{
   typedef std::make_index_sequence<N> seq; typedef typename Pods<seq>::type row;
   template <size_t... I> static void go(R& r, strings& o, size_t n, const std::string& f, std::index_sequence<I...>)
   {
      std::vector<row> v(n + 1); { std::ofstream os(f.c_str(),std::ios::binary); for (row& x : v) { const int fill[] = { 0, (some(r,std::get<I>(x)),0)... }; (void)fill; need(strtk::fileio::write_pod(os,std::get<I>(x)...),"write_pod",N); } }
      const size_t one[] = { sizeof(std::get<I>(v[0]))... }; size_t bytes = 0; for (size_t b : one) bytes += b; need(strtk::fileio::file_size(f) == bytes * v.size(),"the size of what write_pod wrote",N);
      std::ifstream is(f.c_str(),std::ios::binary); for (const row& x : v) { row y = row(); need(strtk::fileio::read_pod(is,std::get<I>(y)...) && x == y,"read_pod",N); o.push_back(dig(std::get<I>(y)...)); }
      row y = row(); need(!strtk::fileio::read_pod(is,std::get<I>(y)...) && y == row(),"read_pod behind the end",N);
   }
   static void one(R& r, strings& o, size_t k, size_t n, const std::string& f) { if (k == N) go(r,o,n,f,seq()); else Stored<N - 1>::one(r,o,k,n,f); }
};
template <> struct Stored<0> { static void one(R&, strings&, size_t, size_t, const std::string&) {} };
template <typename C, typename T> void stored(R& r, strings& o, size_t n, const std::string& f)
{
   const C* const tag = nullptr; std::vector<T> v; for (size_t i = 0; i < n; ++i) { T x; some(r,x); v.push_back(x); } const C c(v.begin(),v.end()); v = arranged(v,tag); T fixed[7]; for (T& x : fixed) some(r,x);
   { std::ofstream os(f.c_str(),std::ios::binary); need(strtk::fileio::write_pod(os,c) && strtk::fileio::write_pod(os,fixed) && strtk::fileio::write_pod(os,c),"write_pod of a container"); }
   std::ifstream is(f.c_str(),std::ios::binary); C a, b; T got[7]; const size_t k = v.size(); std::vector<T> one = v, two = v; const bool x = strtk::fileio::read_pod(is,k,a), y = strtk::fileio::read_pod(is,got);
   need(x && y && flat(a) == one && std::equal(got,got + 7,fixed),"read_pod of a container",k); const size_t more = k + 1; const bool z = strtk::fileio::read_pod(is,more,a); two.insert(two.end(),v.begin(),v.end()); need(!z && flat(a) == arranged(two,tag),"read_pod of more than there is",k); o.push_back(dig(flat(a)));
}
KIND(pod_files)
{
   strings o; const std::string f = dir + "stored"; for (int i = 0; i < 3; ++i) Stored<10>::one(r,o,1 + r.below(10),n / 4,f);
   switch (r.below(5)) { case 0 : stored<std::vector<int>,int>(r,o,n,f); break; case 1 : stored<std::deque<double>,double>(r,o,n,f); break; case 2 : stored<std::list<char>,char>(r,o,n,f); break; case 3 : stored<std::set<int>,int>(r,o,n,f); break; default: stored<std::multiset<char>,char>(r,o,n,f); }
   return dig(o);
}
// ---- whole contents
KIND(whole_files)
{
   strings o; const std::string f = dir + "first", g = dir + "second", h = dir + "third"; const std::string s = r.bytes(1 + (r.below(6) ? n * 40 : n * 2500)); std::string t = r.below(3) ? r.bytes(1 + n * 30) : s; if (r.below(3) == 0) { t = s; if (!t.empty()) t[r.below(uint32_t(t.size()))] ^= char(1 << r.below(8)); }
   std::vector<char> raw(s.begin(),s.end()); need(strtk::fileio::write_file(f,raw.empty() ? nullptr : raw.data(),raw.size()) && strtk::fileio::write_file(g,t),"write_file");
   need(strtk::fileio::file_size(f) == s.size() && strtk::fileio::file_exists(f) && !strtk::fileio::file_exists(dir + "missing"),"size and existence"); need(strtk::fileio::files_identical(f,g) == (s == t) && strtk::fileio::files_identical(g,f) == (s == t) && strtk::fileio::files_identical(f,f),"files_identical",s.size(),t.size());
   need(strtk::fileio::concatenate(f,g,h),"concatenate"); std::string u; need(strtk::fileio::load_file(h,u) && u == s + t,"what concatenate wrote"); need(strtk::fileio::copy_file(h,g) && strtk::fileio::files_identical(g,h) && !strtk::fileio::files_identical(f,g),"copy_file over another");
   std::string part; const size_t at = r.below(uint32_t(u.size())), len = 1 + r.below(uint32_t(u.size() - at)); need(strtk::fileio::read_at_offset(g,at,part,len) && part == u.substr(at,len),"read_at_offset",at,len); std::vector<char> buf(len + 1,'#'); need(strtk::fileio::read_at_offset(g,at,buf.data(),len) && std::equal(part.begin(),part.end(),buf.begin()) && buf[len] == '#',"read_at_offset into a buffer",at,len);
   std::ifstream is(g.c_str(),std::ios::binary); std::vector<char> all(u.size() + 1,'#'); need(strtk::fileio::load_file(g,all.data(),u.size()) && std::equal(u.begin(),u.end(),all.begin()) && all[u.size()] == '#',"load_file into a buffer"); need(!strtk::fileio::read_at_offset(g,at,part,u.size() - at + 1),"read_at_offset behind the end");
   need(strtk::fileio::read_at_offset(is,at,buf.data(),len) && std::equal(u.begin() + long(at),u.begin() + long(at + len),buf.begin()),"read_at_offset of a stream",at,len); o.push_back(dig(s.size(),t.size(),at,len,part)); return dig(o);
}
} // namespace
