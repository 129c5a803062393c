// Kinds of calls: fields, columns and containers parsed from text.
#include "kinds.hpp"
#include "kinds_containers.hpp"
#include "models.hpp"
#include <tuple>
#include <utility>
namespace {
template <size_t I> struct Cyc { typedef typename std::tuple_element<I % 4,std::tuple<int,std::string,unsigned int,long long> >::type type; };
template <typename Seq> struct Row;
template <size_t... I> struct Row<std::index_sequence<I...> > { typedef std::tuple<typename Cyc<I>::type...> type; };
std::string value(R& r, size_t i)        // a token of the type of column i, now and then of another one
{
   if (r.below(40) == 0) return r.below(2) ? std::string("x1") : std::string();
   switch (i % 4) { case 0 : return std::to_string(r.num()); case 1 : return r.word(r.below(6) ? 9 : 40); case 2 : return std::to_string(unsigned(r.next())); default: return std::to_string((long long)(r.next() >> r.below(64)) * (r.below(2) ? 1 : -1)); }
}
std::string line_of(R& r, size_t fields, const std::string& d)
{
   std::string s;
   for (size_t i = 0; i < fields; ++i)
   {
      if (i) { s += d[r.below(uint32_t(d.size()))]; while (r.below(12) == 0) s += d[r.below(uint32_t(d.size()))]; }
      s += value(r,i);
   }
   return s;
}
// ---- what the calls should do: the tokens in order, up to the first that is no value of its type
template <typename T> bool step(const strings& t, size_t at, T& x, bool& go) { if (go) go = model::conv<T>::get(t[at],x); return go; }
template <typename Tup, size_t... I> bool fill(const strings& t, Tup& x, std::index_sequence<I...>) { bool go = true; const bool all[] = { true, step(t,I,std::get<I>(x),go)... }; (void)all; return go; }
template <typename Tup> struct Put { std::string* s; };
template <typename Tup, size_t... I> std::string show(const Tup& t, std::index_sequence<I...>) { return dig(std::get<I>(t)...); }
template <size_t N> struct Fields
{
   typedef std::make_index_sequence<N> seq; typedef typename Row<seq>::type row;
   template <size_t... I> static void go(R& r, strings& o, std::index_sequence<I...> s)
   {
      const std::string d = delims[r.below(5)], t = line_of(r,N + (r.below(6) ? r.below(2) : 0) - (r.below(8) ? 0 : 1),d);
      row a, b, want; a = row(); b = a; want = a;
      const strings toks = model::tokens(t,d,true);
      const bool good = toks.size() >= N && fill(toks,want,s);
      const std::unique_ptr<char[]> p(new char[t.size()]); std::copy(t.begin(),t.end(),p.get());
      const bool x = strtk::parse(const_cast<const char*>(p.get()),const_cast<const char*>(p.get()) + t.size(),d,std::get<I>(a)...), y = strtk::parse(t,d,std::get<I>(b)...);
      need(x == good && a == want,"parse of a range into fields",t,d,x,good,show(a,s),show(want,s));
      need(y == good && b == want,"parse of a string into fields",t,d,y,good,show(b,s),show(want,s));
      o.push_back(dig(N,x,show(a,s)));
   }
   static void one(R& r, strings& o, size_t n) { if (n == N) go(r,o,seq()); else Fields<N - 1>::one(r,o,n); }
};
template <> struct Fields<0> { static void one(R&, strings&, size_t) {} };
KIND(fields) { strings o; for (size_t i = 0; i < 1 + n / 4; ++i) Fields<16>::one(r,o,1 + r.below(16)); return dig(o); }
// ---- containers
template <typename T> std::string token_text(R& r) { return value(r,std::is_same<T,std::string>::value ? 1 : 0); }
template <typename T> std::string list_of(R& r, size_t n, const std::string& d) { std::string s; for (size_t i = 0; i < n; ++i) { if (i) { s += d[r.below(uint32_t(d.size()))]; while (r.below(8) == 0) s += d[r.below(uint32_t(d.size()))]; } s += token_text<T>(r); } return s; }
template <typename T> std::vector<T> wanted(const strings& t, size_t n) { std::vector<T> v; for (size_t i = 0; i < t.size() && i < n; ++i) { T x = T(); if (model::conv<T>::get(t[i],x)) v.push_back(x); } return v; }
template <typename C, typename T> void into(R& r, strings& o, size_t n)
{
   const C* const tag = nullptr; const bool keep = r.below(3) == 0;      // the second call adds to what the container holds already
   const std::string d = delims[r.below(5)], t = list_of<T>(r,n,d); const bool compress = r.below(2); const strtk::split_options::type so = compress ? strtk::split_options::compress_delimiters : strtk::split_options::default_mode;
   const strings toks = model::tokens(t,d,compress); const std::vector<T> all = wanted<T>(toks,toks.size());
   C a, b, c, e; const std::pair<const char*,const char*> range(t.data(),t.data() + t.size());
   const size_t x = strtk::parse(t,d,a,so), y = r.below(2) ? strtk::parse(range.first,range.second,d,b,so) : strtk::parse(range,d,b,so);
   need(x == toks.size() && y == x,"parse into a container: count",t,d,compress,x,y,toks.size());
   need(flat(a) == arranged(all,tag) && flat(b) == arranged(all,tag),"parse into a container",t,d,compress,flat(a),flat(b));
   const size_t k = r.below(uint32_t(n + 3)); if (keep) c = a;
   const size_t had = c.size(), i = strtk::parse_n(t,d,k,c,so), j = strtk::parse_n(range.first,range.second,d,k,e,so);
   std::vector<T> some = wanted<T>(toks,k); const std::vector<T> alone = arranged(some,tag); if (keep) some.insert(some.begin(),all.begin(),all.end());
   need(flat(e) == alone && j == alone.size(),"parse_n into a container",t,d,compress,k,j,flat(e));
   need(flat(c) == arranged(some,tag) && i == c.size() - had,"parse_n into a container that holds values",t,d,compress,k,i,flat(c));
   o.push_back(dig(x,flat(a),i,flat(c),j));
}
template <typename T> void containers(R& r, strings& o, size_t n)
{
   switch (r.below(8)) { case 0 : into<std::vector<T>,T>(r,o,n); break; case 1 : into<std::deque<T>,T>(r,o,n); break; case 2 : into<std::list<T>,T>(r,o,n); break; case 3 : into<std::set<T>,T>(r,o,n); break; case 4 : into<std::multiset<T>,T>(r,o,n); break;
                         case 5 : into<std::queue<T>,T>(r,o,n); break; case 6 : into<std::stack<T>,T>(r,o,n); break; default: into<std::priority_queue<T>,T>(r,o,n); }
}
KIND(containers) { strings o; for (size_t i = 0; i < 2; ++i) { containers<int>(r,o,n); containers<std::string>(r,o,n / 2); } return dig(o); }
// ---- some fields, and all that follows into a container
template <size_t N, typename C, typename T> struct Rest
{
   typedef std::make_index_sequence<N> seq; typedef typename Row<seq>::type row;
   template <size_t... I> static void go(R& r, strings& o, size_t n, std::index_sequence<I...> s)
   {
      const C* const tag = nullptr; const std::string d = delims[r.below(5)]; std::string t = line_of(r,N,d);
      if (r.below(10)) t += d[r.below(uint32_t(d.size()))] + list_of<T>(r,n,d);
      row b, want; b = row(); want = b; C y; std::vector<T> rest;
      const strings toks = model::tokens(t,d,true); bool good = toks.size() > N && fill(toks,want,s);
      for (size_t i = N; good && i < toks.size(); ++i) { T v = T(); if ((good = model::conv<T>::get(toks[i],v))) rest.push_back(v); }
      const bool q = strtk::parse(t,d,std::get<I>(b)...,y);
      need(q == good && b == want && flat(y) == arranged(rest,tag),"parse of a string into fields and a container",t,d,q,show(b,s),flat(y));
      o.push_back(dig(N,q,show(b,s),flat(y)));
   }
};
template <size_t N> struct Rests
{
   static void one(R& r, strings& o, size_t f, size_t n)
   {
      if (f != N) { Rests<N - 1>::one(r,o,f,n); return; }
      typedef std::make_index_sequence<N> seq;
      switch (N % 3) { case 0 : if (r.below(2)) Rest<N,std::vector<int>,int>::go(r,o,n,seq()); else Rest<N,std::multiset<std::string>,std::string>::go(r,o,n,seq()); break;
                       case 1 : if (r.below(2)) Rest<N,std::list<std::string>,std::string>::go(r,o,n,seq()); else Rest<N,std::queue<int>,int>::go(r,o,n,seq()); break;
                       default: if (r.below(2)) Rest<N,std::deque<int>,int>::go(r,o,n,seq()); else Rest<N,std::set<int>,int>::go(r,o,n,seq()); break; }
   }
};
template <> struct Rests<0> { static void one(R&, strings&, size_t, size_t) {} };
KIND(field_and_rest)
{
   strings o; for (size_t i = 0; i < 2; ++i) Rests<11>::one(r,o,1 + r.below(11),n);
   Rest<2,std::stack<int>,int>::go(r,o,n,std::make_index_sequence<2>()); Rest<1,std::priority_queue<int>,int>::go(r,o,n,std::make_index_sequence<1>()); return dig(o);
}
// ---- arguments of a program
template <size_t N> struct Args
{
   typedef std::make_index_sequence<N> seq; typedef typename Row<seq>::type row;
   template <size_t... I> static void go(R& r, strings& o, std::index_sequence<I...> s)
   {
      strings t(1,"program"); for (size_t i = 0; i < N; ++i) t.push_back(value(r,i)); std::vector<char*> v; for (std::string& x : t) v.push_back(&x[0]); v.push_back(nullptr);
      row a, want; a = row(); want = a; size_t good = 0; bool go = true; const strings toks(t.begin() + 1,t.end());
      const bool all[] = { (good += step(toks,I,std::get<I>(want),go))... }; (void)all;
      const size_t k = strtk::parse(int(N),v.data(),std::get<I>(a)...), l = strtk::parse(int(N) + 1,v.data(),std::get<I>(a)...);
      need(k == good && a == want && l == 0,"parse of program arguments",t,k,l,show(a,s)); o.push_back(dig(N,k,show(a,s)));
   }
   static void one(R& r, strings& o, size_t n) { if (n == N) go(r,o,seq()); else Args<N - 1>::one(r,o,n); }
};
template <> struct Args<0> { static void one(R&, strings&, size_t) {} };
template <typename C, typename T> void args_into(R& r, strings& o, size_t n)
{
   strings t; for (size_t i = 0; i < n; ++i) t.push_back(token_text<T>(r)); std::vector<char*> v; for (std::string& x : t) v.push_back(&x[0]); v.push_back(nullptr);
   C a, b; const size_t k = strtk::parse(int(n),v.data(),a), l = strtk::parse(int(n),v.data(),b,false); size_t good = 0; T x; while (good < n && model::conv<T>::get(t[good],x)) ++good;
   need(k == good && flat(a) == wanted<T>(t,good),"parse of program arguments into a sequence",t,k); need(l == n && flat(b) == wanted<T>(t,n),"parse of all program arguments into a sequence",t,l); o.push_back(dig(k,a,l,b));
}
KIND(arguments) { strings o; for (size_t i = 0; i < 3; ++i) Args<9>::one(r,o,1 + r.below(9)); args_into<std::vector<int>,int>(r,o,n); args_into<std::list<std::string>,std::string>(r,o,n); args_into<std::deque<long long>,long long>(r,o,n / 2); return dig(o); }
// ---- chosen columns
template <size_t N> struct Columns
{
   typedef std::make_index_sequence<N> seq;
   template <typename S> static void gather(const strings& toks, const size_t (&idx)[N], S& v, bool& good, bool all)
   {
      typename S::iterator at = v.begin(); for (size_t i = 0; i < N; ++i, ++at) { typename S::value_type x = *at; if (idx[i] < toks.size() && model::conv<typename S::value_type>::get(toks[idx[i]],x)) { if (good || all) *at = x; } else good = false; }
   }
   template <size_t... I> static void go(R& r, strings& o, std::index_sequence<I...>)
   {
      const std::string d = delims[r.below(5)]; size_t idx[N], at = 0; for (size_t& i : idx) { at += r.below(3); i = at++; }
      const size_t width = at + r.below(3) - (r.below(6) ? 0 : 1);
      std::string t; for (size_t i = 0; i < width; ++i) { if (i) { t += d[r.below(uint32_t(d.size()))]; while (r.below(16) == 0) t += d[r.below(uint32_t(d.size()))]; } t += r.below(60) ? std::to_string(r.num()) : r.word(4); }
      const strtk::details::column_list_impl<N> cl = strtk::column_list(idx), cm = strtk::column_list(idx[I]...);
      need(std::equal(idx,idx + N,cl.index_list) && std::equal(idx,idx + N,cm.index_list),"column_list");
      const strings toks = model::tokens(t,d,true); std::vector<int> a(N,-7), b(a), c(a), want(a); std::vector<std::string> e(N,"?"), f(e), g(e); std::deque<int> h(N,-7);
      const bool wide = toks.size() > idx[N - 1]; bool good = wide, texts = wide; if (wide) { gather(toks,idx,want,good,false); gather(toks,idx,f,texts,false); }
      const bool x = strtk::parse_columns(t.data(),t.data() + t.size(),d,cl,a[I]...), y = strtk::parse_columns(t,d,cl,b[I]...), z = strtk::parse_columns(t,d,cl,e[I]...);
      need(x == good && a == want,"parse_columns of a range",t,d,N,x,a); need(y == good && b == want,"parse_columns of a string",t,d,N,y,b); need(z == texts && e == f,"parse_columns of a string into strings",t,d,N,z,e);
      const bool p = strtk::parse_columns(t.data(),t.data() + t.size(),d,cl,c), q = strtk::parse_columns(t,d,cl,g), u = strtk::parse_columns(t,d,cl,h);
      need(p == good && c == want,"parse_columns of a range into a sequence",t,d,N,p,c); need(q == texts && g == f,"parse_columns of a string into a sequence of strings",t,d,N,q,g); need(u == good && flat(h) == want,"parse_columns of a string into a deque",t,d,N,u,flat(h));
      o.push_back(dig(N,x,a,q,g)); Selected<(N < 11),0>::go(r,o,t,d,cl,idx,std::index_sequence<I...>());
   }
   template <bool Has, int Dummy> struct Selected
   {
      static void into(std::vector<int>&, std::list<int>&, const strtk::details::column_list_impl<1>&, const std::string&, const std::string&) {}      // taken for the one value itself
      template <size_t M> static void into(std::vector<int>& b, std::list<int>& l, const strtk::details::column_list_impl<M>& cl, const std::string& d, const std::string& t)
      {
         strtk::split(d.c_str(),t,strtk::column_selector(cl,b),strtk::split_options::compress_delimiters); strtk::split(d.c_str(),t,strtk::column_selector(cl,l),strtk::split_options::compress_delimiters);
         std::vector<int> few(M - 1); bool thrown = false; try { strtk::column_selector(cl,few); } catch (const std::invalid_argument&) { thrown = true; } need(thrown,"column_selector into a sequence that is too short");
      }
      template <size_t... I> static void go(R& r, strings& o, const std::string& t, const std::string& d, const strtk::details::column_list_impl<N>& cl, const size_t (&idx)[N], std::index_sequence<I...>)
      {
         // the values of the columns that are there, whether the others are or not
         const strings toks = model::tokens(t,d,true); std::vector<int> a(N,-7), b(a), want(a), have(a); std::list<int> l(N,-7); std::vector<std::string> e(N,"?"), f(e); bool good = true, texts = true;
         gather(toks,idx,want,good,true); gather(toks,idx,f,texts,true);
         { strtk::split(d.c_str(),t,strtk::column_selector(cl,a[I]...),strtk::split_options::compress_delimiters); strtk::split(d.c_str(),t,strtk::column_selector(cl,e[I]...),strtk::split_options::compress_delimiters); }
         into(b,l,cl,d,t);
         need(a == want && e == f,"column_selector",t,d,N,a,e); need(N == 1 || (b == want && flat(l) == want),"column_selector into a sequence",t,d,N,b,flat(l));
         o.push_back(dig(a,e)); (void)r;
      }
   };
   template <int Dummy> struct Selected<false,Dummy> { template <typename... A> static void go(R&, strings&, const A&...) {} };
   static void one(R& r, strings& o, size_t n) { if (n == N) go(r,o,seq()); else Columns<N - 1>::one(r,o,n); }
};
template <> struct Columns<0> { static void one(R&, strings&, size_t) {} };
KIND(columns) { strings o; for (size_t i = 0; i < 1 + n / 6; ++i) Columns<12>::one(r,o,1 + r.below(12)); return dig(o); }
// ---- lines of a file
template <size_t N> struct Lines
{
   typedef std::make_index_sequence<N> seq; typedef typename Row<seq>::type row;
   template <size_t... I> static void go(R& r, strings& o, size_t n, const std::string& f, std::index_sequence<I...> s)
   {
      const std::string d = delims[r.below(5)]; strings ls; std::string t; for (size_t i = 0; i < n; ++i) { ls.push_back(line_of(r,N - (r.below(12) ? 0 : 1),d)); t += ls.back(); if (i + 1 < n || r.below(2)) t += "\n"; }
      need(strtk::fileio::write_file(f,t),"write_file"); std::ifstream is(f.c_str()); const strings want_lines = model::lines(t);
      for (size_t i = 0; i < want_lines.size(); ++i)
      {
         row a, want; a = row(); want = a; const strings toks = model::tokens(want_lines[i],d,true); const bool good = toks.size() >= N && fill(toks,want,s), x = strtk::parse_line(is,d,std::get<I>(a)...);
         need(x == good && a == want,"parse_line",want_lines[i],d,i,x,show(a,s)); o.push_back(dig(x,show(a,s)));
      }
      row a; need(!strtk::parse_line(is,d,std::get<I>(a)...) && !strtk::parse_line(is,d,std::get<I>(a)...),"parse_line after the last line");
   }
   static void one(R& r, strings& o, size_t f, size_t n, const std::string& file) { if (f == N) go(r,o,n,file,seq()); else Lines<N - 1>::one(r,o,f,n,file); }
};
template <> struct Lines<0> { static void one(R&, strings&, size_t, size_t, const std::string&) {} };
template <typename C, typename T> void lines_into(R& r, strings& o, size_t n, const std::string& f)
{
   const C* const tag = nullptr; const std::string d = delims[r.below(5)]; strings ls; std::string t; for (size_t i = 0; i < n; ++i) { ls.push_back(list_of<T>(r,r.below(8),d)); t += ls.back() + "\n"; }
   need(strtk::fileio::write_file(f,t),"write_file"); std::ifstream is(f.c_str()); const bool compress = r.below(2); const strtk::split_options::type so = compress ? strtk::split_options::compress_delimiters : strtk::split_options::default_mode;
   for (size_t i = 0; i < n; ++i)
   {
      C a; const strings toks = model::tokens(ls[i],d,compress); const bool some = r.below(2); const size_t k = some ? r.below(8) : toks.size(); const std::vector<T> want = arranged(wanted<T>(toks,k),tag);
      const size_t x = some ? strtk::parse_line_n(is,d,k,a,so) : strtk::parse_line(is,d,a,so);
      need(flat(a) == want && x == (some ? want.size() : toks.size()),"parse_line into a container",ls[i],d,compress,some,k,x,flat(a)); o.push_back(dig(x,flat(a)));
   }
   C a; need(strtk::parse_line(is,d,a) == 0 && strtk::parse_line_n(is,d,3,a) == 0 && flat(a).empty(),"parse_line into a container after the last line");
}
KIND(field_lines) { strings o; const std::string f = dir + "fields"; for (size_t i = 0; i < 3; ++i) Lines<12>::one(r,o,1 + r.below(12),n / 4 + 1,f); return dig(o); }
KIND(container_lines)
{
   strings o; const std::string f = dir + "values"; n = n / 3 + 1;
   switch (r.below(4)) { case 0 : lines_into<std::vector<int>,int>(r,o,n,f); lines_into<std::set<int>,int>(r,o,n,f); break; case 1 : lines_into<std::deque<std::string>,std::string>(r,o,n,f); lines_into<std::multiset<int>,int>(r,o,n,f); break;
                         case 2 : lines_into<std::list<int>,int>(r,o,n,f); lines_into<std::queue<std::string>,std::string>(r,o,n,f); break; default: lines_into<std::stack<int>,int>(r,o,n,f); lines_into<std::priority_queue<int>,int>(r,o,n,f); }
   return dig(o);
}
} // namespace
