// Kinds of calls: grids of tokens, their rows, columns and edits.
#include "kinds.hpp"
#include "models.hpp"
#include <tuple>
#include <utility>
namespace {
typedef strtk::token_grid G;
typedef std::vector<strings> Table;
template <size_t I> struct Cyc { typedef typename std::tuple_element<I % 4,std::tuple<int,std::string,unsigned int,long long> >::type type; };
template <typename Seq> struct Row;
template <size_t... I> struct Row<std::index_sequence<I...> > { typedef std::tuple<typename Cyc<I>::type...> type; };
template <typename Tup, size_t... I> std::string show(const Tup& t, std::index_sequence<I...>) { return dig(std::get<I>(t)...); }
template <typename T> bool step(const std::string& t, T& x, bool& go) { if (go) go = model::conv<T>::get(t,x); return go; }
std::string cell(R& r) { switch (r.below(8)) { case 0 : return r.word(9); case 1 : return std::to_string((long long)(r.next() >> (12 + r.below(52)))); case 2 : return r.word(40); default: return std::to_string(r.num()); } }
Table table(R& r, size_t rows, size_t least, size_t most) { Table t(rows); for (strings& x : t) { x.resize(least + r.below(uint32_t(most - least + 1))); for (std::string& s : x) s = cell(r); } return t; }
std::string text_of(R& r, const Table& t, const std::string& cd, const std::string& rd)
{
   std::string s;
   for (const strings& x : t) { for (size_t j = 0; j < x.size(); ++j) { if (j) s += cd[r.below(uint32_t(cd.size()))]; s += x[j]; } s += rd[r.below(uint32_t(rd.size()))]; }
   return s;
}
std::string str(const G::range_t& x) { return std::string(x.first,x.second); }
// a grid over a text that ends where its memory does
struct Grid
{
   std::string cd, rd, s; std::unique_ptr<char[]> p; std::unique_ptr<G> g;
   Grid(R& r, const Table& t) : cd(delims[r.below(4)]), rd(r.below(2) ? "\n" : "\n\r"), s(text_of(r,t,cd,rd)), p(new char[s.size()])
   {
      std::copy(s.begin(),s.end(),p.get()); const unsigned char* const u = reinterpret_cast<const unsigned char*>(p.get()); const char* const c = p.get();
      G::options o = G::default_options(); o.set_column_delimiters(cd).set_row_delimiters(rd).set_row_split_option(strtk::split_options::compress_delimiters).set_column_split_option(r.below(2) ? strtk::split_options::default_mode : strtk::split_options::compress_delimiters);
      switch (r.pick(8))
      {
         case 0 : g.reset(new G(u,s.size(),o)); break;
         case 1 : g.reset(new G(c,s.size(),o)); break;
         case 2 : g.reset(new G(s,s.size(),o)); break;
         case 3 : g.reset(new G(u,s.size(),cd,rd)); break;
         case 4 : g.reset(new G(c,s.size(),cd,rd)); break;
         case 5 : g.reset(new G(s,s.size(),cd,rd)); break;
         case 6 : g.reset(new G(c,s.size(),G::options(strtk::split_options::compress_delimiters,strtk::split_options::default_mode,rd,cd))); break;
         default: g.reset(new G()); g->load(reinterpret_cast<unsigned char*>(p.get()),s.size(),o); break;
      }
      need(!!*g,"a grid over a text is good");
   }
   void same(const Table& t, const char* what)
   {
      need(g->row_count() == t.size(),"rows",what,g->row_count(),t.size());
      size_t lo = t.empty() ? std::numeric_limits<size_t>::max() : t[0].size(), hi = 0;
      for (size_t i = 0; i < t.size(); ++i)
      {
         const G::row_type x = g->row(i); lo = std::min(lo,t[i].size()); hi = std::max(hi,t[i].size());
         need(x.size() == t[i].size() && x.index() == i,"row size",what,i,x.size(),t[i].size());
         for (size_t j = 0; j < t[i].size(); ++j) need(str(x.token(j)) == t[i][j] && str(g->token(i,j)) == t[i][j],"token",what,i,j,str(x.token(j)),t[i][j]);
      }
      need(g->min_column_count() == lo && g->max_column_count() == hi,"column counts",what,g->min_column_count(),g->max_column_count(),lo,hi);
   }
};
// ---- rows into fields
template <size_t N> struct Fields
{
   typedef std::make_index_sequence<N> seq; typedef typename Row<seq>::type row;
   template <size_t... I> static void go(R& r, strings& o, std::index_sequence<I...> s)
   {
      strings t; const size_t n = N + r.below(4);
      for (size_t i = 0; i < n; ++i) t.push_back(r.below(30) == 0 ? std::string("x1") : i % 4 == 1 ? r.word(r.below(6) ? 9 : 40) : i % 4 == 2 ? std::to_string(unsigned(r.next())) : std::to_string(r.num()));
      const Grid gr(r,Table(1,t)); const G::row_type x = gr.g->row(0);
      row a = row(), b = row(), wa = row(), wb = row(); size_t at[N]; bool ga = true, gb = true;
      for (size_t i = 0; i < N; ++i) at[i] = r.below(3) ? i % 4 + 4 * r.below(uint32_t((n - i % 4 + 3) / 4)) : r.below(uint32_t(n));
      const bool va[] = { step(t[I],std::get<I>(wa),ga)... }, vb[] = { step(t[at[I]],std::get<I>(wb),gb)... }; (void)va; (void)vb;
      const bool ra = x.parse(std::get<I>(a)...), rb = x.parse_with_index(at[I]...,std::get<I>(b)...);
      need(ra == ga && a == wa,"parse of a row",t,N,ra,ga,show(a,s),show(wa,s));
      need(rb == gb && b == wb,"parse_with_index of a row",t,N,std::vector<size_t>(at,at + N),rb,gb,show(b,s),show(wb,s));
      o.push_back(dig(ra,show(a,s),rb,show(b,s)));
   }
   static void one(R& r, strings& o, size_t n) { if (n == N) go(r,o,seq()); else Fields<N - 1>::one(r,o,n); }
};
template <> struct Fields<0> { static void one(R&, strings&, size_t) {} };
KIND(grid_rows) { strings o; for (size_t i = 0; i < 1 + n / 5; ++i) Fields<10>::one(r,o,1 + r.below(10)); return dig(o); }
// ---- rows into containers
template <typename T> std::vector<T> flat(std::vector<T>& c) { return c; }
template <typename T> std::vector<T> flat(std::deque<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::list<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::set<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::multiset<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::queue<T>& c) { std::vector<T> v; while (!c.empty()) { v.push_back(c.front()); c.pop(); } return v; }
template <typename T> std::vector<T> flat(std::stack<T>& c) { std::vector<T> v; while (!c.empty()) { v.insert(v.begin(),c.top()); c.pop(); } return v; }
template <typename T> std::vector<T> flat(std::priority_queue<T>& c) { std::vector<T> v; while (!c.empty()) { v.insert(v.begin(),c.top()); c.pop(); } return v; }
template <typename T, typename C> std::vector<T> arranged(std::vector<T> v, const C*) { return v; }
template <typename T> std::vector<T> arranged(std::vector<T> v, const std::set<T>*) { const std::set<T> s(v.begin(),v.end()); return std::vector<T>(s.begin(),s.end()); }
template <typename T> std::vector<T> arranged(std::vector<T> v, const std::multiset<T>*) { std::sort(v.begin(),v.end()); return v; }
template <typename T> std::vector<T> arranged(std::vector<T> v, const std::priority_queue<T>*) { std::sort(v.begin(),v.end()); return v; }
template <typename T> void first_n(const G::row_type& x, size_t k, std::vector<T>& c, size_t& n) { n = x.parse_n(k,c); }
template <typename T> void first_n(const G::row_type& x, size_t k, std::deque<T>& c, size_t& n) { n = x.parse_n(k,c); }
template <typename T> void first_n(const G::row_type& x, size_t k, std::list<T>& c, size_t& n) { n = x.parse_n(k,c); }
template <typename C> void first_n(const G::row_type&, size_t, C&, size_t& n) { n = size_t(-1); }
template <typename C, typename T> void into(const G::row_type& x, const strings& t, R& r, strings& o)
{
   const C* const tag = nullptr; C a, b, c, d;
   const size_t lo = r.below(uint32_t(t.size() + 2)), hi = r.below(4) ? std::min(t.size(),lo) + r.below(uint32_t(t.size() + 1 - std::min(t.size(),lo))) : r.below(uint32_t(t.size() + 2)), k = r.below(uint32_t(t.size() + 3));
   const bool valid = lo <= hi && hi <= t.size(); bool ga = true, gb = valid; std::vector<T> wa, wb, wc, wd; T v = T(); size_t wk = 0;
   for (const std::string& s : t) { if (!model::conv<T>::get(s,v)) { ga = false; break; } wa.push_back(v); }
   for (size_t i = lo; gb && i < hi; ++i) { gb = model::conv<T>::get(t[i],v); if (gb) wb.push_back(v); }
   for (const std::string& s : t) if (model::conv<T>::get(s,v)) wc.push_back(v);
   for (size_t i = 0; i < std::min(k,t.size()); ++i, ++wk) { if (!model::conv<T>::get(t[i],v)) { wk = 0; break; } wd.push_back(v); }
   const bool ra = x.parse(a), rb = x.parse(r.below(2) && hi == t.size() ? x.range(G::index_t(lo)) : x.range(G::index_t(lo),G::index_t(hi)),b); size_t rk = 0;
   x.parse_checked(c); first_n(x,k,d,rk);
   const std::vector<T> fa = flat(a), fb = flat(b), fc = flat(c), fd = flat(d);
   need(ra == ga && fa == arranged(wa,tag),"parse of a row into a container",t,ra,ga,fa,wa);
   need(rb == gb && fb == arranged(wb,tag),"parse of columns into a container",t,lo,hi,rb,gb,fb,wb);
   need(fc == arranged(wc,tag),"parse_checked of a row into a container",t,fc,wc);
   if (rk != size_t(-1)) need(rk == wk && fd == wd,"parse_n of a row",t,k,rk,wk,fd,wd);
   o.push_back(dig(ra,fa,rb,fb,fc,fd));
}
template <typename T> void container(const G::row_type& x, const strings& t, R& r, strings& o)
{
   switch (r.pick(8))
   {
      case 0 : into<std::vector<T>,T>(x,t,r,o); break;
      case 1 : into<std::deque<T>,T>(x,t,r,o); break;
      case 2 : into<std::list<T>,T>(x,t,r,o); break;
      case 3 : into<std::set<T>,T>(x,t,r,o); break;
      case 4 : into<std::multiset<T>,T>(x,t,r,o); break;
      case 5 : into<std::queue<T>,T>(x,t,r,o); break;
      case 6 : into<std::stack<T>,T>(x,t,r,o); break;
      default: into<std::priority_queue<T>,T>(x,t,r,o); break;
   }
}
struct Count { size_t* n; void operator()(const G::range_t& x) const { *n += size_t(x.second - x.first); } };
KIND(grid_containers)
{
   const Table t = table(r,1 + n / 4,1,6); const Grid gr(r,t); strings o;
   for (size_t i = 0; i < t.size(); ++i)
   {
      const G::row_type x = gr.g->row(i); std::string all, s; for (const std::string& c : t[i]) all += c;
      const size_t w = t[i].size(), j = r.below(uint32_t(w)), lo = r.below(uint32_t(w + 1)), hi = lo + r.below(uint32_t(w + 1 - lo)); size_t len = 0, part = 0, sum = 0; for (size_t k = lo; k < hi; ++k) sum += t[i][k].size();
      x.as_string(s);
      need(s == all && x.as_string() == all && x.raw_length() == all.size() && x.raw_length(j) == t[i][j].size() && !x.is_null(j),"text of a row",t[i],s);
      const size_t many = x.for_each_column(Count{&len}), some = x.for_each_column(x.range(G::index_t(lo),G::index_t(hi)),Count{&part});
      need(many == w && len == all.size() && some == hi - lo && part == sum,"for_each_column",t[i],lo,hi,many,len,some,part);
      const std::string whole = gr.s.substr(0,gr.s.find_first_of(gr.rd)); if (i == 0) need(str(x.range()) == whole,"range of a row",str(x.range()),whole);
      need(x.all_columns() == x.range(0) && x.all_columns() == G::col_range_t(0,G::index_t(w)),"all_columns");
      strings v; x.parse<std::string>(std::back_inserter(v)); need(v == t[i] && x.get<std::string>(j) == t[i][j] && x.template operator[]<std::string>(j) == t[i][j],"parse of a row into an iterator",v,t[i]);
      switch (r.below(3)) { case 0 : container<int>(x,t[i],r,o); break; case 1 : container<std::string>(x,t[i],r,o); break; default: container<unsigned long long>(x,t[i],r,o); break; }
      o.push_back(s);
   }
   return dig(o);
}
// ---- columns
KIND(grid_columns)
{
   const Table t = table(r,1 + n / 3,1,6); const Grid gr(r,t); G& g = *gr.g; strings o[5]; size_t wide = 0; for (const strings& x : t) wide = std::max(wide,x.size());
   const size_t k = 1 + r.pick(5), lo = r.below(uint32_t(t.size() + 1)), hi = lo + r.below(uint32_t(t.size() + 1 - lo)); const bool whole = r.below(3) == 0;
   const G::row_range_t rr = whole ? g.all_rows() : hi == t.size() && r.below(2) ? g.range(G::index_t(lo)) : g.range(G::index_t(lo),G::index_t(hi)); const size_t a = whole ? 0 : lo, b = whole ? t.size() : hi;
   need(rr == G::row_range_t(G::index_t(a),G::index_t(b)),"range of rows",lo,hi);
   size_t c[5], most = 0; for (size_t i = 0; i < 5; ++i) { c[i] = r.below(uint32_t(wide)); if (i < k) most = std::max(most,c[i]); }
   strings want[5]; for (size_t i = a; i < b; ++i) if (most < t[i].size()) for (size_t j = 0; j < k; ++j) want[j].push_back(t[i][c[j]]);
#define TO(x) strtk::back_inserter_with_valuetype(o[x])
   const bool ok = k == 1 ? g.extract_column(rr,c[0],TO(0)) : k == 2 ? g.extract_column(rr,c[0],c[1],TO(0),TO(1)) : k == 3 ? g.extract_column(rr,c[0],c[1],c[2],TO(0),TO(1),TO(2)) : k == 4 ? g.extract_column(rr,c[0],c[1],c[2],c[3],TO(0),TO(1),TO(2),TO(3)) : g.extract_column(rr,c[0],c[1],c[2],c[3],c[4],TO(0),TO(1),TO(2),TO(3),TO(4));
   for (size_t j = 0; j < 5; ++j) need(ok && o[j] == want[j],"extract_column",k,j,std::vector<size_t>(c,c + 5),o[j],want[j]);
   strings all, wall; g.extract_column(c[0],strtk::back_inserter_with_valuetype(all)); std::vector<int> wi; std::multiset<std::string> ms; std::set<int> si; std::deque<int> di, part;
   for (size_t i = 0; i < t.size(); ++i) if (c[0] < t[i].size()) { wall.push_back(t[i][c[0]]); int v; if (model::conv<int>::get(t[i][c[0]],v)) wi.push_back(v); }
   g.extract_column_checked(c[0],ms); g.extract_column_checked(c[0],si); g.extract_column_checked(c[0],di); g.extract_column_checked(rr,c[0],strtk::back_inserter_with_valuetype(part));
   std::deque<int> wp; for (size_t i = a; i < b; ++i) { int v; if (c[0] < t[i].size() && model::conv<int>::get(t[i][c[0]],v)) wp.push_back(v); }
   need(all == wall && ms == std::multiset<std::string>(wall.begin(),wall.end()) && si == std::set<int>(wi.begin(),wi.end()) && di == std::deque<int>(wi.begin(),wi.end()) && part == wp,"a column of the grid",c[0],all,wall,di,wi);
   std::vector<size_t> w, ww(wide); std::list<std::pair<size_t,size_t> > pw; g.get_column_widths(w); g.get_column_widths(pw);
   for (const strings& x : t) for (size_t j = 0; j < x.size(); ++j) ww[j] = std::max(ww[j],x[j].size());
   need(w == ww && pw.size() == wide && pw.back() == std::make_pair(wide - 1,ww.back()) && g.column_width(c[1]) == ww[c[1]],"column widths",w,ww);
   return dig(o[0],o[1],o[2],o[3],o[4],all,di,w);
}
struct Wide { size_t w; bool operator()(const G::row_type& x) const { return x.size() >= w; } };
struct Long { size_t w; bool operator()(const G::range_t& x) const { return size_t(x.second - x.first) >= w; } };
struct Parts { std::vector<size_t>* v; size_t stop; bool operator()(const G&, const G::row_range_t& x) const { v->push_back(x.second - x.first); return v->size() < stop; } };
struct Sizes { size_t* n; void operator()(const G::row_type& x) const { *n += x.size(); } };
// ---- edits and sums
KIND(grid_edits)
{
   Table t = table(r,2 + n / 2,1,6); Grid gr(r,t); G& g = *gr.g; gr.same(t,"the start"); strings o;
   for (size_t step = 0; step < 1 + n / 6 && !t.empty(); ++step)
   {
      const size_t lo = r.below(uint32_t(t.size() + 1)), hi = lo + r.below(uint32_t(t.size() + 1 - lo)), w = 1 + r.below(6), z = 1 + r.below(11); const bool whole = r.below(3) == 0; const G::row_range_t rr = g.range(G::index_t(lo),G::index_t(hi));
      const size_t a = whole ? 0 : lo, b = whole ? t.size() : hi; size_t count = 0, gone = 0; Table u; bool removes = true; std::string s, want; long long sum = 0, ws = 0; const size_t row = r.below(uint32_t(t.size()));
      for (size_t i = 0; i < t.size(); ++i) { strings k; for (const std::string& x : t[i]) if (i >= a && i < b && x.size() >= z) ++gone; else k.push_back(x); u.push_back(k); }
      const uint32_t what = r.below(9); const char* const names[] = { "remove_row", "remove_row_if", "remove_token_if", "remove_empty_tokens", "enforce_column_count", "enforce_min_max_column_count", "joins", "sums", "walks" };
      if (what != 2) u.clear();
      switch (what)
      {
         case 0 : u = t; u.erase(u.begin() + long(row)); g.remove_row(row); break;
         case 1 : for (size_t i = 0; i < t.size(); ++i) if (i < a || i >= b || t[i].size() < w) u.push_back(t[i]);
                  need(whole ? g.remove_row_if(Wide{w}) : g.remove_row_if(rr,Wide{w}),names[what]); break;
         case 2 : { Table v; for (const strings& x : u) if (!x.empty()) v.push_back(x); u = v; count = g.remove_token_if(rr.first == 0 && whole ? g.all_rows() : whole ? g.all_rows() : rr,Long{z}); need(count == gone,names[what],count,gone); break; }
         case 3 : u = t; count = whole ? g.remove_empty_tokens() : g.remove_empty_tokens(rr); need(count == 0,names[what],count); break;
         case 4 : for (size_t i = 0; i < t.size(); ++i) if (i < a || i >= b || t[i].size() == w) u.push_back(t[i]);
                  if (whole) g.enforce_column_count(w); else g.enforce_column_count(rr,w); break;
         case 5 : { const size_t m = w + r.below(3); for (size_t i = 0; i < t.size(); ++i) if (i < a || i >= b || (t[i].size() >= w && t[i].size() <= m)) u.push_back(t[i]); if (whole) g.enforce_min_max_column_count(w,m); else g.enforce_min_max_column_count(rr,w,m); break; }
         case 6 : { removes = false; for (size_t i = 0; i < t[row].size(); ++i) want += (i ? ", " : "") + t[row][i];
                  need(g.join_row(row,", ",s) && s == want,"join_row",s,want);
                  size_t most = 0; for (const strings& x : t) most = std::max(most,x.size()); const size_t c = r.below(uint32_t(most)); std::string s1, s2, w1, w2;
                  for (size_t i = a; i < b; ++i) if (c < t[i].size()) { w1 += (w1.empty() ? "" : "-") + t[i][c]; }
                  need((whole ? g.join_column(c,"-",s1) : g.join_column(c,rr,"-",s1)) && s1 == w1,"join_column",c,s1,w1);
                  for (size_t i = a; i < b; ++i) if (c < t[i].size() && t[i].size() >= w) w2 += t[i][c];
                  need((whole ? g.join_column(c,Wide{w},std::string(),s2) : g.join_column(c,rr,Wide{w},std::string(),s2)) && s2 == w2,"join_column of rows",c,s2,w2);
                  std::string s3, w3; for (const std::string& x : t[row]) if (x.size() >= z) w3 += x;
                  need((r.below(2) ? g.join_row(row,Long{z},"",s3) : g.join_row(row,Long{z},std::string(),s3)) && s3 == w3,"join_row of tokens",s3,w3);
                  o.push_back(dig(s,s1,s2,s3)); break; }
         case 7 : { removes = false; size_t most = 0; for (const strings& x : t) most = std::max(most,x.size()); const size_t c = r.below(uint32_t(most)); size_t k = 0; bool bad = false;
                  for (size_t i = a; i < b && !bad; ++i) if (c < t[i].size() && t[i].size() >= w) { int v = 0; bad = !model::conv<int>::get(t[i][c],v); if (!bad) { ws += v; ++k; } }
                  long long got = 0; std::vector<int> dummy; const size_t m = whole ? g.accumulate_column(c,Wide{w},got) : g.accumulate_column(c,rr,Wide{w},got);
                  long long q = 0; size_t kq = 0; bool bq = false; for (size_t i = a; i < b && !bq; ++i) if (c < t[i].size() && t[i].size() >= w) { long long v = 0; bq = !model::conv<long long>::get(t[i][c],v); if (!bq) { q += v; ++kq; } }
                  need(m == (bq ? 0 : kq) && (bq || got == q),"accumulate_column",c,m,kq,got,q);
                  long long rs = 0, wr = 0; size_t kr = 0; bool br = false; for (const std::string& x : t[row]) { long long v = 0; if (!model::conv<long long>::get(x,v)) { br = true; break; } wr += v; ++kr; }
                  const size_t mr = g.accumulate_row(row,rs); need(mr == (br ? 0 : kr) && (br || rs == wr),"accumulate_row",row,mr,kr,rs,wr);
                  sum = got; o.push_back(dig(m,bq ? 0 : sum,mr,br ? 0 : rs)); break; }
         default: { removes = false; std::vector<size_t> v, wv; size_t cells = 0, wc = 0, start = a; const size_t stop = r.below(3) ? size_t(-1) : 1 + r.below(4); bool go = true;
                  for (size_t i = a; i < b; ++i) wc += t[i].size();
                  for (size_t i = a; i <= b && go; ++i) if (i == b || t[i].size() >= w) { if (i != start) { wv.push_back(i - start); go = wv.size() < stop; } start = i; }
                  const bool done = whole ? g.sequential_partition(Wide{w},Parts{&v,stop}) : g.sequential_partition(rr,Wide{w},Parts{&v,stop});
                  need(done == go && v == wv,"sequential_partition",a,b,w,stop,done,v,wv);
                  count = whole ? g.for_each_row(Sizes{&cells}) : g.for_each_row(rr,Sizes{&cells}); need(count == b - a && cells == wc,"for_each_row",count,cells); o.push_back(dig(v,cells)); break; }
      }
      if (removes) { t = u; }
      gr.same(t,names[what]);
   }
   std::string left; for (const strings& x : t) left += dig(x);
   const bool clears = r.below(3) == 0; if (clears) { g.clear(); need(!g && g.row_count() == 0 && g.min_column_count() == 0 && g.max_column_count() == 0,"clear"); }
   return dig(left,o);
}
} // namespace
