// Kinds of calls: combinations and permutations, arrays, values copied to and from memory, records of the binary reader and writer.
#include "kinds.hpp"
#include "models.hpp"
#include <tuple>
#include <utility>
struct Shape { int sides; std::string name; unsigned int area; };
strtk_parse_begin(Shape)
 strtk_parse_type(sides)
 strtk_parse_type(name)
 strtk_parse_type(area)
strtk_parse_end()
namespace {
// ---- combinations: every choice of k of the n, in order
template <typename T> std::vector<std::vector<T> > choices(const std::vector<T>& v, size_t k)
{
   std::set<std::vector<T> > all; std::vector<bool> pick(v.size()); std::fill(pick.begin(),pick.begin() + long(k),true);
   do { std::vector<T> c; for (size_t i = 0; i < v.size(); ++i) if (pick[i]) c.push_back(v[i]); std::sort(c.begin(),c.end()); all.insert(c); } while (std::prev_permutation(pick.begin(),pick.end()));
   return std::vector<std::vector<T> >(all.begin(),all.end());
}
template <typename It, typename T> void walk(R& r, strtk::combination_iterator<It> i, const strtk::combination_iterator<It>& end, const std::vector<std::vector<T> >& want, strings& o)
{
   size_t n = 0; std::vector<std::vector<T> > got; const size_t most = want.size() + 1;
   while (i != end && n++ < most)
   {
      const std::pair<It,It> c = *i; got.push_back(std::vector<T>(c.first,c.second));
      switch (r.below(6))
      {
         case 0 : { const std::pair<It,It> before = *(i++); need(before.first == c.first,"what ++ gave"); break; }
         case 1 : i += 1; break;
         case 2 : i += 0; ++i; break;
         default: ++i; break;
      }
   }
   need(got == want && i == end,"combinations",want.size(),got.size(),want.back(),got.back());
   ++i; need(i == end,"the end stays the end");
   o.push_back(dig(got.size()));
}
KIND(combining)
{
   strings o;
   for (size_t q = 0; q < 1 + n / 5; ++q)
   {
      const size_t m = 1 + r.below(7), k = r.below(5) ? 1 + r.below(uint32_t(m)) : r.below(uint32_t(m + 1)); const bool sorted = r.below(2);
      std::vector<int> v; const bool same = r.below(3) == 0; for (size_t i = 0; i < m; ++i) v.push_back(same ? int(r.below(3)) : int(i * 3 + r.below(3)));
      if (sorted) std::sort(v.begin(),v.end()); else for (size_t i = m; i > 1; --i) std::swap(v[i - 1],v[r.below(uint32_t(i))]);
      const std::vector<std::vector<int> > want = choices(v,k);
      switch (r.pick(4))
      {
         case 0 : { typedef std::vector<int>::iterator I; std::vector<int> c(v); walk<I>(r,strtk::combination_iterator<I>(k,c,sorted),strtk::combination_iterator<I>(c),want,o); break; }
         case 1 : { typedef std::deque<int>::iterator I; std::deque<int> c(v.begin(),v.end()); walk<I>(r,strtk::combination_iterator<I>(k,c.begin(),c.end(),sorted),strtk::combination_iterator<I>(c.end()),want,o); break; }
         case 2 : { std::vector<int> c(v); walk<int*>(r,strtk::combination_iterator<int*>(k,c.data(),c.data() + m,sorted),strtk::combination_iterator<int*>(c.data() + m),want,o); break; }
         default: { std::string s; for (int x : v) s += char('a' + x); std::vector<char> cv(s.begin(),s.end()); const std::vector<std::vector<char> > cw = choices(cv,k);
                    const strtk::combination_iterator<char*> e = r.below(2) ? strtk::combination_iterator<char*>(s) : strtk::combination_iterator<char*>(const_cast<const std::string&>(s)); walk<char*>(r,strtk::combination_iterator<char*>(k,s,sorted),e,cw,o); break; }
      }
   }
   return dig(o);
}
struct Visit { std::vector<std::vector<int> >* v; size_t stop; template <typename I> bool operator()(I a, I b) const { v->push_back(std::vector<int>(a,b)); return v->size() < stop; } };
KIND(visiting)
{
   strings o;
   for (size_t q = 0; q < 1 + n / 5; ++q)
   {
      const size_t m = 1 + r.below(7), k = 1 + r.below(uint32_t(m)); std::vector<int> v(m); for (size_t i = 0; i < m; ++i) v[i] = int(i * 5 + r.below(5));
      const std::vector<int> was(v); std::vector<std::vector<int> > got, some; const std::vector<std::vector<int> > all = choices(v,k); const size_t stop = 1 + r.below(uint32_t(all.size() + 3));
      strtk::for_each_combination(v.begin(),v.end(),k,Visit{&got,size_t(-1)});
      const std::vector<std::vector<int> > order(got); for (std::vector<int>& x : got) std::sort(x.begin(),x.end()); std::sort(got.begin(),got.end());
      need(got == all && v == was,"for_each_combination",was,k,got.size(),all.size(),v);
      strtk::for_each_combination_conditional(v.begin(),v.end(),k,Visit{&some,stop});
      need(some.size() == std::min(stop,all.size()) && std::equal(some.begin(),some.end(),order.begin()),"for_each_combination_conditional",was,k,stop,some.size());
      if (stop > all.size()) need(v == was,"the order afterwards",v,was);
      got.clear(); strtk::for_each_combination(v.begin(),v.end(),m + 1 + r.below(3),Visit{&got,size_t(-1)}); strtk::for_each_combination_conditional(v.begin(),v.end(),m + 1,Visit{&got,size_t(-1)}); need(got.empty(),"combinations of more than there are");
      v = was; v.resize(std::min<size_t>(m,5)); const std::vector<int> few(v); size_t f = 1; for (size_t i = 2; i <= few.size(); ++i) f *= i;
      std::vector<std::vector<int> > perms, firsts; strtk::for_each_permutation(v.begin(),v.end(),Visit{&perms,size_t(-1)}); std::vector<int> w(few); const size_t pstop = 1 + r.below(uint32_t(f + 2));
      const bool done = strtk::for_each_permutation_conditional(w.begin(),w.end(),Visit{&firsts,pstop});
      need(perms.size() == f && perms.front() == few && std::is_sorted(perms.begin(),perms.end()) && std::set<std::vector<int> >(perms.begin(),perms.end()).size() == f && v == few,"for_each_permutation",few,perms.size(),f);
      need(done == (pstop > f) && firsts.size() == std::min(f,pstop) && std::equal(firsts.begin(),firsts.end(),perms.begin()),"for_each_permutation_conditional",few,pstop,firsts.size());
      o.push_back(dig(order,some,perms.size(),firsts.size()));
   }
   return dig(o);
}
// ---- arrays
template <size_t N> void compare(R& r, strings& o)
{
   std::string a = r.bytes(N), b = a; if (N && r.below(3)) b[r.below(uint32_t(N))] ^= char(1 << r.below(8));
   const std::unique_ptr<char[]> p(new char[N]), q(new char[N]); std::copy(a.begin(),a.end(),p.get()); std::copy(b.begin(),b.end(),q.get());
   const bool x = strtk::memcmp_n<N>(const_cast<const char*>(p.get()),const_cast<const char*>(q.get())), y = strtk::memcmp_n<N>(reinterpret_cast<const unsigned char*>(p.get()),reinterpret_cast<const unsigned char*>(q.get()));
   need(x == (a == b) && y == x,"memcmp_n",N,a,b,x,y);
   o.push_back(dig(x));
}
template <size_t N> void array(R& r, strings& o)
{
   unsigned char u[N], was[N]; const std::string s = r.bytes(N), t = r.bytes(r.below(N + 3)); std::copy(s.begin(),s.end(),reinterpret_cast<char*>(u)); std::copy(u,u + N,was); char c[N]; std::copy(s.begin(),s.end(),c);
   const size_t len = r.below(N + 2); std::string want = len <= N ? s.substr(0,len) : std::string();
   need(strtk::make_string(u,len) == want && strtk::make_string(c,len) == want && strtk::make_string(u) == s && strtk::make_string(c) == s,"make_string",N,len);
   need(strtk::make_string(std::make_pair(s.data(),s.data() + s.size())) == s,"make_string of a range");
   const bool pad = r.below(2); want = s; if (t.size() <= N) { std::copy(t.begin(),t.end(),want.begin()); if (pad) std::fill(want.begin() + long(t.size()),want.end(),'#'); }
   need(strtk::set_array(u,t,pad,static_cast<unsigned char>('#')) == (t.size() <= N) && strtk::make_string(u) == want,"set_array",N,t,pad,strtk::make_string(u),want);
   unsigned char d[N + 2]; std::fill(d,d + N + 2,static_cast<unsigned char>('x')); const std::unique_ptr<unsigned char[][N]> heap(new unsigned char[1][N]); unsigned char (&h)[N] = heap[0]; std::copy(was,was + N,h);
   need(strtk::set_array(d,h,pad,static_cast<unsigned char>('#')) && strtk::make_string(d) == s + (pad ? "##" : "xx"),"set_array of an array",N,pad,strtk::make_string(d),s);
   need(!strtk::set_array(h,d,pad) && strtk::make_string(h) == s,"set_array of a longer array");
   int v[N]; std::fill(v,v + N,7); const size_t k = r.below(N + 2); const bool ok = strtk::clear_array(v,-3,k);
   need(ok == (k <= N) && std::count(v,v + N,-3) == long(ok ? k : 0) && (!ok || k == 0 || v[k - 1] == -3),"clear_array",N,k,ok);
   o.push_back(dig(want,strtk::make_string(d),ok));
}
KIND(arrays)
{
   strings o; compare<1>(r,o); compare<2>(r,o); compare<3>(r,o); compare<4>(r,o); compare<5>(r,o); compare<7>(r,o); compare<8>(r,o); compare<9>(r,o); compare<13>(r,o); compare<16>(r,o); compare<31>(r,o);
   array<1>(r,o); array<2>(r,o); array<7>(r,o); array<32>(r,o);
   std::string s = r.bytes(n), back(s.rbegin(),s.rend()), t = s, u = s, w = s, x = s; const std::unique_ptr<char[]> p(new char[n]);
   strtk::reverse(t); need(t == back,"reverse",t,back); strtk::reverse(strtk::std_string::iterator_type(u.data(),u.data() + u.size())); need(u == back,"reverse of a range");
   strtk::reverse(strtk::range::adapter<char>(&w[0],w.size())); need(w == back,"reverse of an adapter"); strtk::reverse(strtk::range::type(x)); need(x == back,"reverse of a string's adapter");
   const char c = char(r.next()); strtk::fill(t,c); need(t == std::string(n,c),"fill"); strtk::fill(strtk::range::type(x),c); need(x == t,"fill of an adapter");
   const size_t a = r.below(uint32_t(n + 1)), b = a + r.below(uint32_t(n + 1 - a)); std::string y = s; std::fill(y.begin() + long(a),y.begin() + long(b),c); u = s; strtk::reverse(strtk::range::adapter<const char>(u.data() + a,u.data() + b)); y = s; std::reverse(y.begin() + long(a),y.begin() + long(b)); need(u == y,"reverse of a range",a,b);
   std::vector<int> v(n,1); strtk::fill(v,9); need(v == std::vector<int>(n,9),"fill of a sequence"); std::deque<std::string> d(n); strtk::fill(d,std::string("ab")); need(d == std::deque<std::string>(n,"ab"),"fill of a deque");
   typedef const unsigned char* ucp; const std::pair<ucp,ucp> m = strtk::make_pair<ucp>(s); const std::pair<ucp,const char*> m2 = strtk::make_pair<ucp,const char*>(s); need(size_t(m.second - m.first) == n && (n == 0 || m.first == reinterpret_cast<ucp>(s.data())) && m2.second == s.data() + n && strtk::distance(m) == n,"make_pair");
   const std::pair<ucp,ucp> m3 = strtk::make_pair<ucp>(std::pair<const char*,const char*>(s.data(),s.data() + n)); need(m3 == m,"make_pair of a range");
   return dig(o,t,u);
}
// ---- values in memory
template <size_t I> struct Mem { typedef typename std::tuple_element<I % 5,std::tuple<int,unsigned char,double,short,unsigned long long> >::type type; };
template <typename T> T any(R& r) { return T(r.next()); }
template <> double any<double>(R& r) { return r.real(); }
template <typename Seq> struct Recs;
template <size_t... I> struct Recs<std::index_sequence<I...> > { typedef std::tuple<typename Mem<I>::type...> type; };
template <size_t N> struct Pods
{
   typedef std::make_index_sequence<N> seq; typedef typename Recs<seq>::type rec;
   template <size_t... I> static void go(R& r, strings& o, std::index_sequence<I...>)
   {
      rec a(any<typename Mem<I>::type>(r)...), b = rec(); const size_t sizes[] = { sizeof(typename Mem<I>::type)... }; size_t all = 0; for (size_t s : sizes) all += s;
      const std::unique_ptr<unsigned char[]> p(new unsigned char[all]);
      unsigned char* const e = strtk::write_pod(p.get(),std::get<I>(a)...); std::string want; (void)std::initializer_list<int>{ (want.append(reinterpret_cast<const char*>(&std::get<I>(a)),sizeof(typename Mem<I>::type)),0)... };
      need(e == p.get() + all && std::string(p.get(),e) == want,"write_pod to memory",N,size_t(e - p.get()),all);
      unsigned char* const f = strtk::read_pod(p.get(),std::get<I>(b)...);
      need(f == e && a == b,"read_pod from memory",N,size_t(f - p.get()),all);
      o.push_back(want);
   }
   static void one(R& r, strings& o, size_t n) { if (n == N) go(r,o,seq()); else Pods<N - 1>::one(r,o,n); }
};
template <> struct Pods<0> { static void one(R&, strings&, size_t) {} };
KIND(memory_pods)
{
   strings o; for (size_t i = 0; i < 1 + n / 4; ++i) Pods<12>::one(r,o,1 + r.below(12));
   std::vector<int> v; std::multiset<short> ms; std::set<double> st; for (size_t i = 0; i < n + 1; ++i) { v.push_back(r.num()); ms.insert(short(r.below(20))); st.insert(r.real()); }
   short ar[5]; for (short& x : ar) x = short(r.next());
   const size_t vb = v.size() * sizeof(int), mb = ms.size() * sizeof(short), sb = st.size() * sizeof(double); const std::unique_ptr<unsigned char[]> p(new unsigned char[vb]), q(new unsigned char[mb]), s(new unsigned char[sb]), t(new unsigned char[sizeof ar]);
   need(strtk::write_pod(p.get(),v) == p.get() + vb && strtk::write_pod(q.get(),ms) == q.get() + mb && strtk::write_pod(s.get(),st) == s.get() + sb && strtk::write_pod(t.get(),ar) == t.get() + sizeof ar,"write_pod of containers");
   std::vector<int> v2(1,5); std::multiset<short> m2; std::set<double> s2; std::deque<int> d2; short a2[5]; const size_t vn = v.size(), mn = ms.size(), sn = st.size();
   need(strtk::read_pod(p.get(),vn,v2) == p.get() + vb && strtk::read_pod(p.get(),vn,d2) == p.get() + vb && strtk::read_pod(q.get(),mn,m2) == q.get() + mb && strtk::read_pod(s.get(),sn,s2) == s.get() + sb && strtk::read_pod(t.get(),a2) == t.get() + sizeof ar,"read_pod of containers");
   v.insert(v.begin(),5); need(v2 == v && d2 == std::deque<int>(v.begin() + 1,v.end()) && m2 == ms && s2 == st && std::equal(ar,ar + 5,a2),"what read_pod gave");
   return dig(o,v2,m2,s2);
}
// ---- records
struct Point { short x; unsigned int y; std::string name; Point() : x(0), y(0) {} bool operator==(const Point& p) const { return x == p.x && y == p.y && name == p.name; }
   strtk_binary_reader_begin() strtk_binary_reader(x) strtk_binary_reader(y) strtk_binary_reader(name) strtk_binary_reader_end()
   strtk_binary_writer_begin() strtk_binary_writer(x) strtk_binary_writer(y) strtk_binary_writer(name) strtk_binary_writer_end() };
template <typename T> T swapped(T v) { T w; const char* const a = reinterpret_cast<const char*>(&v); std::reverse_copy(a,a + sizeof(T),reinterpret_cast<char*>(&w)); return w; }
template <typename T> void raw(std::string& s, T v) { s.append(reinterpret_cast<const char*>(&v),sizeof v); }
template <typename T> void endian(R& r, std::string& s, strtk::binary::writer& w, std::vector<ull>& vals)
{
   const T v = T(r.next()); vals.push_back(ull(v));
   need(w.native_to_be(v) && w.native_to_le(v),"native_to_be and native_to_le"); raw(s,swapped(v)); raw(s,v);
   need(strtk::binary::details::convert(v) == swapped(v) && strtk::binary::details::convert_to_be(v) == swapped(v) && T(strtk::binary::details::convert_to_le(v)) == v,"convert_to_be and convert_to_le",ull(v));
}
template <typename T> void native(strtk::binary::reader& x, ull v) { T a = 0, b = 0; need(x.be_to_native(a) && x.le_to_native(b) && a == T(v) && b == a,"be_to_native and le_to_native",v,ull(a),ull(b)); }
KIND(records)
{
   std::string buf(4000 + n * 80,'\0'), want; strtk::binary::writer w(&buf[0],buf.size()); std::vector<ull> vals;
   endian<unsigned short>(r,want,w,vals); endian<unsigned int>(r,want,w,vals); endian<unsigned long long>(r,want,w,vals); endian<short>(r,want,w,vals); endian<int>(r,want,w,vals); endian<long long>(r,want,w,vals);
   std::vector<Point> pts(1 + n / 3); for (Point& p : pts) { p.x = short(r.next()); p.y = unsigned(r.next()); p.name = r.word(20); }
   for (const Point& p : pts) { need(w(p),"a record is written"); raw(want,p.x); raw(want,p.y); raw(want,uint32_t(p.name.size())); want += p.name; }
   // marks are taken up again in the reverse order
   const size_t at = want.size(); w.mark(); need(w(1) && w(std::string("lost")),"more is written"); w.mark(); need(w(2.5),"still more is written"); need(w.amount_written() == at + 4 + 8 + 8,"amount_written",w.amount_written(),at);
   need(w.reset_to_mark() && w.amount_written() == at + 12 && w.reset_to_mark() && w.amount_written() == at && !w.reset_to_mark(),"marks of the writer",w.amount_written(),at);
   std::string a = r.bytes(r.below(r.below(4) ? 20 : 300)), b = r.bytes(r.below(r.below(3) ? 20 : 400)), none; strtk::binary::short_string ss(a); strtk::binary::pascal_string ps; const bool fits = b.size() < 256;
   need(!w(ps),"a string that is not there"); ps.set(b); need(w(ss),"a short string"); raw(want,uint16_t(a.size())); want += a;
   need(w(ps) == fits,"a pascal string",b.size()); if (fits) { raw(want,static_cast<unsigned char>(b.size())); want += b; }
   const std::pair<int,std::string> pr(r.num(),r.word(9)); need(w(pr),"a pair"); raw(want,pr.first); raw(want,uint32_t(pr.second.size())); want += pr.second;
   const int num = int(r.below(100000)); const size_t width = 5 + r.below(6); const bool right = r.below(2); need(w(num,width,right ? strtk::binary::writer::right_padding : strtk::binary::writer::left_padding,'_'),"a padded number");
   const std::string ns = std::to_string(num), fill(width - ns.size(),'_'); want += right ? ns + fill : fill + ns; need(!w(num,ns.size() - 1,strtk::binary::writer::left_padding),"a number that is wider than its field");
   const std::string fixed = std::to_string(num); need(w(fixed.data(),uint32_t(fixed.size()),false),"characters"); want += fixed;
   need(w.amount_written() == want.size() && buf.compare(0,want.size(),want) == 0,"what the writer wrote",w.amount_written(),want.size());
   const std::unique_ptr<char[]> p(new char[want.size()]); std::copy(want.begin(),want.end(),p.get()); strtk::binary::reader x(p.get(),want.size());
   native<unsigned short>(x,vals[0]); native<unsigned int>(x,vals[1]); native<unsigned long long>(x,vals[2]); native<short>(x,vals[3]); native<int>(x,vals[4]); native<long long>(x,vals[5]);
   for (const Point& k : pts) { Point q; x.mark(); need(x(q) && q == k,"a record is read"); if (r.below(3) == 0) { Point again; need(x.reset_to_mark() && x(again) && again == k,"a record is read again"); } }
   need(x.amount_read() == at,"amount_read",x.amount_read(),at); while (x.reset_to_mark()) ; x.reset(); Point q; need(x.amount_read() == 0,"reset");
   unsigned char skip = 0; for (size_t i = 0; i < at; ++i) need(x(skip),"bytes");
   std::string a2 = r.word(30), b2; strtk::binary::short_string s2(a2); strtk::binary::pascal_string p2(b2); need(x(s2) && a2 == a,"a short string is read",a2,a); if (fits) need(x(p2) && b2 == b,"a pascal string is read",b2,b);
   p2.clear(); need(!x(p2),"a string that is not there"); std::pair<int,std::string> pr2; need(x(pr2) && pr2 == pr,"a pair is read");
   std::string padded, pw = right ? ns + fill : fill + ns; padded.resize(width); for (char& c : padded) need(x(c),"characters"); need(padded == pw,"a padded number is read",padded,pw);
   int got = -1; need(x(got,fixed.size()) && got == num,"a number is read",got,num); need(x.amount_read() == want.size() && !x(got),"the end",x.amount_read(),want.size());
   return dig(want,a2,b2,got);
}
KIND(shapes)
{
   strings o;
   for (size_t i = 0; i < 1 + n / 3; ++i)
   {
      strings t; t.push_back(r.below(10) ? std::to_string(r.num()) : "?"); t.push_back(r.word(20)); t.push_back(r.below(10) ? std::to_string(unsigned(r.next())) : "-1"); if (r.below(10) == 0) t.pop_back();
      std::string s; for (size_t j = 0; j < t.size(); ++j) s += (j ? "," : "") + t[j];
      Shape a = { 0, "", 0 }, w = { 0, "", 0 }; bool good = t.size() == 3 && model::conv<int>::get(t[0],w.sides); if (good) { w.name = t[1]; good = model::conv<unsigned int>::get(t[2],w.area); }
      const bool x = strtk::parse(s,",",a); need(x == good && a.sides == w.sides && a.name == w.name && a.area == w.area,"parse of a structure",s,x,good,a.sides,a.name,a.area);
      o.push_back(dig(x,a.name));
   }
   return dig(o);
}
} // namespace
