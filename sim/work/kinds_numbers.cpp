// Kinds of calls: numbers from text and back.
#include "kinds.hpp"
#include "models.hpp"
#include <climits>
#include <cstdlib>
namespace {
namespace fast = strtk::fast;
// text in memory of exactly its size, so that reading or writing around it is an error
struct Exact
{
   std::unique_ptr<char[]> p; size_t n;
   explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(),s.data(),n); }
   const char* b() const { return p.get(); }
   const char* e() const { return p.get() + n; }
   std::pair<const char*,const char*> range() const { return std::make_pair(b(),e()); }
};
template <typename T> std::string near(R& r)      // an integer of type T, or one close to the limits of T, or no integer at all
{
   typedef __int128 wide;
   wide v;
   switch (r.below(6))
   {
      case 0 : v = r.below(10); break;
      case 1 : v = wide(std::numeric_limits<T>::max()) + int(r.below(5)) - 2; break;
      case 2 : v = wide(std::numeric_limits<T>::min()) + 1 + int(r.below(3)); break;      // the least value itself is left out: negating it overflows
      case 3 : v = wide(std::numeric_limits<T>::max()) * (2 + r.below(20)) + r.below(10); break;
      default: v = wide(r.next() >> r.below(64)) * (r.below(2) ? 1 : -1); break;
   }
   const bool neg = v < 0; if (neg) v = -v;
   std::string s; do { s.insert(s.begin(),char('0' + int(v % 10))); v /= 10; } while (v);
   if (r.below(6) == 0) s.insert(0,r.below(12),'0');
   if (neg) s.insert(0,"-"); else if (r.below(6) == 0) s.insert(0,"+");
   if (r.below(10) == 0) s.insert(r.below(uint32_t(s.size() + 1)),1,"-+. x:/"[r.below(7)]);
   if (r.below(30) == 0) s = r.text(r.below(3),"+-0");
   return s;
}
template <typename T> void integers(R& r, strings& o, const char* what)
{
   const std::string s = near<T>(r);
   T want = 0; const bool good = model::integer(s,want);
   if (good && std::numeric_limits<T>::is_signed && want == std::numeric_limits<T>::min()) return;
   const Exact x(s); T keep = T(r.next()), t = keep;
   const bool ok = strtk::string_to_type_converter(x.b(),x.e(),t);
   need(ok == good && t == (good ? want : keep),what);
   T u = keep; const bool ok2 = strtk::string_to_type_converter(s,u);
   need(ok2 == ok && u == t,what);
   if (ok)
   {
      std::string back; need(strtk::type_to_string(t,back),what);
      T again = keep; need(strtk::string_to_type_converter(back,again) && again == t,what);
      need(back == std::to_string(t),what);
      need(strtk::type_to_string(t) == back && strtk::string_to_type_converter<T>(s) == t,what);
   }
   o.push_back(dig(s,ok,t));
}
template <size_t N> struct Fast
{
   static void one(const std::string& s, strings& o)
   {
      if (s.size() != N) { Fast<N - 1>::one(s,o); return; }
      const Exact x(s); ull t = 7, u = 7, want = 0; for (char c : s) want = want * 10 + ull(c - '0');
      const bool digits = s.find_first_not_of("0123456789") == std::string::npos;
      need(fast::all_digits_check<N>(x.b()) == digits && fast::all_digits_check<N>(s) == digits,"fast::all_digits_check<N>");
      fast::numeric_convert<N>(x.b(),t,true); fast::numeric_convert<N>(s,u,true);
      need(t == (digits ? want : 0) && u == t,"fast::numeric_convert<N> with a check for digits");
      if (digits) { t = 9; fast::numeric_convert<N>(x.b(),t); need(t == want,"fast::numeric_convert<N>"); }
      o.push_back(dig(N,t));
   }
};
template <> struct Fast<0> { static void one(const std::string&, strings&) {} };
std::string digits(R& r, size_t n) { return r.text(n,"0123456789"); }
template <typename T> void hexes(R& r, strings& o)
{
   std::unique_ptr<T> t(new T(T(r.next())));
   strtk::hex_to_number_sink<T> sink(*t);
   for (int i = 0; i < 6; ++i)
   {
      const T before = *t;
      std::string s = r.text(1 + r.below(2 * sizeof(T) + 4),"0123456789abcdefABCDEF");
      if (r.below(3) == 0) s.resize(2 * sizeof(T),'1');
      const bool prefix = r.below(3) == 0, bad = r.below(5) == 0; const size_t n = s.size();
      if (bad) s[r.below(uint32_t(n))] = "ghXZ-./:@"[r.below(9)];
      const Exact x((prefix ? "0x" : "") + s);
      if (r.below(2)) sink = x.range(); else sink = std::string(x.b(),x.e());
      const bool fits = n <= 2 * sizeof(T) && !(bad && !prefix && (s[1] == 'X' && s[0] == '0'));
      if (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && !prefix) { o.push_back(dig(sink.valid(),*t)); continue; }
      need(sink.valid() == (fits && !bad),"hex_to_number_sink: valid");
      if (!sink.valid()) need(*t == before,"hex_to_number_sink: changed by a token that is no number");
      else if (n == 2 * sizeof(T)) need(*t == T(std::strtoull(s.c_str(),nullptr,16)),"hex_to_number_sink: value");
      o.push_back(dig(sink.valid(),*t));
   }
}
template <typename T> void base64s(R& r, strings& o)
{
   std::unique_ptr<T> t(new T(T(r.next())));
   strtk::base64_to_number_sink<T> sink(*t);
   for (int i = 0; i < 6; ++i)
   {
      const T before = *t; const size_t n = 1 + r.below(2) * (sizeof(T) - 1) + r.below(4); const std::string raw = r.bytes(n);
      char enc[64] = { 0 }; const size_t len = strtk::convert_bin_to_base64(raw.data(),raw.data() + raw.size(),enc);
      std::string s(enc,len); const bool bad = r.below(6) == 0;
      if (bad) s[r.below(uint32_t(s.size()))] = "-_. "[r.below(4)];
      const Exact x(s);
      if (r.below(2)) sink = x.range(); else sink = s;
      need(sink.valid() == (n <= sizeof(T) && !bad),"base64_to_number_sink: valid");
      T want = 0; if (sink.valid()) { unsigned char* const w = reinterpret_cast<unsigned char*>(&want); for (size_t k = 0; k < n; ++k) w[sizeof(T) - 1 - k] = (unsigned char)(raw[k]); }
      need(*t == (sink.valid() ? want : before),"base64_to_number_sink: value");
      o.push_back(dig(sink.valid(),*t));
   }
}
std::string real_text(R& r)
{
   static const char* const odd[] = { "inf", "INF", "nan", "NaN", "infinity", "INFINITY", "-inf", "+inf", "-nan", "1e", "e1", ".", "-.", "+", "-", "", "1.e5", ".5", "5.", "1e400", "1e-400", "0e0", "-0.0", "00001.5", "1.5f", "1.5F", "1.5L", "0x10", "1e+5", "1e-5", "1e+", "1E5", "1.2.3", "1..2", "i", "in", "n", "na" };
   char b[80];
   switch (r.below(5))
   {
      case 0 : return odd[r.below(sizeof odd / sizeof *odd)];
      case 1 : snprintf(b,sizeof b,"%.*f",int(r.below(12)),r.real()); break;
      case 2 : snprintf(b,sizeof b,"%.*e",int(r.below(18)),std::ldexp(r.real(),int(r.below(900)) - 450)); break;
      case 3 : snprintf(b,sizeof b,"%d",r.num()); break;
      default: snprintf(b,sizeof b,"%.*g",1 + int(r.below(17)),r.real() * std::pow(10,int(r.below(20)) - 10)); break;
   }
   std::string s(b);
   if (r.below(8) == 0) s.insert(0,"+");
   if (r.below(10) == 0) s.insert(r.below(uint32_t(s.size() + 1)),1,"-+.ex "[r.below(6)]);
   return s;
}
template <typename T> void reals(R& r, strings& o, double eps)
{
   const std::string s = real_text(r); const Exact x(s);
   T t = T(-77), u = T(-77); const bool ok = strtk::string_to_type_converter(x.b(),x.e(),t), ok2 = strtk::string_to_type_converter(s,u);
   need(ok == ok2 && (t == u || (t != t && u != u)),"a real number from a range and from a string");
   char* end = nullptr; const double want = std::strtod(s.c_str(),&end);
   const bool plain = !s.empty() && !*end && s.find_first_not_of("0123456789.-+e") == std::string::npos && s.find_first_of("0123456789") != std::string::npos;
   if (plain && std::isfinite(want) && ((want == 0 && s.find('e') == std::string::npos) || (std::fabs(want) < 1e30 && std::fabs(want) > 1e-30)) && s[0] != '.' && s.size() < 30)
      need(ok && std::fabs(double(t) - want) <= eps * std::fabs(want),"the value of a real number",s,ok,t,want);
   o.push_back(dig(s,ok,ok ? t : T(0)));
}
template <typename C> void sink_into(R& r, const std::string& s, strings& o)
{
   C c, d; const size_t n = 1 + r.below(8);
   typename strtk::sink_type<C> all(",;"), some(c,",;");
   all(d); some.count(n);
   int head = 0; std::string tail;
   const bool a = strtk::parse("5 " + s + " end"," ",head,all,tail);
   const bool b = strtk::parse("6 " + s + " end"," ",head,some.count(n).reference(),tail);
   const size_t na = d.size(), nb = c.size();
   o.push_back(dig(a,b,na,nb,head,tail));
}
} // namespace
KIND(integers)
{
   strings o;
   for (size_t i = 0; i < 2 + n / 3; ++i)
   {
      integers<short>(r,o,"short"); integers<unsigned short>(r,o,"unsigned short"); integers<int>(r,o,"int"); integers<unsigned int>(r,o,"unsigned int");
      integers<long>(r,o,"long"); integers<unsigned long>(r,o,"unsigned long"); integers<long long>(r,o,"long long"); integers<ull>(r,o,"unsigned long long");
   }
   return dig(o);
}
KIND(fast_digits)
{
   strings o;
   for (size_t i = 0; i < 3 + n; ++i)
   {
      std::string s = digits(r,1 + r.below(19));
      if (r.below(3) == 0) s[r.below(uint32_t(s.size()))] = "-+/:a "[r.below(6)];
      Fast<19>::one(s,o);
      const Exact x(s); const bool all = s.find_first_not_of("0123456789") == std::string::npos;
      ull want = 0; for (char c : s) want = want * 10 + ull(c - '0');
      need(fast::all_digits_check(x.n,x.b()) == all && fast::all_digits_check(x.b(),x.e()) == all && fast::all_digits_check(s) == all,"fast::all_digits_check");
      ull t = 3, u = 3; const bool a = fast::numeric_convert(x.n,x.b(),t,true), b = fast::numeric_convert(s,u,true);
      need(a == all && b == all && t == (all ? want : 3) && u == t,"fast::numeric_convert with a check for digits");
      if (all) need(fast::numeric_convert(x.n,x.b(),t) && t == want && fast::numeric_convert(s,u) && u == want,"fast::numeric_convert");
      o.push_back(dig(a,t));
   }
   const std::string longer = digits(r,21 + r.below(5)); ull t = 5;
   need(!fast::numeric_convert(longer,t) && !fast::all_digits_check(longer) && t == 5,"fast::numeric_convert of too many digits");
   return dig(o);
}
KIND(fast_signed)
{
   strings o;
   for (size_t i = 0; i < 3 + n; ++i)
   {
      const uint32_t sign = r.below(3); const bool lead = r.below(4) == 0;
      std::string d = digits(r,1 + r.below(9)); if (lead) d.insert(0,r.below(30),'0');
      const bool bad = r.below(4) == 0; if (bad) d[r.below(uint32_t(d.size()))] = ":/x-"[r.below(4)];
      const Exact x((sign == 0 ? "-" : sign == 1 ? "+" : "") + d);
      int t = -5, u = -5; const bool a = fast::signed_numeric_convert(x.b(),x.e(),t,true), b = fast::signed_numeric_convert(std::string(x.b(),x.e()),u,true);
      need(a == b && t == u,"fast::signed_numeric_convert from a range and from a string");
      if (!(d[0] == '-')) need(a == !bad && t == (bad ? -5 : int(std::strtol(std::string(x.b(),x.e()).c_str(),nullptr,10))),"fast::signed_numeric_convert");
      o.push_back(dig(a,t));
      std::string w = digits(r,1 + r.below(19)); if (r.below(2)) w.insert(0,r.below(2) ? "+" : "-"); if (r.below(4) == 0) w[w.size() - 1] = '.';
      const Exact y(w); const bool all = w.find_first_not_of("0123456789",w[0] == '+' || w[0] == '-') == std::string::npos && w.size() > size_t(w[0] == '+' || w[0] == '-');
      if (w.size() > size_t(w[0] == '+' || w[0] == '-')) need(fast::signed_all_digits_check(y.n,y.b()) == all && fast::signed_all_digits_check(y.b(),y.e()) == all && fast::signed_all_digits_check(w) == all,"fast::signed_all_digits_check");
   }
   return dig(o);
}
KIND(number_sinks)
{
   strings o;
   for (size_t i = 0; i < 1 + n / 8; ++i)
   {
      hexes<unsigned int>(r,o); hexes<int>(r,o); hexes<ull>(r,o); hexes<unsigned short>(r,o); hexes<short>(r,o);
      base64s<unsigned int>(r,o); base64s<ull>(r,o); base64s<unsigned short>(r,o); base64s<int>(r,o);
   }
   std::string hs; strtk::hex_to_string_sink hex(hs); const std::string raw = r.bytes(1 + r.below(30)), enc = strtk::convert_bin_to_hex(raw);
   const Exact x((r.below(2) ? "0x" : "") + enc); hex = x.range();
   need(hex.valid() && hs == raw,"hex_to_string_sink");
   strtk::hex_to_string_sink copy(hex); copy = std::make_pair(x.b(),x.b() + 1); need(!copy.valid() && hs == raw,"hex_to_string_sink of one digit");
   unsigned int u = 0; unsigned short us = 0; int si = 0; strtk::hex_to_number_sink<unsigned int> hu(u); strtk::base64_to_number_sink<unsigned short> bu(us); strtk::ignore_token skip;
   const bool ok = strtk::parse(std::string("0x0012ABcd,anything,AQI=,x,17"),",",hu,skip,bu,skip,si);
   need(ok && hu.valid() && bu.valid() && u == 0x12abcd && us == 0x102 && si == 17,"number sinks in a parse");
   return dig(o,hs,ok,u,us,si);
}
KIND(base64)
{
   strings o;
   for (size_t i = 0; i < 1 + n / 4; ++i)
   {
      const std::string raw = r.bytes(r.below(12)); std::unique_ptr<char[]> enc(new char[(raw.size() + 2) / 3 * 4]); const Exact x(raw);
      const size_t len = strtk::convert_bin_to_base64(x.b(),x.e(),enc.get());
      need(len == (raw.size() + 2) / 3 * 4,"convert_bin_to_base64: length");
      const Exact y(std::string(enc.get(),len)); std::unique_ptr<char[]> dec(new char[len / 4 * 3 + 1]);
      const size_t back = strtk::convert_base64_to_bin(y.b(),y.e(),dec.get());
      need(back == raw.size() && !std::memcmp(dec.get(),raw.data(),back),"base64 there and back");
      // without its padding, and cut anywhere
      std::string cut(enc.get(),len); cut.resize(r.below(uint32_t(cut.size() + 1)));
      const Exact z(cut); std::unique_ptr<char[]> part(new char[cut.size() + 3]); const size_t got = strtk::convert_base64_to_bin(z.b(),z.e(),part.get());
      need(got <= cut.size() && !std::memcmp(part.get(),raw.data(),std::min(got,cut.size() / 4 * 3 < raw.size() ? cut.size() / 4 * 3 : raw.size())),"base64 cut short");
      std::string hex(raw.size() * 2,'?'), bin(raw.size(),'?'); strtk::convert_bin_to_hex(x.b(),x.e(),&hex[0]);
      need(strtk::convert_hex_to_bin(hex.data(),hex.data() + hex.size(),&bin[0]) == (raw.size() > 0) && bin == raw,"hex there and back");
      o.push_back(dig(len,got,hex));
   }
   return dig(o);
}
KIND(decimals)
{
   strings o;
   for (size_t i = 0; i < 2 + n; ++i)
   {
      const size_t is = 1 + r.below(9), fs = r.below(7); std::string a = digits(r,r.below(uint32_t(is + 1))), f = digits(r,r.below(uint32_t(fs + 1)));
      const bool dot = !f.empty() || r.below(3) == 0;
      if (a.empty() && !dot) a = "0";
      std::string s = (r.below(3) ? "" : r.below(2) ? "-" : "+") + a + (dot ? "." : "") + f;
      const bool bad = r.below(6) == 0; if (bad) s[s.size() - 1] = 'z';
      const Exact x(s); double d = -7; strtk::decimal_sink<double> sink(d,is,fs);
      const bool ok = sink(x.b(),x.e()); const double want = std::strtod(s.c_str(),nullptr);
      if (!bad) need(ok && std::fabs(d - want) <= 1e-9 * (1 + std::fabs(want)),"decimal_sink");
      if (!ok) need(d == -7,"decimal_sink: changed without a number");
      float g = -7; strtk::decimal_sink<float> small(is,fs); const bool before = small(x.b(),x.e()), gok = small(g).int_size(is).frac_size(fs)(x.b(),x.e());
      need(!before && gok == ok,"decimal_sink of float");
      int ti = -7; strtk::truncated_int<int> trunc; const bool none = trunc(x.b(),x.e()), tok = trunc(ti)(x.b(),x.e());
      need(!none,"truncated_int without a number");
      if (tok) need(ti == int(std::strtol(s.c_str(),nullptr,10)),"truncated_int");
      if (f.size() && !bad && !a.empty()) { int tf = -7; trunc(tf).fractional_size(f.size()); need(trunc(x.b(),x.e()) && tf == ti,"truncated_int with a fraction of known size"); trunc.fractional_unknown_size(); }
      double p1 = 0; int p2 = 0; std::string p3; const bool pk = strtk::parse("k|" + s + "|" + s,"|",p3,p1,trunc(p2));
      o.push_back(dig(s,ok,ok ? d : 0.0,tok,tok ? ti : 0,pk,p3));
   }
   return dig(o);
}
KIND(reals)
{
   strings o;
   for (size_t i = 0; i < 3 + n; ++i) { reals<double>(r,o,1e-12); reals<float>(r,o,1e-5); reals<long double>(r,o,1e-12); }
   std::string s; double d = r.real(), e = 0; float f = float(d), g = 0; long double l = d, m = 0;
   need(strtk::type_to_string(d,s) && strtk::string_to_type_converter(s,e) && std::fabs(d - e) <= 1e-12 * std::fabs(d),"double there and back");
   need(strtk::type_to_string(f,s) && strtk::string_to_type_converter(s,g) && std::fabs(f - g) <= 1e-5f * std::fabs(f),"float there and back");
   need(strtk::type_to_string(l,s) && strtk::string_to_type_converter(s,m) && std::fabs(double(l - m)) <= 1e-12 * std::fabs(double(l)),"long double there and back");
   return dig(o,s);
}
KIND(chars)
{
   strings o;
   for (size_t i = 0; i < 2 + n; ++i)
   {
      const std::string s = r.bytes(r.below(3)); char c = 'a'; signed char sc = 'b'; unsigned char uc = 'c';
      const bool a = strtk::string_to_type_converter(s,c), b = strtk::string_to_type_converter(s,sc), d = strtk::string_to_type_converter(s,uc), one = s.size() == 1;
      need(a == one && b == one && d == one && c == (one ? s[0] : 'a') && sc == (one ? (signed char)(s[0]) : 'b') && uc == (one ? (unsigned char)(s[0]) : 'c'),"a single character");
      std::string x, y, z; strtk::type_to_string(c,x); strtk::type_to_string(sc,y); strtk::type_to_string(uc,z);
      need(x == std::string(1,c) && y == std::string(1,char(sc)) && z == std::string(1,char(uc)),"a single character as text");
      bool t = true; std::string bs; const bool p = strtk::type_to_string(t,bs); bool back = false; const bool q = strtk::string_to_type_converter(bs,back);
      bool f = true; const bool bad = strtk::string_to_type_converter(r.word(3) + "?",f); const char* const cp = "text"; const std::string as = strtk::type_to_string(cp);
      need(p && q && back && as == "text","bool and text");
      std::string rs; const std::pair<const char*,const char*> cr(s.data(),s.data() + s.size());
      std::ostringstream os; os << cr; rs = os.str(); need(rs == s,"a range as text");
      std::string viap; need(strtk::string_to_type_converter(cr,viap) == strtk::string_to_type_converter(s,rs) && viap == rs,"text of a range");
      o.push_back(dig(a,b,d,bad,bs));
   }
   return dig(o);
}
KIND(container_sinks)
{
   std::string s; const size_t k = 1 + r.below(9); for (size_t i = 0; i < k; ++i) s += (i ? r.below(2) ? "," : ";" : "") + std::to_string(r.below(30)) + (r.below(12) ? "" : "x");
   strings o;
   sink_into<std::vector<int> >(r,s,o); sink_into<std::deque<int> >(r,s,o); sink_into<std::list<int> >(r,s,o); sink_into<std::set<int> >(r,s,o); sink_into<std::multiset<int> >(r,s,o);
   sink_into<std::queue<int> >(r,s,o); sink_into<std::stack<int> >(r,s,o); sink_into<std::priority_queue<int> >(r,s,o); sink_into<std::vector<std::string> >(r,s,o);
   return dig(s,o,n);
}
KIND(adaptors)
{
   strings o;
   for (size_t i = 0; i < 1 + n / 2; ++i)
   {
      const std::string w = r.word(6), up = strtk::as_uppercase(w); int v = -1, lo = r.num() / 2, hi = lo + int(r.below(1000)); const int x = r.below(2) ? lo + int(r.below(1100)) - 50 : r.num();
      std::string l, u; unsigned char arr[8]; std::unique_ptr<unsigned char[]> exact(new unsigned char[w.size()]);
      auto rng = strtk::inrange(v,lo,hi); auto ex = strtk::expect(w); auto ix = strtk::iexpect(up); auto lk = strtk::like(w.substr(0,1) + "*"); auto fill = strtk::fill_array(arr,sizeof arr);
      const std::string line = w + "," + w + "," + w + "," + std::to_string(x) + "," + w + "," + w + "," + w;
      const bool ok = strtk::parse(line,",",ex.ref(),ix.ref(),lk.ref(),rng.ref(),strtk::as_lcase(l).ref(),strtk::as_ucase(u).ref(),fill.set(exact.get(),w.size()).ref());
      need(ok == (x >= lo && x <= hi),"inrange");
      if (ok) need(v == x && l == strtk::as_lowercase(w) && u == up && !std::memcmp(exact.get(),w.data(),w.size()),"adaptors in a parse");
      const std::string other = r.word(6); ex.set_value(other); ix.set_value(other); lk.set_pattern(other); rng.set_low_hi(0,5);
      need(ex(w.data(),w.data() + w.size()) == (w == other) && ix(w.data(),w.data() + w.size()) == strtk::imatch(w,other),"expect and iexpect");
      need(!fill.set_size(w.size() + 1)(w.data(),w.data() + w.size()),"fill_array of another size");
      char c8[8]; need(fill.set(c8,w.size()).set_data(c8)(w.data(),w.data() + w.size()) && !std::memcmp(c8,w.data(),w.size()),"fill_array");
      fill.set_data(arr); need(fill(w.data(),w.data() + w.size()) && !std::memcmp(arr,w.data(),w.size()),"fill_array of bytes");
      int ti = -1; std::string t1, t2, t3; const std::string num = std::to_string(r.num());
      const bool tok = strtk::parse("##" + num + "#|#" + w + "#|" + w + "##|##" + w,"|",strtk::trim("#",ti).ref(),strtk::trim("#",t1).ref(),strtk::trim_trailing("#",t2).ref(),strtk::trim_leading("#",t3).ref());
      need(tok && std::to_string(ti) == num && t1 == w && t2 == w && t3 == w,"trim adaptors");
      o.push_back(dig(ok,v,l,u,tok,ti));
   }
   return dig(o);
}
