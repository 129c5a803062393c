// C22: caller callbacks, filters and delimiter predicates that throw or stop.
#include "models.hpp"
#include <stdexcept>
#include <memory>
using namespace w;
PROPERTY("C22","one run: a history of item-delivering calls (split, split_n, tokenizer, for_each_token, offset_splitter, split_on_consecutive, find_all, combinations, permutations, filters, conditional copies and joins) "
               "over drawn texts, delimiter sets and options, the callback or the delimiter predicate throwing or stopping at a drawn invocation, then the same call again undisturbed on the same objects; "
               "non-trivial: a callback or predicate threw or stopped; distinct: different sequence of calls, options, faults and outcomes");
namespace {
typedef std::pair<size_t,size_t> Item;                  // offsets of a delivered range
typedef std::vector<Item> Items;
struct Boom { uint32_t k; uint32_t who; };
// one source of exceptions: the k-th invocation throws
struct Source
{
   uint32_t who, calls, at, kind;
   explicit Source(uint32_t w) : who(w), calls(0), at(0), kind(0) {}
   void arm(uint32_t a) { calls = 0; at = a; kind = a ? draw(3,"exception-kind") : 0; }
   void hit()
   {
      if (++calls != at) return;
      sim::NoFault nf;
      sim::fault_fired(who == 0 ? "callback-throws" : "predicate-throws"); sim::mark_nontrivial();
      if (kind == 0) throw Boom{calls,who};
      if (kind == 1) throw std::runtime_error("boom " + std::to_string(who) + " " + std::to_string(calls));
      throw int(who * 100000 + calls);
   }
};
struct Ctx
{
   Source cb, pred; Items got; std::vector<std::string> texts; uint32_t nest;
   Ctx() : cb(0), pred(1), nest(0) {}
   void clear() { got.clear(); texts.clear(); }
};
// runs fn; true if it threw, checking that the exception is the one thrown
template <typename F> bool threw(Ctx& c, F fn)
{
   bool t = false; uint32_t who = 9, k = 0;
   try { fn(); }
   catch (const Boom& b) { t = true; who = b.who; k = b.k; }
   catch (const std::runtime_error& e)
   {
      sim::NoFault nf; t = true;
      for (uint32_t s = 0; s < 2; ++s) { const Source& src = s ? c.pred : c.cb; if (std::string(e.what()) == "boom " + std::to_string(s) + " " + std::to_string(src.at)) { who = s; k = src.at; } }
   }
   catch (int v) { t = true; who = uint32_t(v) / 100000; k = uint32_t(v) % 100000; }
   if (t)
   {
      const Source& src = who == 0 ? c.cb : c.pred;
      if (who > 1 || src.at != k || src.calls != k) violate("exception","the exception that arrived is not the one thrown (source %u, call %u; armed %u, calls %u)",who,k,src.at,src.calls);
   }
   else if ((c.cb.at && c.cb.calls >= c.cb.at) || (c.pred.at && c.pred.calls >= c.pred.at)) violate("exception","the exception thrown by the %s was swallowed",c.cb.at && c.cb.calls >= c.cb.at ? "callback" : "predicate");
   return t;
}
std::string show_items(const Items& v, size_t at) { sim::NoFault nf; std::string s; for (size_t i = at > 1 ? at - 1 : 0; i < v.size() && i < at + 3; ++i) s += "[" + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + ")"; return s; }
void compare(const Ctx& c, bool t, const Items& want, const char* what)
{
   sim::NoFault nf;
   const size_t due = !t ? want.size() : c.cb.at && c.cb.calls == c.cb.at ? c.cb.at : want.size();
   if (!t || (c.cb.at && c.cb.calls == c.cb.at))
   {
      if (c.got.size() != due) violate("items","%s: %zu items delivered instead of %zu",what,c.got.size(),due);
   }
   else if (c.got.size() > want.size()) violate("items","%s: %zu items delivered, the complete result has %zu",what,c.got.size(),want.size());
   for (size_t i = 0; i < c.got.size(); ++i)
      if (c.got[i] != want[i]) violate("items","%s: item %zu is %s instead of %s",what,i + 1,show_items(c.got,i).c_str(),show_items(want,i).c_str());
   sim::shape(t ? "threw" : "done");
}
// ---- the pieces of a sequence, from which elements are delimiters
enum Include { none, first, all };
Items pieces(const std::vector<bool>& d, bool compress, Include inc, bool one_only, size_t limit)
{
   sim::NoFault nf;
   Items out; const size_t n = d.size(); size_t start = 0, i = 0;
   if (!n) return out;
   while (i < n)
   {
      if (!d[i]) { ++i; continue; }
      size_t k = i; while (k < n && d[k]) ++k;
      size_t stop = i, next = compress ? k : i + 1;
      if (inc == first || (inc == all && one_only)) stop = i + 1;
      else if (inc == all) { stop = k; next = k; }
      if (out.size() < limit) out.push_back(Item(start,stop));
      start = i = next;
   }
   if ((start != n || d[n - 1]) && out.size() < limit) out.push_back(Item(start,n));
   return out;
}
// callback: records the offsets of the range relative to the start of the text
template <typename It> struct Record
{
   Ctx* c; It base;
   Record(Ctx& x, It b) : c(&x), base(b) {}
   void operator()(const std::pair<It,It>& r) const
   {
      sim::NoFault nf;
      c->got.push_back(Item(size_t(r.first - base),size_t(r.second - base)));
      if (c->nest && c->got.size() == c->nest)           // a callback may itself use the library
      {
         std::deque<std::string> inner;
         const size_t n = strtk::split(",;","nested,call;here",strtk::range_to_type_back_inserter(inner));
         if (n != 3 || inner.size() != 3 || inner[0] != "nested" || inner[1] != "call" || inner[2] != "here") violate("items","a split called from within the callback gave %zu items",n);
      }
      c->cb.hit();
   }
};
template <typename T> struct ThrowingDelims        // delimiter predicate that may throw
{
   Ctx* c; const std::set<T>* d;
   ThrowingDelims(Ctx& x, const std::set<T>& s) : c(&x), d(&s) {}
   bool operator()(const T& t) const { c->pred.hit(); return d->count(t) != 0; }
};
std::string text_of(const std::string& delims, size_t max)
{
   sim::NoFault nf;
   const uint32_t dense = 2 + draw(4,"delimiter-density");
   std::string s(sim::size_upto(max,"text-size"),'a');
   sim::Rng r(draw(1u << 30,"text-seed"));
   const bool binary = sim::one_in(4,"binary");
   for (char& x : s) x = r.below(dense) == 0 ? delims[r.below(uint32_t(delims.size()))] : binary ? char(r.below(256)) : "abcXYZ019-"[r.below(10)];
   return s;
}
const char* const sets[] = { ",", "|", ",;", " \t", "0123456789", ",;:|/ \t-", "\xFF", "a\xE9" };
strtk::split_options::type options(bool compress, Include inc)
{
   return (compress ? strtk::split_options::compress_delimiters : 0) | (inc == first ? strtk::split_options::include_1st_delimiter : inc == all ? strtk::split_options::include_all_delimiters : 0);
}
void arm(Ctx& c, size_t items, size_t elements, bool predicate)
{
   c.clear(); c.cb.arm(0); c.pred.arm(0); c.nest = 0;
   if (sim::one_in(6,"nested-call")) c.nest = 1 + draw(3,"nested-at");
   const uint32_t who = draw(predicate ? 4 : 3,"who-throws");
   if (who == 1 || who == 2) c.cb.arm(1 + draw(uint32_t(items) + 1,"throw-at"));
   else if (who == 3) c.pred.arm(1 + draw(uint32_t(elements) * 2 + 2,"throw-at"));
}
// ---- split and split_n
template <typename It, typename P> size_t do_split(uint32_t form, const P& p, It b, It e, size_t n, bool limited, Record<It> r, strtk::split_options::type o)
{
   if (limited) return strtk::split_n(p,b,e,n,strtk::functional_inserter(r),o);
   return form & 1 ? strtk::split(p,std::make_pair(b,e),strtk::functional_inserter(r),o) : strtk::split(p,b,e,strtk::functional_inserter(r),o);
}
void splits()
{
   const std::string delims = sets[draw(8,"delims")];
   const std::string text = text_of(delims,sim::one_in(8,"large") ? 2000 : 60), copy = text;
   const bool compress = flip("compress"), limited = flip("limited");
   const Include inc = Include(draw(3,"include"));
   const size_t n = limited ? (flip("large-n") ? 1000 : draw(6,"n")) : size_t(-1);
   std::vector<bool> d; for (char x : text) d.push_back(model::is_delim(delims,x));
   const Items want = pieces(d,compress,inc,limited,n);
   const uint32_t form = draw(7,"form");
   const bool own = form >= 5;
   std::set<char> ds(delims.begin(),delims.end());
   std::vector<unsigned> nums; std::deque<unsigned> numq; std::vector<unsigned> nd;
   for (char x : text) { nums.push_back((unsigned char)x * 1000003u); numq.push_back(nums.back()); }
   for (char x : delims) nd.push_back((unsigned char)x * 1000003u);
   for (int k = 0; k < 40; ++k) nd.push_back(77);
   const std::set<unsigned> nds(nd.begin(),nd.end());
   const strtk::split_options::type o = options(compress,inc);
   Ctx c;
   arm(c,want.size(),text.size(),own);
   for (int round = 0; round < 2; ++round)
   {
      if (round) { c.clear(); c.cb.arm(0); c.pred.arm(0); }
      sim::Op op(limited ? "split_n" : "split"); size_t ret = 0;
      const bool t = threw(c,[&]
      {
         sim::AllocWindow aw(0);
         const char* b = text.data(); const char* e = b + text.size();
         Record<const char*> r(c,b);
         auto out = strtk::functional_inserter(r);
         switch (form)
         {
            case 0 : ret = limited ? strtk::split_n(delims,text,n,out,o) : strtk::split(delims,text,out,o); break;
            case 1 : ret = limited ? strtk::split_n(delims.c_str(),text,n,out,o) : strtk::split(delims.c_str(),text,out,o); break;
            case 2 : if (delims.size() == 1) { ret = limited ? strtk::split_n(delims[0],text,n,out,o) : strtk::split(delims[0],text,out,o); break; }
                     /* fall through */
            case 3 : { const strtk::multiple_char_delimiter_predicate p(delims); ret = limited && flip("text-form") ? strtk::split_n(p,text,n,out,o) : do_split(draw(2,"form2"),p,b,e,n,limited,r,o); break; }
            case 4 :
            {
               if (flip("few")) { const strtk::multiple_delimiter_predicate<unsigned> p(nd.data(),delims.size()); ret = do_split(0,p,nums.cbegin(),nums.cend(),n,limited,Record<std::vector<unsigned>::const_iterator>(c,nums.cbegin()),o); }
               else { const strtk::multiple_delimiter_predicate<unsigned> p(nd.begin(),nd.end()); ret = do_split(1,p,numq.cbegin(),numq.cend(),n,limited,Record<std::deque<unsigned>::const_iterator>(c,numq.cbegin()),o); }
               break;
            }
            case 5 : { const ThrowingDelims<char> p(c,ds); ret = limited ? strtk::split_n(p,text,n,out,o) : strtk::split(p,text,out,o); break; }
            default: { const ThrowingDelims<unsigned> p(c,nds); ret = do_split(draw(2,"form2"),p,numq.cbegin(),numq.cend(),n,limited,Record<std::deque<unsigned>::const_iterator>(c,numq.cbegin()),o); break; }
         }
      });
      logf("%s form %u compress %d include %d n %zu on %s delims %s -> %zu items%s",limited ? "split_n" : "split",form,int(compress),int(inc),n,show(text,30).c_str(),show(delims).c_str(),c.got.size(),t ? ", threw" : "");
      compare(c,t,want,limited ? "split_n" : "split");
      if (!t && ret != want.size()) violate("count","%zu returned for %zu items",ret,want.size());
      if (text != copy) violate("input-changed","the text was changed");
   }
}
// ---- tokenizers: stop at any token, use again on other texts
template <typename Tok, typename It, typename P, typename Assign>
void tokenize(const std::string& delims, const P& p, Ctx& c, bool own, uint32_t form, Assign assign)
{
   const bool compress = flip("compress"); const Include inc = Include(draw(3,"include"));
   std::string text = text_of(delims,60);
   std::unique_ptr<Tok> tok;
   for (int k = 0; k < 8 && (k == 0 || more(3,"again")); ++k)
   {
      if (k == 0 || flip("other-text")) text = text_of(delims,60);
      std::vector<bool> d; for (char x : text) d.push_back(model::is_delim(delims,x));
      const Items want = pieces(d,compress,inc,false,size_t(-1));
      std::pair<It,It> range = assign(text);
      arm(c,want.size(),text.size(),own);
      sim::Op op("tokenizer"); size_t ret = want.size();
      const uint32_t how = draw(4,"how");
      const uint32_t stop = flip("stop") ? draw(uint32_t(want.size()) + 1,"stop-at") : uint32_t(-1);
      bool stopped = false;
      const bool t = threw(c,[&]
      {
         sim::AllocWindow aw(0);
         if (!tok) { sim::NoFault nf; tok.reset(new Tok(range.first,range.second,p,options(compress,inc))); }
         else tok->assign(range.first,range.second);
         Record<It> r(c,range.first);
         typename Tok::iterator itr = tok->begin();
         if (how == 1) { typename Tok::iterator twin = itr; itr = twin; }
         uint32_t seen = 0;
         while (itr != tok->end())
         {
            if (seen == stop) { stopped = true; sim::fault_fired("consumer-stops"); sim::mark_nontrivial(); break; }
            const std::pair<It,It> cur = *itr;
            r(cur);
            ++seen;
            if (how == 2) { const typename Tok::iterator old = itr++; if (*old != cur) violate("iterator","a copy of the iterator changed when the iterator advanced"); }
            else if (how == 3) itr += 1;
            else ++itr;
         }
         if (how == 0 && itr == tok->end() && !stopped) { ++itr; if (!(itr == tok->end())) violate("iterator","advancing at the end leaves the end"); }
      });
      logf("tokenizer form %u compress %d include %d on %s delims %s -> %zu items%s",form,int(compress),int(inc),show(text,30).c_str(),show(delims).c_str(),c.got.size(),t ? ", threw" : stopped ? ", stopped" : "");
      if (stopped)
      {
         if (c.got.size() != stop) violate("items","stopped after %u items, %zu delivered",stop,c.got.size());
         for (size_t i = 0; i < c.got.size(); ++i) if (c.got[i] != want[i]) violate("items","tokenizer: item %zu is %s instead of %s",i + 1,show_items(c.got,i).c_str(),show_items(want,i).c_str());
      }
      else compare(c,t,want,"tokenizer");
      (void)ret;
   }
}
void tokenizers()
{
   const std::string delims = sets[draw(8,"delims")];
   Ctx c;
   std::string hold; std::deque<unsigned> nums;
   const uint32_t form = draw(4,"form");
   auto chars = [&](const std::string& t) { hold = t; return std::make_pair(hold.data(),hold.data() + hold.size()); };
   auto numbers = [&](const std::string& t) { nums.clear(); for (char x : t) nums.push_back((unsigned char)x * 257u); return std::make_pair(nums.cbegin(),nums.cend()); };
   if (form == 0)
   {
      const std::string one = delims.substr(0,1); const strtk::single_delimiter_predicate<char> p(one[0]);
      tokenize<strtk::std_string::tokenizer<>::type,const char*>(one,p,c,false,form,chars);
   }
   else if (form == 1) { const strtk::multiple_char_delimiter_predicate p(delims); tokenize<strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type,const char*>(delims,p,c,false,form,chars); }
   else if (form == 2) { std::set<char> ds(delims.begin(),delims.end()); const ThrowingDelims<char> p(c,ds); tokenize<strtk::tokenizer<const char*,ThrowingDelims<char> >,const char*>(delims,p,c,true,form,chars); }
   else
   {
      std::vector<unsigned> nd; for (char x : delims) nd.push_back((unsigned char)x * 257u);
      const strtk::multiple_delimiter_predicate<unsigned> p(nd.begin(),nd.end());
      tokenize<strtk::tokenizer<std::deque<unsigned>::const_iterator,strtk::multiple_delimiter_predicate<unsigned> >,std::deque<unsigned>::const_iterator>(delims,p,c,false,form,numbers);
   }
}
// ---- for_each_token in its three forms, with filters in between
struct Sink      // output of a filter: a range or a string
{
   Ctx* c; const char* base;
   template <typename It> void operator()(const std::pair<It,It>& r) const { sim::NoFault nf; c->texts.push_back(std::string(r.first,r.second)); if (base) c->got.push_back(Item(size_t(&*r.first - base),size_t(&*r.first - base) + size_t(r.second - r.first))); c->cb.hit(); }
   void operator()(const std::string& s) const { sim::NoFault nf; c->texts.push_back(s); c->cb.hit(); }
};
struct AsString { template <typename F> struct To { F* f; void operator()(const std::pair<const char*,const char*>& r) const { std::string s; { sim::NoFault nf; s.assign(r.first,r.second); } (*f)(s); } }; };
char low(char c) { return c >= 'A' && c <= 'Z' ? char(c - 'A' + 'a') : c; }
void check_texts(const Ctx& c, bool t, const model::strings& want, const char* what)
{
   sim::NoFault nf;
   const size_t due = t && c.cb.at && c.cb.calls == c.cb.at ? c.cb.at : want.size();
   if (c.texts.size() != due && !(t && c.pred.at && c.pred.calls == c.pred.at && c.texts.size() < want.size() + 1)) violate("items","%s: %zu items delivered instead of %zu",what,c.texts.size(),due);
   for (size_t i = 0; i < c.texts.size(); ++i) if (i >= want.size() || c.texts[i] != want[i]) violate("items","%s: item %zu is %s instead of %s",what,i + 1,show(c.texts[i],30).c_str(),i < want.size() ? show(want[i],30).c_str() : "nothing");
   sim::shape(t ? "threw" : "done");
}
void tokens_and_filters()
{
   const std::string delims = sets[draw(4,"delims")];
   const uint32_t filter = draw(5,"filter");
   const std::string text = text_of(delims,60), copy = text;
   const model::strings toks = model::tokens(text,delims,false);
   std::vector<std::string> patterns;
   const bool icase = flip("case-insensitive"), allow = flip("allow"), strings = flip("as-strings");
   for (int k = 0; k < 4 && (k == 0 || more(2,"patterns")); ++k)
   {
      std::string p = toks.empty() || sim::one_in(3,"other-pattern") ? std::string("abX").substr(0,1 + draw(3,"pattern-size")) : toks[draw(uint32_t(toks.size()),"pattern")];
      switch (draw(4,"pattern-change")) { case 1 : if (!p.empty()) p.erase(p.size() - 1); break; case 2 : p += "a"; break; case 3 : for (char& x : p) x = low(x); break; default: break; }
      patterns.push_back(p);
   }
   std::string pattern; for (uint32_t k = draw(6,"wild-size"); k; --k) pattern += "*?*abX0"[draw(7,"wild")];
   model::strings want;
   for (const std::string& s : toks)
   {
      bool hit = true;
      if (filter == 1) hit = !s.empty();
      else if (filter == 2) { hit = false; for (const std::string& p : patterns) { bool eq = p.size() == s.size(); for (size_t i = 0; eq && i < p.size(); ++i) eq = icase ? low(p[i]) == low(s[i]) : p[i] == s[i]; hit = hit || eq; } if (!allow) hit = !hit; }
      else if (filter == 3) { hit = strtk::match(pattern,s);   // the filter is judged against the matcher itself
      if (!allow) hit = !hit; }
      if (hit) want.push_back(s);
   }
   Ctx c; arm(c,want.size(),text.size(),false);
   for (int round = 0; round < 2; ++round)
   {
      if (round) { c.clear(); c.cb.arm(0); c.pred.arm(0); }
      sim::Op op("for_each_token"); size_t ret = toks.size();
      const bool t = threw(c,[&]
      {
         sim::AllocWindow aw(0);
         Sink sink = { &c, 0 };
         if (filter == 2)
         {
            strtk::filter_on_match<Sink> f(patterns.data(),patterns.data() + patterns.size(),sink,icase,allow);
            if (strings) { AsString::To<strtk::filter_on_match<Sink> > a = { &f }; ret = strtk::for_each_token(text,delims,a); }
            else ret = strtk::for_each_token(text,delims,f);
         }
         else if (filter == 3)
         {
            strtk::filter_on_wildcard_match<Sink> f(pattern,sink,allow);
            if (strings) { AsString::To<strtk::filter_on_wildcard_match<Sink> > a = { &f }; ret = strtk::for_each_token(text,delims,a); }
            else
            {
               const strtk::multiple_char_delimiter_predicate p(delims);
               strtk::tokenizer<std::string::const_iterator,strtk::multiple_char_delimiter_predicate> tk(text.begin(),text.end(),p);
               ret = 0; for (auto itr = tk.begin(); itr != tk.end(); ++itr) { f(*itr); ++ret; }
            }
         }
         else if (filter == 1)
         {
            typedef strtk::functional_inserter_iterator<Sink> out_t;
            ret = strtk::for_each_token(text,delims,strtk::filter_non_empty_range<out_t>(strtk::functional_inserter(sink)));
         }
         else if (filter == 4)
         {
            const strtk::multiple_char_delimiter_predicate p(delims);
            strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type tk(text,p);
            ret = strtk::for_each_token(text,tk,sink);
         }
         else ret = strings ? strtk::for_each_token(text,delims.c_str(),sink) : strtk::for_each_token(text,delims,sink);
      });
      logf("for_each_token filter %u icase %d allow %d on %s delims %s patterns %s/%s -> %zu of %zu items%s",filter,int(icase),int(allow),show(text,30).c_str(),show(delims).c_str(),show(patterns[0],12).c_str(),show(pattern,12).c_str(),c.texts.size(),toks.size(),t ? ", threw" : "");
      check_texts(c,t,want,"for_each_token");
      if (!t && ret != toks.size()) violate("count","%zu returned for %zu tokens",ret,toks.size());
      if (text != copy) violate("input-changed","the text was changed");
   }
}
// ---- splitting by a list of lengths; the list is used again and again
template <size_t N> void offsets_n(const int* list, bool rotate)
{
   const strtk::offset_predicate<N> p(list,rotate);
   size_t index = 0; bool over = false;                 // over: past the end of a list that does not rotate
   Ctx c;
   for (int k = 0; k < 10 && (k == 0 || more(4,"again")); ++k)
   {
      const std::string text = sim::bytes(sim::size_upto(50,"text-size"),"text");
      if (sim::one_in(3,"reset")) { p.reset(); index = 0; }
      // expected items, and the index after each
      Items want; std::vector<size_t> at; size_t pos = 0, i = index;
      auto next = [&]() { if (i >= N) { return 0; } const int v = list[i++]; if (rotate && i >= N) i = 0; return v; };
      while (pos < text.size())
      {
         const int v = next(); if (v <= 0) break;
         const size_t e = std::min(text.size(),pos + size_t(v));
         want.push_back(Item(pos,e)); at.push_back(i); pos = e;
      }
      const size_t end_index = i;
      arm(c,want.size(),text.size(),false);
      sim::Op op("offset_splitter"); size_t ret = 0;
      std::vector<unsigned char> v(text.begin(),text.end());
      const bool vec = flip("vector");
      const bool t = threw(c,[&]
      {
         sim::AllocWindow aw(0);
         if (vec) ret = strtk::offset_splitter(v.cbegin(),v.cend(),p,strtk::functional_inserter(Record<std::vector<unsigned char>::const_iterator>(c,v.cbegin())));
         else ret = strtk::offset_splitter(text,p,strtk::functional_inserter(Record<const char*>(c,text.data())));
      });
      logf("offset_splitter N %zu rotate %d from %zu on %zu bytes -> %zu items%s",N,int(rotate),index,text.size(),c.got.size(),t ? ", threw" : "");
      compare(c,t,want,"offset_splitter");
      if (!t && ret != want.size()) violate("count","%zu returned for %zu items",ret,want.size());
      index = t ? at[c.got.size() - 1] : end_index;
      (void)over;
   }
}
void offsets()
{
   int list[12]; for (int& x : list) x = sim::one_in(12,"stop-value") ? -int(draw(2,"negative")) : sim::one_in(9,"huge") ? 2147483647 : int(1 + draw(7,"length"));
   const bool rotate = flip("rotate");
   switch (draw(5,"count")) { case 0 : offsets_n<1>(list,rotate); break; case 1 : offsets_n<2>(list,rotate); break; case 2 : offsets_n<3>(list,rotate); break; case 3 : offsets_n<7>(list,rotate); break; default: offsets_n<12>(list,rotate); break; }
}
// ---- combinations and permutations
struct Arrange
{
   Ctx* c; std::vector<std::vector<int> >* seen; uint32_t stop;
   template <typename It> bool operator()(It b, It e) const
   {
      sim::NoFault nf; seen->push_back(std::vector<int>(b,e)); c->cb.hit();
      if (stop && seen->size() == stop) { sim::fault_fired("callback-stops"); sim::mark_nontrivial(); return false; }
      return true;
   }
};
struct ArrangeVoid { Arrange a; template <typename It> void operator()(It b, It e) const { a(b,e); } };
template <typename C> void arrange(bool comb)
{
   const uint32_t n = comb ? draw(9,"n") : draw(7,"n"), k = comb ? draw(n + 2,"k") : n;
   std::vector<int> orig; for (uint32_t i = 0; i < n; ++i) orig.push_back(int(i * 3 + 1));
   if (!comb) for (uint32_t s = draw(4,"start"); s; --s) std::next_permutation(orig.begin(),orig.end());
   if (comb && flip("shuffled")) { sim::Rng r(draw(1000,"order")); for (size_t i = n; i > 1; --i) std::swap(orig[i - 1],orig[r.below(uint32_t(i))]); }
   std::vector<std::vector<int> > want;
   if (comb)
   {
      if (k <= n)
      {
         std::vector<size_t> ix(k); for (size_t i = 0; i < k; ++i) ix[i] = i;
         for (;;)
         {
            std::vector<int> v; for (size_t x : ix) v.push_back(orig[x]);
            want.push_back(v);
            size_t i = k; while (i > 0 && ix[i - 1] == n - k + i - 1) --i;
            if (i == 0) break;
            ++ix[i - 1]; for (size_t j = i; j < k; ++j) ix[j] = ix[j - 1] + 1;
         }
      }
   }
   else { std::vector<int> v = orig; do want.push_back(v); while (std::next_permutation(v.begin(),v.end())); }
   C data(orig.begin(),orig.end());
   Ctx c; std::vector<std::vector<int> > seen;
   c.cb.arm(0);
   const uint32_t how = draw(4,"how");                 // throw or stop; conditional or plain
   const bool conditional = how >= 2;
   uint32_t stop = 0;
   if (how == 1 || how == 2) c.cb.arm(1 + draw(uint32_t(want.size()) + 1,"throw-at"));
   else if (how == 3) stop = 1 + draw(uint32_t(want.size()) + 1,"stop-at");
   for (int round = 0; round < 2; ++round)
   {
      seen.clear();
      if (round) { data.assign(orig.begin(),orig.end()); c.cb.arm(0); stop = 0; }
      sim::Op op(comb ? "for_each_combination" : "for_each_permutation"); bool ret = true;
      const bool t = threw(c,[&]
      {
         sim::AllocWindow aw(0);
         Arrange a = { &c, &seen, stop }; ArrangeVoid v = { a };
         if (comb) { if (conditional) strtk::for_each_combination_conditional(data.begin(),data.end(),k,a); else strtk::for_each_combination(data.begin(),data.end(),k,v); }
         else if (conditional) ret = strtk::for_each_permutation_conditional(data.begin(),data.end(),a);
         else strtk::for_each_permutation(data.begin(),data.end(),v);
      });
      size_t due = want.size();
      if (t) due = c.cb.at; else if (stop && stop <= want.size()) due = stop;
      logf("%s n %u k %u how %u -> %zu of %zu%s",comb ? "for_each_combination" : "for_each_permutation",n,k,how,seen.size(),want.size(),t ? ", threw" : due < want.size() ? ", stopped" : "");
      if (seen.size() != due) violate("items","%s of %u of %u: %zu delivered instead of %zu",comb ? "combinations" : "permutations",k,n,seen.size(),due);
      for (size_t i = 0; i < seen.size(); ++i) if (seen[i] != want[i])
      {
         std::string g, w2; for (int x : seen[i]) g += std::to_string(x) + " "; for (int x : want[i]) w2 += std::to_string(x) + " ";
         violate("items","arrangement %zu is %sinstead of %s",i + 1,g.c_str(),w2.c_str());
      }
      if (!comb && conditional && !t && ret != !(stop && stop <= want.size())) violate("count","the conditional form returned %d",int(ret));
      std::vector<int> now(data.begin(),data.end()), same = now, o = orig;
      std::sort(same.begin(),same.end()); std::sort(o.begin(),o.end());
      if (same != o) violate("input-changed","elements were lost or doubled");
      if (comb && !t && due == want.size() && !(stop && stop <= want.size()) && now != orig) violate("input-changed","the range is not back in its original order");
      sim::shape(t ? "threw" : "done");
   }
}
// ---- conditional copies and joins, exact runs and searches
struct Pick { Ctx* c; uint32_t bits; template <typename T> bool operator()(const T& t) const { c->pred.hit(); return (bits >> (uint32_t(t) % 7)) & 1; } };
struct Out { Ctx* c; void operator()(int v) const { sim::NoFault nf; c->got.push_back(Item(size_t(v),0)); c->cb.hit(); } };
void copies()
{
   std::vector<int> in; for (size_t k = sim::size_upto(30,"elements"); k; --k) in.push_back(int(draw(50,"element")));
   const std::vector<int> copy = in;
   const uint32_t what = draw(5,"what");
   Ctx c; Pick p = { &c, draw(128,"wanted") };
   auto yes = [&](int v) { return ((p.bits >> (uint32_t(v) % 7)) & 1) != 0; };
   Items want; size_t end = in.size(); std::string joined;
   for (size_t i = 0; i < in.size(); ++i)
   {
      const bool y = yes(in[i]);
      if ((what == 1 && !y) || (what == 2 && y) || (what == 4 && !y)) { end = i; break; }
      if (what == 0 || what == 3) { if (!y) continue; }
      want.push_back(Item(size_t(in[i]),0));
   }
   for (const Item& i : want) joined += (joined.empty() ? "" : "::") + std::to_string(i.first);
   arm(c,what >= 3 ? 0 : want.size(),in.size(),true);
   if (what >= 3) c.cb.arm(0);
   for (int round = 0; round < 2; ++round)
   {
      if (round) { c.clear(); c.cb.arm(0); c.pred.arm(0); }
      sim::Op op("copies"); std::string text; bool only = false; std::vector<int>::const_iterator ret = in.begin();
      const bool t = threw(c,[&]
      {
         sim::AllocWindow aw(0);
         Out o = { &c };
         switch (what)
         {
            case 0 : strtk::copy_if(p,in.cbegin(),in.cend(),strtk::functional_inserter(o)); break;
            case 1 : ret = strtk::copy_while(p,in.cbegin(),in.cend(),strtk::functional_inserter(o)); break;
            case 2 : ret = strtk::copy_until(p,in.cbegin(),in.cend(),strtk::functional_inserter(o)); break;
            case 3 : if (flip("pair")) strtk::join_if(text,"::",p,std::make_pair(in.cbegin(),in.cend())); else strtk::join_if(text,"::",p,in.cbegin(),in.cend()); break;
            default: only = strtk::range_only_contains(p,in.cbegin(),in.cend()); break;
         }
      });
      logf("conditional %u on %zu elements -> %zu%s",what,in.size(),c.got.size(),t ? ", threw" : "");
      if (what < 3) compare(c,t,want,"conditional copy");
      else sim::shape(t ? "threw" : "done");
      if (!t && (what == 1 || what == 2) && size_t(ret - in.cbegin()) != end) violate("count","the copy stopped at element %zu instead of %zu",size_t(ret - in.cbegin()),end);
      if (what == 3)
      {
         if (!t && text != joined) violate("items","joined to %s instead of %s",show(text,60).c_str(),show(joined,60).c_str());
         if (t && joined.compare(0,text.size(),text) != 0) violate("items","after the exception the text %s is not a beginning of %s",show(text,60).c_str(),show(joined,60).c_str());
      }
      if (what == 4 && !t && only != (end == in.size())) violate("count","range_only_contains returned %d",int(only));
      if (in != copy) violate("input-changed","the input was changed");
   }
}
struct IsDelim { Ctx* c; bool operator()(char x) const { c->pred.hit(); return x >= '0' && x <= '9'; } };
void runs()
{
   std::string text(sim::size_upto(40,"text-size"),'x');
   const uint32_t dense = 1 + draw(4,"density");
   for (char& x : text) x = draw(dense + 1,"kind") ? char('0' + draw(10,"digit")) : "ab-XY"[draw(5,"other")];
   const std::string copy = text;
   const size_t n = 1 + draw(5,"n");
   const uint32_t what = draw(4,"what");               // predicate, digits exactly, digits at least, find_all
   Items want; const std::string needle = text.empty() || flip("other") ? std::string("1") : text.substr(draw(uint32_t(text.size()),"needle-at"),1 + draw(3,"needle-size"));
   if (what == 3)
   {
      for (size_t i = 0; (i = text.find(needle,i)) != std::string::npos; i += needle.size()) want.push_back(Item(i,i + needle.size()));
   }
   else
   {
      for (size_t i = 0; i < text.size();)
      {
         if (text[i] < '0' || text[i] > '9') { ++i; continue; }
         size_t k = i; while (k < text.size() && text[k] >= '0' && text[k] <= '9') ++k;
         if (what == 2) { if (k - i >= n) want.push_back(Item(i,k)); }
         else for (; i + n <= k; i += n) want.push_back(Item(i,i + n));
         i = k;
      }
   }
   Ctx c; arm(c,want.size(),text.size(),what == 0);
   for (int round = 0; round < 2; ++round)
   {
      if (round) { c.clear(); c.cb.arm(0); c.pred.arm(0); }
      sim::Op op("runs"); size_t ret = 0;
      const bool t = threw(c,[&]
      {
         sim::AllocWindow aw(0);
         IsDelim d = { &c };
         char* b = const_cast<char*>(text.data());
         if (what == 0) ret = strtk::split_on_consecutive(n,d,b,b + text.size(),strtk::functional_inserter(Record<char*>(c,b)));
         else if (what == 3) ret = strtk::find_all(needle,text,strtk::functional_inserter(Record<const char*>(c,text.data())));
         else ret = strtk::split_on_consecutive(n,strtk::find_type::digits,what == 1 ? strtk::find_mode::exactly_n : strtk::find_mode::atleast_n,text,strtk::functional_inserter(Record<char*>(c,b)));
      });
      logf("runs %u n %zu needle %s on %s -> %zu of %zu%s",what,n,show(needle).c_str(),show(text,40).c_str(),c.got.size(),want.size(),t ? ", threw" : "");
      compare(c,t,want,what == 3 ? "find_all" : "split_on_consecutive");
      if (!t && ret != want.size()) violate("count","%zu returned for %zu items",ret,want.size());
      if (text != copy) violate("input-changed","the text was changed");
   }
}
// ---- containers as sinks, with failing allocations
template <typename C, typename Get> void sink(C& out, const std::string& text, const std::string& delims, const model::strings& want, bool limited, size_t n, strtk::split_options::type o, Get get)
{
   for (int round = 0; round < 2; ++round)
   {
      const uint32_t af = round ? 0 : sim::draw_alloc_fault(40,"alloc-at");
      out.clear();
      sim::Op op("into container"); bool oom = false; size_t ret = 0;
      {
         sim::AllocWindow aw(af);
         try { ret = get(out); }
         catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","bad_alloc thrown"); }
         if (aw.fired()) { sim::mark_nontrivial(); if (!oom) { sim::NoFault nf; violate("exception","a failed allocation was swallowed"); } }
      }
      sim::NoFault nf;
      logf("into container: %s delims %s n %zu -> %zu of %zu%s",show(text,30).c_str(),show(delims).c_str(),n,out.size(),want.size(),oom ? ", bad_alloc" : "");
      sim::shape(oom ? "oom" : "done");
      if (!oom && (out.size() != want.size() || ret != want.size())) violate("items","%zu items stored, %zu returned instead of %zu",out.size(),ret,want.size());
      size_t i = 0;
      for (const auto& e : out) { const std::string s(e.begin(),e.end()); if (i >= want.size() || s != want[i]) violate("items","item %zu is %s",i + 1,show(s,30).c_str()); ++i; }
      (void)limited; (void)o;
   }
}
void sinks()
{
   const std::string delims = sets[draw(6,"delims")];
   std::string text = text_of(delims,60); if (flip("long-words")) { std::string s; for (char x : text) { s += x; if (x == 'a') s += "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"; } text = s; }
   const bool compress = flip("compress"), limited = flip("limited"); const size_t n = limited ? draw(7,"n") : size_t(-1);
   model::strings want = model::tokens(text,delims,compress); if (want.size() > n) want.resize(n);
   const strtk::split_options::type o = options(compress,none);
   switch (draw(3,"container"))
   {
      case 0 : { std::deque<std::string> d; sink(d,text,delims,want,limited,n,o,[&](std::deque<std::string>& c) { return limited ? strtk::split_n(delims,text,n,strtk::range_to_type_back_inserter(c),o) : strtk::split(delims,text,strtk::range_to_type_back_inserter(c),o); }); break; }
      case 1 : { std::vector<std::string> d; sink(d,text,delims,want,limited,n,o,[&](std::vector<std::string>& c) { return limited ? strtk::split_n(delims,text,n,strtk::range_to_type_back_inserter(c),o) : strtk::split(delims,text,strtk::range_to_type_back_inserter(c),o); }); break; }
      default: { std::list<std::string> d; sink(d,text,delims,want,limited,n,o,[&](std::list<std::string>& c) { return limited ? strtk::split_n(delims.c_str(),text,n,strtk::range_to_type_back_inserter(c),o) : strtk::split(delims.c_str(),text,strtk::range_to_type_back_inserter(c),o); }); break; }
   }
}
}
void sim_run()
{
   sim::want_second_pass();
   for (int k = 0; k < 6 && (k == 0 || more(2,"more")); ++k)
      switch (draw(9,"kind"))
      {
         case 0 : splits(); break;
         case 1 : tokenizers(); break;
         case 2 : tokens_and_filters(); break;
         case 3 : offsets(); break;
         case 4 : flip("list") ? arrange<std::vector<int> >(true) : arrange<std::deque<int> >(true); break;
         case 5 : flip("list") ? arrange<std::vector<int> >(false) : arrange<std::deque<int> >(false); break;
         case 6 : copies(); break;
         case 7 : runs(); break;
         default: sinks(); break;
      }
}
