// C17: key-value parsing against a table of registered targets.
#include "models.hpp"
#include <memory>
using namespace w;
PROPERTY("C17","one run: a history of registrations, re-registrations, parses (strict and ignoring failures) and copies of one key-value parser (integer array, integer map, string map, string map with rejecting and throwing validators) "
               "over drawn texts with unknown, empty, repeated and huge keys, missing separators, empty and unconvertible values; targets are numbers, strings, bytes, attributes, sinks and semantic actions that may throw; allocations fail; "
               "after every parse all targets are compared with a reference parser; non-trivial: an allocation failed, a callback threw, or a pair was rejected; distinct: different sequence of operations, faults and outcomes");
namespace kv = strtk::keyvalue;
typedef std::pair<unsigned char*,unsigned char*> Range;
struct Thrown {};
// callbacks of the current parse
static uint32_t g_calls, g_throw_at; static bool g_threw;
static void call() { if (++g_calls == g_throw_at) { g_threw = true; throw Thrown(); } }
struct Recorder
{
   mutable std::vector<std::string> got;
   bool operator()(const unsigned char* b, const unsigned char* e) const
   {
      call();
      sim::NoFault nf;
      got.push_back(std::string(b,e));
      return (e - b) % 3 != 2;                    // refuses some values
   }
};
struct KeyCheck { template <typename R> bool operator()(const R& r) { call(); return r.first == r.second || *r.first != 'r'; } };
struct ValueCheck { template <typename R> bool operator()(const R& r) { call(); return *r.first != '!'; } };
typedef kv::parser<kv::uintkey_map> UintParser;
typedef kv::parser<kv::key_map<unsigned int> > MapParser;
typedef kv::parser<kv::stringkey_map> StringParser;
typedef kv::parser<kv::key_map<std::string,std::map<std::string,strtk::util::value>,KeyCheck,ValueCheck> > CheckedParser;
// everything a parse can change; the real one and the expected one
enum { kinds = 11 };
struct Targets
{
   int i[2]; unsigned short us; long long ll; unsigned char uc; std::string s[2]; std::vector<int> v; std::list<std::string> l; std::set<int> st; strtk::util::attribute<int> at; Recorder rec;
   Targets() : us(7), ll(-1), uc('u'), at(0) { i[0] = i[1] = -5; s[0] = "unset"; s[1] = ""; at.initialised() = false; }
   std::string text() const
   {
      sim::NoFault nf;
      std::string o; char b[200];
      snprintf(b,sizeof b,"i=%d,%d us=%u ll=%lld uc=%u at=%d/%d",i[0],i[1],us,ll,uc,at(),int(at.initialised())); o = b;
      o += " s=" + s[0] + "|" + s[1] + " v="; for (int x : v) o += std::to_string(x) + ",";
      o += " l="; for (const std::string& x : l) o += x + ","; o += " st="; for (int x : st) o += std::to_string(x) + ",";
      o += " act="; for (const std::string& x : rec.got) o += x + ","; return o;
   }
};
struct Expect
{
   Targets t; uint32_t calls; bool threw;
   // applies one value to one target; partial: states that may be seen if an allocation fails half way
   bool apply(int kind, const std::string& v, std::vector<std::string>* partial)
   {
      switch (kind)
      {
         case 0 : case 1 : return model::integer(v,t.i[kind]);
         case 2 : return model::integer(v,t.us);
         case 3 : return model::integer(v,t.ll);
         case 4 : if (v.size() != 1) return false; t.uc = static_cast<unsigned char>(v[0]); return true;
         case 5 : case 6 : t.s[kind - 5] = v; return true;
         case 7 : for (const std::string& x : model::tokens(v,",;",true)) { int n; if (model::integer(x,n)) { t.v.push_back(n); if (partial) partial->push_back(t.text()); } } return true;
         case 8 : for (const std::string& x : model::tokens(v,",;",true)) { t.l.push_back(x); if (partial) partial->push_back(t.text()); } return true;
         case 9 : { int n; if (!model::integer(v,n)) return false; t.at.value() = n; t.at.initialised() = true; return true; }
         default: if (++calls == g_throw_at) { threw = true; return false; } t.rec.got.push_back(v); return v.size() % 3 != 2;
      }
   }
};
struct Traits { bool number_keys, checked; };
template <typename P> struct Make;
template <> struct Make<UintParser>
{
   static const char* name() { return "integer keys"; }
   static UintParser* make(unsigned char bd, unsigned char pd, size_t count) { kv::uintkey_map::options o; o.key_count = count; o.pair_block_delimiter = bd; o.pair_delimiter = pd; return new UintParser(o); }
   static unsigned key(const std::string& s) { return unsigned(std::stoul(s)); }
   enum { numeric = 1, array = 1, checked = 0 };
};
template <typename P> struct MakePlain { static P* make(unsigned char bd, unsigned char pd, size_t) { kv::options<unsigned char> o; o.pair_block_delimiter = bd; o.pair_delimiter = pd; return new P(o); } };
template <> struct Make<MapParser> : MakePlain<MapParser> { static const char* name() { return "integer map"; } static unsigned key(const std::string& s) { return unsigned(std::stoul(s)); } enum { numeric = 1, array = 0, checked = 0 }; };
template <> struct Make<StringParser> : MakePlain<StringParser> { static const char* name() { return "string map"; } static std::string key(const std::string& s) { return s; } enum { numeric = 0, array = 0, checked = 0 }; };
template <> struct Make<CheckedParser> : MakePlain<CheckedParser> { static const char* name() { return "checked map"; } static std::string key(const std::string& s) { return s; } enum { numeric = 0, array = 0, checked = 1 }; };
struct Sinks
{
   strtk::vector_sink<int>::type v; strtk::list_sink<std::string>::type l;
   std::unique_ptr<strtk::util::semantic_action_impl> first; strtk::util::semantic_action_impl act;   // a copy that outlives its source
   Sinks(Targets& t, bool bound) : v(bound ? strtk::vector_sink<int>::type(t.v,",;") : strtk::vector_sink<int>::type(",;")), l(",;"), first(new strtk::util::semantic_action_impl(strtk::util::semantic_action(t.rec))), act(*first) { first.reset(); if (!bound) v(t.v); l(t.l); }
};
template <typename P> static bool reg(P& p, const std::string& key, int kind, Targets& t, Sinks& s)
{
   const typename std::conditional<Make<P>::numeric,unsigned,std::string>::type k = Make<P>::key(key);
   switch (kind)
   {
      case 0 : case 1 : return p.register_keyvalue(k,t.i[kind]);
      case 2 : return p.register_keyvalue(k,t.us);
      case 3 : return p.register_keyvalue(k,t.ll);
      case 4 : return p.register_keyvalue(k,t.uc);
      case 5 : case 6 : return p.register_keyvalue(k,t.s[kind - 5]);
      case 7 : return p.register_keyvalue(k,s.v.reference());
      case 8 : return p.register_keyvalue(k,s.l.reference());
      case 9 : return p.register_keyvalue(k,t.at);
      default: return p.register_keyvalue(k,s.act.ref());
   }
}
template <typename P> static void history()
{
   typedef Make<P> M;
   static const unsigned char bds[] = { '|', ';' == 0 ? 0 : '&', '\n', 0xB6 }, pds[] = { '=', ':', 0, 0xFE };
   const unsigned char bd = bds[draw(4,"block-delimiter")], pd = pds[draw(4,"pair-delimiter")];
   const size_t count = M::array ? draw(12,"key-count") : 0;
   Targets real; Expect want; Sinks sinks(real,flip("bound-sink"));
   std::unique_ptr<P> p;
   { sim::AllocWindow aw(0); P* n = M::make(bd,pd,count); sim::NoFault nf; p.reset(n); }
   std::map<std::string,int> regs;               // canonical key -> kind
   for (int k = 0; k < 30 && more(9,"more"); ++k)
   {
      const uint32_t what = draw(k < 3 ? 1 : 6,"op");
      const uint32_t af = sim::one_in(4,"alloc?") ? sim::draw_alloc_fault(12,"alloc-at") : 0;
      bool oom = false, ok = false;
      g_calls = 0; g_throw_at = 0; g_threw = false;
      if (what == 0 || what == 5)
      {
         sim::Op op("register");
         const int kind = int(draw(kinds,"target"));
         const std::string key = M::numeric ? std::to_string(draw(M::array ? 14 : 10,"key") ? draw(14,"key") : (M::array ? 3 : 0xFFFFFFFFu)) : flip("named") ? std::string(1 + draw(3,"key-size"),char('p' + draw(4,"key-letter"))) : std::to_string(draw(14,"key"));
         {
            sim::AllocWindow aw(af);
            try { ok = reg(*p,key,kind,real,sinks); }
            catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","register threw bad_alloc"); }
         }
         logf("register %s kind %d -> %s",key.c_str(),kind,oom ? "bad_alloc" : ok ? "ok" : "refused");
         const bool fits = !M::array || std::stoul(key) < count;
         if (!oom && ok != fits) violate("registration","registering key %s returned %d",key.c_str(),int(ok));
         if (!oom && ok) regs[key] = kind;
         if (oom) sim::mark_nontrivial();
      }
      else if (what == 4)
      {
         sim::Op op("copy parser");
         P* n = 0;
         {
            sim::AllocWindow aw(af);
            try { n = new P(*p); }
            catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","copying threw bad_alloc"); }
         }
         if (!oom) p.reset(n);                   // the original goes away
         sim::mark_nontrivial();
      }
      else
      {
         // ---- a text ----
         std::vector<std::string> used; for (const auto& e : regs) used.push_back(e.first);
         std::string text;
         for (int i = 0; i < 20 && more(4,"pair"); ++i)
         {
            if (i || flip("leading")) text += char(bd);
            const uint32_t form = draw(9,"form");
            if (form == 8) continue;             // empty pair
            std::string key = used.empty() || sim::one_in(5,"other-key") ? std::to_string(draw(16,"key")) : used[draw(uint32_t(used.size()),"which-key")];
            switch (sim::one_in(4,"odd-key") ? 1 + draw(6,"how-odd") : 0)
            {
               case 1 : key = ""; break;
               case 2 : key = "0" + key; break;
               case 3 : key += "x"; break;
               case 4 : if (M::numeric) key = std::to_string(4294967296ull + draw(14,"key")); break;
               case 5 : key = flip("twenty-digits") ? "18446744073709551617" : "9999999999999999999"; break;
               case 6 : key = flip("word") ? "rest" : "-1"; break;
               default: break;
            }
            std::string val;
            switch (draw(7,"value"))
            {
               case 0 : val = std::to_string(int(draw(3000,"number")) - 1500); break;
               case 1 : val = model::number(draw(6,"style"),sim::u64("number")); break;
               case 2 : val = std::string(draw(5,"word"),char('a' + draw(26,"letter"))); break;
               case 3 : val = std::string(17 + draw(40,"long"),'L'); break;
               case 4 : for (uint32_t j = draw(6,"list"); j > 0; --j) val += std::to_string(draw(50,"item")) + (flip("comma") ? "," : flip("bad") ? "x;" : ";"); val += "9"; break;
               case 5 : val = "!" + sim::bytes(draw(6,"value-size"),"value-bytes"); break;
               default: val = std::string(1,char('0' + draw(10,"digit"))); break;
            }
            text += key; if (form != 7) text += char(pd); if (form != 6) text += val;
            if (form == 5) { text += char(pd); text += "3"; }
         }
         if (sim::one_in(6,"trailing")) text += char(bd);
         const bool ignore = flip("ignore");
         const uint32_t api = draw(2,"range-api");
         if (sim::one_in(3,"throw?")) g_throw_at = 1 + draw(5,"throw-at");
         sim::Op op(ignore ? "parse ignoring failures" : "parse");
         bool threw = false; const std::string before = text;
         {
            sim::AllocWindow aw(af);
            try
            {
               if (api) { const Range r(reinterpret_cast<unsigned char*>(&text[0]),reinterpret_cast<unsigned char*>(&text[0]) + text.size()); ok = (*p)(r,ignore); }
               else ok = (*p)(text,ignore);
            }
            catch (const Thrown&) { threw = true; }
            catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","parse threw bad_alloc"); }
         }
         if (threw) { sim::fault_fired("callback throws"); sim::mark_nontrivial(); }
         if (oom) sim::mark_nontrivial();
         if (text != before) violate("input-changed","parsing changed its input");
         if (threw != g_threw && !oom) violate("swallowed-exception","parse swallowed an exception of a callback");
         logf("parse %s -> %s",show(text,200).c_str(),oom ? "bad_alloc" : threw ? "callback threw" : ok ? "ok" : "failed");
         sim::shape(oom ? "oom" : threw ? "threw" : ok ? "ok" : "failed");
         // ---- what should have happened ----
         want.calls = 0; want.threw = false;
         std::vector<std::string> states(1,want.t.text()); std::vector<Expect> snaps(1,want);
         std::vector<std::string> pairs; std::string cur;
         for (size_t i = 0; i <= text.size(); ++i) if (i == text.size() || static_cast<unsigned char>(text[i]) == bd) { pairs.push_back(cur); cur.clear(); } else cur += text[i];
         size_t failures = 0; bool stop = false;
         for (size_t i = 0; i < pairs.size() && !stop; ++i)
         {
            const std::string& pr = pairs[i]; if (pr.empty()) continue;
            const size_t pos = pr.find(char(pd));
            bool good = pos != std::string::npos && pos + 1 < pr.size();
            if (good)
            {
               std::string key = pr.substr(0,pos); const std::string val = pr.substr(pos + 1);
               if (M::checked)
               {
                  if (++want.calls == g_throw_at) want.threw = true;
                  else if (!key.empty() && key[0] == 'r') good = false;
                  else if (++want.calls == g_throw_at) want.threw = true;
                  else if (val[0] == '!') good = false;
               }
               if (want.threw) break;
               if (good && M::numeric)
               {
                  unsigned long long n; good = !key.empty() && key[0] != '+' && key.size() < 20 && model::integer(key,n) && n <= 0xFFFFFFFFull;
                  if (good) key = std::to_string(n);
               }
               if (good)
               {
                  const auto e = regs.find(key);
                  good = e != regs.end() && want.apply(e->second,val,oom ? &states : 0);
               }
               if (want.threw) break;
            }
            if (!good) { ++failures; stop = !ignore; sim::mark_nontrivial(); }
            states.push_back(want.t.text()); snaps.push_back(want);
         }
         const std::string now = real.text();
         if (oom)
         {
            bool found = false; for (const std::string& s : states) found = found || s == now;
            if (!found) violate("targets-after-failure","after a failed allocation the targets are %s",now.c_str());
            // continue from what is there now
            want.t = real;
         }
         else
         {
            if (now != want.t.text()) violate("targets","targets are %s instead of %s",show(now,300).c_str(),show(want.t.text(),300).c_str());
            if (threw != want.threw) violate("swallowed-exception","callback threw: %d, expected %d",int(threw),int(want.threw));
            if (!threw)
            {
               if (ok != (ignore || (failures == 0 && !text.empty()))) violate("result","parse returned %d with %zu failed pairs",int(ok),failures);
               if (ignore && p->failure_count() != failures) violate("result","failure_count() is %zu instead of %zu",p->failure_count(),failures);
            }
         }
      }
      if (real.text() != want.t.text()) violate("targets","registering changed a target: %s instead of %s",real.text().c_str(),want.t.text().c_str());
   }
   // afterwards parsing continues normally
   g_calls = 0; g_throw_at = 0;
   for (const auto& e : regs)
   {
      sim::Op op("parse after faults");
      const std::string text = e.first + char(pd) + "4";
      if (M::checked && e.first[0] == 'r') continue;
      bool ok; { sim::AllocWindow aw(0); ok = (*p)(text); }
      const bool good = want.apply(e.second,"4",0);
      if (ok != good || real.text() != want.t.text()) violate("no-progress","%s returned %d, targets %s",show(text).c_str(),int(ok),real.text().c_str());
   }
}
void sim_run()
{
   sim::want_second_pass();
   switch (draw(4,"kind"))
   {
      case 0 : history<UintParser>(); break;
      case 1 : history<MapParser>(); break;
      case 2 : history<StringParser>(); break;
      default: history<CheckedParser>(); break;
   }
}
