// C16: the prefix trie against an ordinary map, with failing allocations.
#include "models.hpp"
#include <memory>
using namespace w;
PROPERTY("C16","one run: a history of insertions, lookups, prefix queries, copies and assignments of prefix tries (string, C string, integer and object values; character and integer keys) with failing allocations; "
               "after every step a sweep of lookups over all keys used, their prefixes and neighbours against an ordinary map; every run is repeated to look for leaked nodes; "
               "non-trivial: an allocation failed or one key was the prefix or neighbour of another; distinct: different sequence of operations, faults and outcomes");
template <typename K> struct Model { std::map<K,std::string> m; std::set<K> half; };   // half: keys whose insertion failed
template <typename K> static bool prefix_of(const K& p, const K& k) { return p.size() <= k.size() && std::equal(p.begin(),p.end(),k.begin()); }
template <typename K> static bool has_prefix(const std::map<K,std::string>& m, const K& p) { for (const auto& e : m) if (prefix_of(p,e.first)) return true; return false; }
static std::string show_key(const std::string& k) { return show(k,20); }
static std::string show_key(const std::vector<unsigned>& k) { std::string s = "<"; for (unsigned x : k) s += std::to_string(x) + " "; return s + ">"; }
// ---- the two kinds of trie behind one interface
struct StringTrie
{
   typedef std::string K;
   typedef strtk::prefix_trie<std::string>::std_string T;
   static const char* name() { return "string keys"; }
   static void put(T& t, const K& k, const std::string& v, uint32_t how) { if (how) strtk::trie::insert(t,k,v); else t.insert(k.begin(),k.end(),v); }
   static bool get(T& t, const K& k, std::string& v, uint32_t how) { return how ? strtk::trie::find(t,k,v) : t.find(k.begin(),k.end(),v); }
   static bool pre(T& t, const K& k, uint32_t how) { return how ? strtk::trie::find_prefix(t,k) : t.find_prefix(k.begin(),k.end()); }
   static K key(uint32_t alphabet)
   {
      K k; const size_t n = sim::size_upto(12,"key-size"); for (size_t i = 0; i < n; ++i) k += "a\0b\xFF" "cdefghij"[draw(alphabet,"key-byte")];
      return k;
   }
};
struct NumberTrie
{
   typedef std::vector<unsigned> K;
   typedef strtk::trie::prefix<const unsigned*,std::string> T;
   static const char* name() { return "integer keys"; }
   static void put(T& t, const K& k, const std::string& v, uint32_t) { t.insert(k.data(),k.data() + k.size(),v); }
   static bool get(T& t, const K& k, std::string& v, uint32_t how) { return how ? t.find(k.begin(),k.end(),v) : t.find(k.data(),k.data() + k.size(),v); }
   static bool pre(T& t, const K& k, uint32_t) { return t.find_prefix(k.data(),k.data() + k.size()); }
   static K key(uint32_t alphabet)
   {
      static const unsigned a[] = { 1, 0, 256, 0xFFFFFFFFu, 257, 2, 3, 4, 5, 6, 7, 8 };
      K k(sim::size_upto(12,"key-size")); for (unsigned& x : k) x = a[draw(alphabet,"key-element")];
      return k;
   }
};
template <typename S> static void sweep(typename S::T& t, const Model<typename S::K>& m, const std::set<typename S::K>& probe, const char* when)
{
   typedef typename S::K K;
   for (const K& k : probe)
   {
      if (k.empty()) continue;                    // the trie does not keep the empty key
      sim::NoFault nf;
      const uint32_t how = uint32_t(k.size() & 1);
      std::string v = "untouched"; const bool ok = S::get(t,k,v,how);
      const auto e = m.m.find(k);
      if (ok != (e != m.m.end())) violate("lookup","%s: key %s %s",when,show_key(k).c_str(),ok ? "found though never inserted" : "lost");
      if (v != (ok ? e->second : std::string("untouched"))) violate("value","%s: key %s has value %s",when,show_key(k).c_str(),show(v).c_str());
      const bool p = S::pre(t,k,how);
      bool may = false; for (const K& h : m.half) may = may || prefix_of(k,h);
      const bool must = has_prefix(m.m,k);
      if (must && !p) violate("prefix","%s: prefix %s lost",when,show_key(k).c_str());
      if (p && !must && !may) violate("prefix","%s: prefix %s reported though no key begins with it",when,show_key(k).c_str());
   }
}
template <typename S> static void history()
{
   typedef typename S::K K; typedef typename S::T T;
   const uint32_t alphabet = flip("wide") ? 12 : 2 + draw(2,"alphabet");
   std::unique_ptr<T> t[2]; Model<K> m[2];
   { sim::AllocWindow aw(0); T* p = new T(); sim::NoFault nf; t[0].reset(p); }
   std::set<K> probe; std::vector<K> keys;
   for (int k = 0; k < 40 && more(9,"more"); ++k)
   {
      K key = S::key(alphabet);
      if (!keys.empty() && flip("related"))
      {
         key = keys[draw(uint32_t(keys.size()),"which")];
         switch (draw(4,"relation"))
         {
            case 0 : break;
            case 1 : if (!key.empty()) key.resize(draw(uint32_t(key.size()),"cut")); break;
            case 2 : { const K e = S::key(alphabet); key.insert(key.end(),e.begin(),e.end()); break; }
            default: if (!key.empty()) { const K e = S::key(alphabet); if (!e.empty()) key[key.size() - 1] = e[0]; } break;
         }
         sim::mark_nontrivial();
      }
      const std::string val = flip("long") ? std::string(20 + draw(30,"value-size"),char('a' + k % 26)) : std::to_string(k);
      uint32_t what = draw(6,"op");
      const uint32_t side = t[1] ? draw(2,"side") : 0;
      const uint32_t af = sim::one_in(3,"alloc?") ? sim::draw_alloc_fault(30,"alloc-at") : 0;
      static const char* const names[] = { "insert", "insert", "insert", "copy", "assign", "destroy" };
      sim::Op op(names[what]);
      bool oom = false;
      if ((what == 4 || what == 5) && !t[1]) what = 3;
      {
         sim::AllocWindow aw(af);
         try
         {
            switch (what)
            {
               case 3 : { T* p = new T(*t[side]); sim::NoFault nf; if (side == 0) t[1].reset(p); else t[0].reset(p); break; }
               case 4 : *t[1 - side] = *t[side]; break;
               case 5 : { t[1].reset(); break; }
               default: S::put(*t[side],key,val,draw(2,"how")); break;
            }
         }
         catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","%s threw bad_alloc",names[what]); }
      }
      logf("%s %s -> %s",names[what],what < 3 ? show_key(key).c_str() : "",oom ? "bad_alloc" : "done");
      sim::shape(oom ? "oom" : "done");
      if (oom) sim::mark_nontrivial();
      if (what < 3)
      {
         keys.push_back(key); probe.insert(key);
         for (size_t c = 1; c < key.size(); ++c) probe.insert(K(key.begin(),key.begin() + c));
         K up = key; up.push_back(1); probe.insert(up);
         if (!key.empty()) { K other = key; other.back() += 1; probe.insert(other); other.back() -= 2; probe.insert(other); }
         if (!oom) { if (!key.empty()) m[side].m[key] = val; }
         else m[side].half.insert(key);
      }
      else if (!oom && what == 3) m[1 - side] = m[side];
      else if (!oom && what == 4) m[1 - side] = m[side];
      for (int s = 0; s < 2; ++s) if (t[s])
      {
         // the values of a key whose re-insertion failed stay what they were
         sweep<S>(*t[s],m[s],probe,oom ? "after a failed allocation" : names[what]);
      }
   }
   for (int s = 0; s < 2; ++s) t[s].reset();
}
// values that are small integers through the free functions, C strings included
static void numbers()
{
   strtk::prefix_trie<std::size_t>::std_string t; std::map<std::string,std::size_t> m; std::set<std::string> half;
   for (int k = 0; k < 25 && more(8,"more"); ++k)
   {
      std::string key; const size_t n = sim::size_upto(8,"key-size"); for (size_t i = 0; i < n; ++i) key += char('a' + draw(2,"key-byte"));
      const uint32_t how = draw(3,"how"), af = sim::one_in(4,"alloc?") ? sim::draw_alloc_fault(20,"alloc-at") : 0;
      std::size_t v = draw(1000,"value");
      sim::Op op("insert number"); bool oom = false;
      {
         sim::AllocWindow aw(af);
         try { if (how == 0) strtk::trie::insert(t,key,v); else if (how == 1) strtk::trie::insert(t,key.c_str(),v); else { v = 0; strtk::trie::insert(t,key); } }
         catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","insert threw bad_alloc"); }
      }
      logf("insert %s -> %s",key.c_str(),oom ? "bad_alloc" : "done");
      if (oom) { half.insert(key); sim::mark_nontrivial(); } else if (!key.empty()) m[key] = v;
      std::string q; const size_t qn = sim::size_upto(8,"query-size"); for (size_t i = 0; i < qn; ++i) q += char('a' + draw(2,"query-byte"));
      for (int round = 0; round < 2; ++round)
      {
         const std::string& s = round ? key : q;
         std::size_t got = 12345;
         const bool ok = how == 1 ? strtk::trie::find(t,s.c_str(),got) : strtk::trie::find(t,s,got);
         if (ok != (m.count(s) != 0)) violate("lookup","key %s %s",s.c_str(),ok ? "found though never inserted" : "lost");
         if (got != (ok ? m[s] : 12345)) violate("value","key %s has value %zu",s.c_str(),got);
      }
   }
}
void sim_run()
{
   sim::want_second_pass();
   switch (draw(3,"kind"))
   {
      case 0 : history<StringTrie>(); break;
      case 1 : history<NumberTrie>(); break;
      default: numbers(); break;
   }
}
