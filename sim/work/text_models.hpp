// what the text functions give, said once more in the simplest way: small reference models for the kinds of calls.
// They never fail themselves: every model runs outside the fault window.
#ifndef TEXT_MODELS_HPP
#define TEXT_MODELS_HPP
#include "kinds.hpp"
#include "models.hpp"
namespace txt
{
   typedef std::vector<size_t> places;
   inline char up(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
   inline char down(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
   inline std::string uppered(std::string s) { sim::NoFault nf; for (char& c : s) c = up(c); return s; }
   inline std::string lowered(std::string s) { sim::NoFault nf; for (char& c : s) c = down(c); return s; }
   // elements that are kept
   template <typename C, typename P> C without(const C& s, P p) { sim::NoFault nf; C o; for (const auto& c : s) if (!p(c)) o.push_back(c); return o; }
   template <typename C, typename P> C without_runs(const C& s, P p)          // of neighbours for which p holds only the first
   { sim::NoFault nf; C o; bool before = false; for (const auto& c : s) { const bool now = p(c); if (!now || !before) o.push_back(c); before = now; } return o; }
   template <typename C> C without_repeats(const C& s) { sim::NoFault nf; C o; for (const auto& c : s) if (o.empty() || !(o.back() == c)) o.push_back(c); return o; }
   template <typename P> std::string after_leading(const std::string& s, P p) { sim::NoFault nf; size_t i = 0; while (i < s.size() && p(s[i])) ++i; return s.substr(i); }
   template <typename P> std::string before_trailing(const std::string& s, P p) { sim::NoFault nf; size_t n = s.size(); while (n > 1 && p(s[n - 1])) --n; return s.substr(0,n); }
   inline std::string first_of_each(const std::string& s) { sim::NoFault nf; std::string o; for (char c : s) if (o.find(c) == std::string::npos) o += c; return o; }
   inline std::string replaced(const std::string& s, const std::string& p, const std::string& r)
   { sim::NoFault nf; std::string o; size_t i = 0; while (i < s.size()) if (!p.empty() && s.compare(i,p.size(),p) == 0) { o += r; i += p.size(); } else o += s[i++]; return o; }
   // where a text is found
   inline bool same_fold(const std::string& a, const std::string& b) { return uppered(a) == uppered(b); }
   inline places found(const std::string& p, const std::string& s) { sim::NoFault nf; places o; for (size_t i = 0; (i = s.find(p,i)) != std::string::npos; i += p.size()) o.push_back(i); return o; }
   inline bool begins(const std::string& p, const std::string& s) { return p.size() <= s.size() && s.compare(0,p.size(),p) == 0; }
   inline bool ends(const std::string& p, const std::string& s) { return p.size() <= s.size() && s.compare(s.size() - p.size(),p.size(),p) == 0; }
   // can the text be what the pattern stands for: * any characters, ? one character or none
   inline bool stands_for(const std::string& p, const std::string& s)
   {
      sim::NoFault nf; std::vector<bool> now(s.size() + 1,false); now[0] = true;
      for (char c : p)
      {
         std::vector<bool> then(s.size() + 1,false);
         for (size_t i = 0; i <= s.size(); ++i)
         {
            if (c == '*') then[i] = now[i] || (i && then[i - 1]);
            else if (c == '?') then[i] = now[i] || (i && now[i - 1]);
            else then[i] = i && now[i - 1] && s[i - 1] == c;
         }
         now.swap(then);
      }
      return now[s.size()];
   }
   // fields of a text: options are those of strtk::split_options and strtk::tokenize_options
   template <typename P> strings fields(const std::string& s, P delim, uint32_t option)
   {
      sim::NoFault nf; strings o; std::string cur; bool open = false;
      const bool compress = option & 1, first = option & 2, all = !first && (option & 4);
      for (size_t i = 0; i < s.size();)
         if (delim(s[i]))
         {
            size_t e = i; while (e < s.size() && delim(s[e])) ++e;
            if (first) { cur += s[i]; i = compress ? e : i + 1; }
            else if (all) { cur.append(s,i,e - i); i = e; }
            else i = compress ? e : i + 1;
            o.push_back(cur); cur.clear(); open = false;
         }
         else { cur += s[i++]; open = true; }
      if (!s.empty() && (open || delim(s[s.size() - 1]))) o.push_back(cur);
      return o;
   }
   inline strings first_n(strings v, size_t n) { sim::NoFault nf; if (v.size() > n) v.resize(n); return v; }
   // texts made of texts
   template <typename C> std::string joined(const C& v, const std::string& d) { sim::NoFault nf; std::string o; bool more = false; for (const auto& x : v) { if (more) o += d; more = true; o += x; } return o; }
   template <typename C, typename P> std::string joined_if(const C& v, const std::string& d, P p) { sim::NoFault nf; strings w; for (const auto& x : v) if (p(x)) w.push_back(x); return joined(w,d); }
   template <typename C> std::string wrapped(const C& v, const std::string& a, const std::string& b) { sim::NoFault nf; std::string o; for (const auto& x : v) o += a + x + b; return o; }
   inline std::string repeated(size_t n, const std::string& s) { sim::NoFault nf; std::string o; while (n--) o += s; return o; }
   // bits and encodings
   inline size_t ones(const std::string& s) { size_t n = 0; for (char c : s) n += size_t(__builtin_popcount((unsigned char)c)); return n; }
   inline std::string bitwise(int op, const std::string& a, const std::string& b) { sim::NoFault nf; std::string o(a); for (size_t i = 0; i < o.size(); ++i) o[i] = char(op == 0 ? a[i] & b[i] : op == 1 ? a[i] | b[i] : a[i] ^ b[i]); return o; }
   inline std::string interleaved(const std::string& a, const std::string& b)
   {
      sim::NoFault nf; std::string o(a.size() * 2,'\0');
      for (size_t i = 0; i < a.size(); ++i)
         for (int k = 0; k < 8; ++k)
         {
            const int x = a[i] >> k & 1, y = b[i] >> k & 1, at = 2 * k; unsigned char* w = (unsigned char*)&o[2 * i];
            w[at / 8] = (unsigned char)(w[at / 8] | x << at % 8 | y << (at + 1) % 8);
         }
      return o;
   }
   inline std::string hex(const std::string& s) { sim::NoFault nf; std::string o; for (unsigned char c : s) { o += "0123456789ABCDEF"[c >> 4]; o += "0123456789ABCDEF"[c & 15]; } return o; }
   inline bool unhex(const std::string& h, std::string& s)
   {
      sim::NoFault nf; if (h.empty() || h.size() % 2) return false;
      s.clear(); for (size_t i = 0; i < h.size(); i += 2) { int v = 0; for (int k = 0; k < 2; ++k) { const char c = up(h[i + k]); if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'))) return false; v = v * 16 + (c <= '9' ? c - '0' : c - 'A' + 10); } s += char(v); }
      return true;
   }
   inline std::string base64(const std::string& s)
   {
      sim::NoFault nf; std::string o; static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
      for (size_t i = 0; i < s.size(); i += 3)
      {
         const size_t n = std::min<size_t>(3,s.size() - i); uint32_t v = 0;
         for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
         for (size_t k = 0; k < 4; ++k) o += k <= n ? b64[v >> (18 - 6 * k) & 63] : '=';
      }
      return o;
   }
   inline std::string printable(std::string s) { for (char& c : s) if ((unsigned char)c <= 32 || (unsigned char)c > 126) c = '.'; return s; }
   template <typename T> std::vector<T> counted(size_t n, T from) { sim::NoFault nf; std::vector<T> v; while (n--) v.push_back(from++); return v; }
}
// a result against its model, and texts that outputs hold before the call
template <typename A, typename B> void same(const char* what, const A& got, const B& want) { if (!(got == want)) need(false,what,got,want); }
template <typename A, typename B, typename C> void same(const char* what, const A& got, const B& want, const C& of) { if (!(got == want)) need(false,what,got,want,of); }
static inline std::string used(R& r) { return r.below(3) ? r.text(r.below(r.below(4) ? 12 : 90),"#usedtext") : std::string(); }
#endif
