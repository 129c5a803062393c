// small executable reference models shared by workloads (independent of the library)
#ifndef MODELS_HPP
#define MODELS_HPP
#include "work.hpp"
#include <limits>
namespace model
{
   typedef std::vector<std::string> strings;
   inline bool is_delim(const std::string& d, char c) { return d.find(c) != std::string::npos; }
   // tokens of a non-empty text: fields between delimiters, empty ones included; compress: runs count once
   inline strings tokens(const std::string& text, const std::string& delims, bool compress)
   {
      strings out;
      if (text.empty()) return out;
      std::string cur;
      for (size_t i = 0; i < text.size();)
      {
         if (is_delim(delims,text[i]))
         {
            out.push_back(cur); cur.clear(); ++i;
            if (compress) while (i < text.size() && is_delim(delims,text[i])) ++i;
         }
         else cur += text[i++];
      }
      if (!cur.empty() || is_delim(delims,text[text.size() - 1])) out.push_back(cur);
      return out;
   }
   // lines as std::getline sees them
   inline strings lines(const std::string& text)
   {
      strings out; std::string cur; bool open = false;
      for (size_t i = 0; i < text.size(); ++i)
         if (text[i] == '\n') { out.push_back(cur); cur.clear(); open = false; }
         else { cur += text[i]; open = true; }
      if (open) out.push_back(cur);
      return out;
   }
   template <typename T> bool integer(const std::string& s, T& out)
   {
      size_t i = 0; bool neg = false;
      if (s.empty()) return false;
      if (s[0] == '+' || s[0] == '-')
      {
         neg = s[0] == '-'; i = 1;
         if (neg && !std::numeric_limits<T>::is_signed) return false;
      }
      if (i == s.size()) return false;
      __int128 v = 0;
      for (; i < s.size(); ++i)
      {
         if (s[i] < '0' || s[i] > '9') return false;
         v = v * 10 + (s[i] - '0');
         if (v > (__int128(1) << 70)) return false;
      }
      if (neg) v = -v;
      if (v < __int128(std::numeric_limits<T>::min()) || v > __int128(std::numeric_limits<T>::max())) return false;
      out = T(v);
      return true;
   }
   template <typename T> struct conv { static bool get(const std::string& s, T& t) { return integer(s,t); } };
   template <> struct conv<std::string> { static bool get(const std::string& s, std::string& t) { t = s; return true; } };
   inline std::string number(uint32_t kind, uint64_t v)
   {
      sim::NoFault nf;
      char b[40];
      switch (kind)
      {
         case 0 : snprintf(b,sizeof b,"%llu",(unsigned long long)(v % 1000)); break;
         case 1 : snprintf(b,sizeof b,"%lld",(long long)(int64_t(v) % 100000)); break;
         case 2 : snprintf(b,sizeof b,"%d",int(v)); break;
         case 3 : snprintf(b,sizeof b,"%llu",(unsigned long long)v); break;
         case 4 : snprintf(b,sizeof b,"%lld",(long long)v); break;
         default: snprintf(b,sizeof b,"+%0*llu",int(1 + v % 15),(unsigned long long)(v % 40000)); break;
      }
      return b;
   }
   inline std::string num(const std::string& s) { return s; }
}
#endif
