// results as comparable text
#ifndef DIGEST_HPP
#define DIGEST_HPP
#include "work.hpp"
#include <type_traits>
namespace dg
{
   inline void put(std::string& s, const std::string& v) { s += std::to_string(v.size()); s += ':'; s += v; s += ' '; }
   inline void put(std::string& s, const char* v) { put(s,std::string(v)); }
   template <typename T> typename std::enable_if<std::is_arithmetic<T>::value>::type put(std::string& s, T v)
   { char b[64]; if (std::is_floating_point<T>::value) snprintf(b,sizeof b,"%a ",double(v)); else snprintf(b,sizeof b,"%lld ",(long long)(v)); s += b; }
   template <typename A, typename B> void put(std::string& s, const std::pair<A,B>& p) { put(s,p.first); put(s,p.second); }
   template <typename C> typename std::enable_if<!std::is_arithmetic<C>::value, typename std::conditional<true,void,typename C::const_iterator>::type>::type put(std::string& s, const C& c)
   { s += '['; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) put(s,*i); s += ']'; }
   inline void put_all(std::string&) {}
   template <typename T, typename... R> void put_all(std::string& s, const T& t, const R&... r) { put(s,t); put_all(s,r...); }
   template <typename... R> std::string dig(const R&... r) { sim::NoFault nf; std::string s; put_all(s,r...); return s; }
}
#endif
