// Calls of the library on data of their own, each giving a digest of its results: shared by the thread and the allocation workloads.
#ifndef KINDS_HPP
#define KINDS_HPP
#define BOOST_REGEX_MAX_CACHE_BLOCKS 0   // boost keeps freed blocks from call to call otherwise
#include "digest.hpp"
#include "kinds_list.hpp"
#include <cmath>
#include <fstream>
#include <functional>
#include <memory>
#include <queue>
#include <sstream>
using namespace w;
using dg::dig;
typedef std::vector<std::string> strings;
typedef unsigned long long ull;
namespace {
struct R : sim::Rng
{
   // the choices a call starts with (modes, parameter sets) can be the same in all threads while the data differ
   sim::Rng variant; int first;
   explicit R(const Call& c) : sim::Rng(c.seed), variant(c.variant), first(c.variant ? 4 : 0) {}
   uint32_t pick(uint32_t n) { return first > 0 ? --first, variant.below(n) : below(n); }
   int num() { switch (below(4)) { case 0 : return int(below(10)); case 1 : return int(below(100000)) - 50000; case 2 : return int(uint32_t(next())); default: return below(2) ? 2147483647 - int(below(3)) : -2147483647 + int(below(3)); } }
   double real() { return double(int(below(2000000))) / 64 - 9000; }
   std::string text(size_t n, const char* alphabet) { std::string s(n,'a'); const uint32_t k = uint32_t(std::strlen(alphabet)); for (char& c : s) c = alphabet[below(k)]; return s; }
   std::string bytes(size_t n) { std::string s(n,'a'); for (char& c : s) c = char(next()); return s; }
   std::string word(size_t max) { return text(1 + below(uint32_t(max)),"abcdefghXYZ0189"); }
   strings words(size_t n, size_t max) { strings v; for (size_t i = 0; i < n; ++i) v.push_back(word(max)); return v; }
};
struct Keep { strings* out; void operator()(const std::string& x) const { out->push_back("+" + x); } template <typename P> void operator()(const P& r) const { out->push_back(std::string(r.first,r.second)); } };
struct Collect { strings* out; bool with; Collect(strings& o) : out(&o), with(true) {} bool operator()(const std::string& s) { out->push_back(s); return true; } };
struct Odd { bool operator()(int i) const { return i % 2 != 0; } template <typename P> bool operator()(const P& r) const { return (r.second - r.first) % 2 != 0; } };
struct OddRow { bool operator()(const strtk::token_grid::row_type& r) const { return r.size() % 2 != 0; } };
struct Obj
{
   int a; std::string b; std::vector<short> c;
   Obj() : a(0) {}
   bool operator()(strtk::binary::reader& r) { return r(a) && r(b) && r(c); }
   bool operator()(strtk::binary::writer& w) const { return w(a) && w(b) && w(c); }
};
struct Text { std::string s; strings v; bool operator()(const unsigned char* b, const unsigned char* e) const { return e - b > 2; } };
template <typename C> strtk::range_to_type_back_inserter_iterator<C> ins(C& c) { return strtk::range_to_type_back_inserter(c); }
const char* const delims[] = { ",", "|;", " \t", ",;:|/", "." };
strtk::split_options::type copt(R& r) { static const uint32_t m[] = { 0, 1, 2, 3, 4, 5 }; return strtk::split_options::type(m[r.pick(6)]); }
std::string field_text(R& r, size_t n, const std::string& d) { std::string s = r.text(n,"abcdefXYZ0189-_"); for (char& c : s) if (r.below(5) == 0) c = d[r.below(uint32_t(d.size()))]; return s; }
// what a result must be like, whatever the reference model of a property says about it
template <typename... A> void need(bool ok, const char* what, const A&... a) { if (!ok) { sim::NoFault nf; throw Wrong(what + (sizeof...(A) ? " (" + dig(a...) + ")" : std::string())); } }
} // namespace
#define KIND(name) static std::string k_##name(R& r, size_t n, const std::string& dir); static std::string c_##name(const Call& c, const std::string& dir) { R r(c); return k_##name(r,c.size,dir); } \
   static const Kinds::Add add_##name(#name,c_##name); static std::string k_##name(R& r, size_t n, const std::string& dir)
#endif
