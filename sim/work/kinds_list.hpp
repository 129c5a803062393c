// The calls that the kinds_*.cpp files offer to the workloads.
#ifndef KINDS_LIST_HPP
#define KINDS_LIST_HPP
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
struct Call { uint32_t kind, seed, size, variant; };
struct Wrong : std::logic_error { explicit Wrong(const std::string& what) : std::logic_error(what) {} };   // a call gave a result it never should
struct Kind { const char* name; std::string (*run)(const Call& c, const std::string& dir); };
struct Kinds
{
   std::vector<Kind> all;
   static Kinds& get() { static Kinds k; return k; }
   struct Add { Add(const char* n, std::string (*f)(const Call&, const std::string&)) { const Kind k = { n, f }; get().all.push_back(k); } };
};
#endif
