#ifndef WORK_HPP
#define WORK_HPP
#include "sim.hpp"
#include "strtk.hpp"
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#define PROPERTY(id,rule) extern const char* const sim_property = id; extern const char* const sim_rule = rule
namespace w
{
   using sim::draw; using sim::flip; using sim::more; using sim::violate; using sim::logf; using sim::show;
   namespace fs = sim::fs;
   inline void no_open_files(const char* what)
   {
      if (!fs::killed() && fs::open_fds())
         violate("descriptor-leak","%s left %zu file(s) open",what,fs::open_fds());
   }
   // checks two byte strings for equality, says where they differ
   inline std::string diff(const std::string& got, const std::string& want)
   {
      sim::NoFault nf;
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
      char b[200];
      snprintf(b,sizeof b,"%zu bytes instead of %zu, first difference at %zu: ",got.size(),want.size(),i);
      return std::string(b) + show(got.substr(std::min(i,got.size())),30) + " instead of " + show(want.substr(std::min(i,want.size())),30);
   }
}
#endif
