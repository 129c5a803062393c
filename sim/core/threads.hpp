// Thread engine: real threads, one running at a time, switched at instrumented memory accesses.
#ifndef THREADS_HPP
#define THREADS_HPP
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
namespace sim
{
   namespace threads
   {
      struct Footprint                         // memory the code touched that existed before it started
      {
         std::vector<uint64_t> written, accessed;   // sorted addresses of 8 byte granules
         uint64_t points = 0;                       // instrumented points passed
      };
      // runs fn in a process of its own; false if it did not come back
      bool isolated(const std::function<std::string()>& fn, std::string& result, Footprint& fp);
      enum { policy_serial, policy_quanta, policy_power, policy_shared, policy_points, policy_mixed, policies };
      struct Plan
      {
         uint32_t policy = 0;
         std::vector<uint64_t> shared;              // sorted granules written by one and touched by another
         uint64_t points = 0;                       // expected number of points of all bodies together
      };
      void run(const std::vector<std::function<void()>>& bodies, const Plan& plan);
      void preempt_point();                         // from the simulated disk
      void touch(const void* p, size_t n, bool write);   // memory read or written outside instrumented code
      // faults of the current thread: set before a call, looked at after it
      void arm_allocation_failure(uint32_t at);     // the at-th allocation from now fails (0: none)
      bool allocation_fails();                      // from operator new
      void note_fault();                            // from the simulated disk
      bool faulted();                               // a fault hit this thread since arm_allocation_failure
      int id();
      uint64_t switches();
   }
}
#endif
