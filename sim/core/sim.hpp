// Deterministic simulator for strtk: public interface used by the workloads.
//
// One run = one pure function of a sequence of choices.  Every decision a run takes (generated
// operations and data, injected faults, crash points, clock jumps, thread schedule) goes through
// sim::draw(), which takes it from a PRNG seeded from (VERIF_SEED, property, run index) and records
// it - or, on replay, takes it from the recorded sequence.  0 always is the simplest choice
// (no fault, shortest data, no further operation).
#ifndef SIM_HPP
#define SIM_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <utility>

namespace sim
{
   // ---- choices -------------------------------------------------------------------------------
   uint32_t draw(uint32_t n, const char* label);              // uniform in [0,n)
   inline bool flip(const char* label) { return draw(2,label) != 0; }
   inline bool one_in(uint32_t n, const char* label) { return draw(n,label) == n - 1 && n > 1; }
   bool more(uint32_t avg, const char* label);                // another item?  (about avg items)
   size_t size_upto(size_t max, const char* label);           // boundary-biased size in [0,max]
   uint64_t u64(const char* label);                           // boundary-biased 64 bit value
   struct Rng                                                 // local expansion of one draw
   {
      uint64_t s;
      explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
      uint64_t next()
      {
         s += 0x9E3779B97F4A7C15ull;
         uint64_t z = s;
         z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
         z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
         return z ^ (z >> 31);
      }
      uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
   };
   std::string bytes(size_t n, const char* label);            // n bytes of drawn style
   extern const uint32_t* g_dict; extern size_t g_dict_n;     // integer literals found in strtk.hpp

   // ---- structure and log of the run ----------------------------------------------------------
   void op_begin(const char* name);
   void op_end();
   struct Op { explicit Op(const char* n) { op_begin(n); } ~Op() { op_end(); } };
   void logf(const char* fmt, ...) __attribute__((format(printf,1,2)));   // event log: digest + trace
   void log_data(const char* what, const std::string& s);
   void probe(const char* name, uint64_t n = 1);              // reach counter
   void fault_fired(const char* name);                        // reach counter of injected faults
   void mark_nontrivial();
   void shape(uint64_t h);                                    // adds to the run's shape hash
   void shape(const char* s);
   bool tracing();
   [[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
   std::string show(const std::string& s, size_t max = 60);
   uint64_t hash(const void* p, size_t n);
   inline uint64_t hash(const std::string& s) { return hash(s.data(),s.size()); }
   // whether the body runs for the second time in this process (leak check repeats the run)
   bool second_pass();
   void want_second_pass();                                   // ask for the repeat (leak check)

   // ---- clock ---------------------------------------------------------------------------------
   int64_t now_us();
   void clock_set(int64_t us);
   void clock_advance(int64_t us);

   // ---- allocator -----------------------------------------------------------------------------
   struct AllocWindow                                         // library code runs in here
   {
      AllocWindow(uint32_t fail_at);                          // 0: never; k: the k-th allocation throws
      AllocWindow(uint32_t fail_at, uint32_t again_every);    // afterwards every n-th again
      ~AllocWindow();
      bool fired() const;
      uint64_t allocations() const;
      uint64_t largest() const;                               // biggest single request in bytes
   };
   uint32_t draw_alloc_fault(uint32_t limit, const char* label);  // 0 = none, biased small
   struct NoFault { NoFault(); ~NoFault(); bool saved; };     // simulator internals: never fail
   void alloc_pattern(unsigned char c);
   size_t live_window_allocs();                               // allocations made inside windows, alive

   // ---- disk ----------------------------------------------------------------------------------
   namespace fs
   {
      enum Fault
      {
         open_fail = 1, read_eio = 2, read_short = 4, read_eintr = 8, write_eio = 16,
         write_short = 32, write_eintr = 64, enospc = 128, close_eio = 256, seek_fail = 512,
         race = 1024, kill = 2048
      };
      const uint32_t benign    = read_short | read_eintr | write_short | write_eintr;
      const uint32_t rd_faults = open_fail | read_eio | read_short | read_eintr | seek_fail;
      const uint32_t wr_faults = open_fail | write_eio | write_short | write_eintr | enospc | close_eio;
      struct Profile { uint32_t mask; uint32_t rate; };
      Profile draw_profile(uint32_t allowed);                 // swarm: subset and rate for this run
      void profile(const Profile& p);
      void put(const std::string& path, const std::string& data);
      void erase(const std::string& path);
      bool exists(const std::string& path);
      const std::string& get(const std::string& path);
      void set_unreadable(const std::string& path, bool b);
      void race_target(const std::string& path);              // file another process may change
      const std::vector<std::string>& versions(const std::string& path); // contents during the window
      bool killed();                                          // process was killed in the window
      void restart();                                         // drop open files, process starts again
      bool hard_before_kill();                                // the same, the kill itself not counted
      bool hard_fired();                                      // a non-benign fault fired in the window
      uint64_t syscalls();
      struct Window                                           // faults only fire in here
      {
         Window(); ~Window();
      };
      size_t open_fds();
   }
}

// implemented by each workload
extern const char* const sim_property;
extern const char* const sim_rule;
extern void sim_run();

#endif
