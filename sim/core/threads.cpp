// Thread engine.  The workload is compiled with -fsanitize=thread, but linked against the functions
// below instead of the TSan runtime: every memory access, atomic operation and function entry/exit
// of the library is a point at which the seeded schedule may hand the processor to another thread.
// The threads are real POSIX threads; exactly one runs at a time (baton passing).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include "threads.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <cstring>
#include <cerrno>
#include <climits>
#include <clocale>
#include <ctime>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace sim
{
// provided by sim.cpp for the process that computes isolated results
void detach_slot();
extern int simulator_depth;

namespace threads { namespace {

struct Thread
{
   pthread_t tid; int futex = 0; bool finished = false; bool may_exit = false; int exit_futex = 0;
   const std::function<void()>* body = nullptr;
   uint32_t fail_at = 0, allocations = 0; bool faulted = false;
};
const int max_threads = 8;
Thread th[max_threads];
int nthreads = 0, current = -1, main_futex = 0;
__thread int me = -1;
bool active = false;                 // threads are running under the schedule
// schedule
const Plan* plan = nullptr;
uint64_t passed = 0, quantum = 0, nswitch = 0, shared_hits = 0, stalled = 0;
std::vector<uint64_t> changes;       // policy_points: numbers of the points at which to switch
size_t next_change = 0;
uint32_t switch_limit = 1500;
// recording (isolated runs)
bool recording = false;
struct Region { uintptr_t lo, hi; };
Region regions[1];                   // the program's static data: addresses in the heap differ between equal runs
uint8_t* marks[1];                   // one byte per granule: 1 accessed, 2 written
uint64_t rec_points = 0;
bool busy = false;                   // inside the engine: its own accesses are no points

void fwait(int* f) { while (__atomic_load_n(f,__ATOMIC_ACQUIRE) == 0) syscall(SYS_futex,f,FUTEX_WAIT,0,nullptr,nullptr,0); __atomic_store_n(f,0,__ATOMIC_RELEASE); }
void fwake(int* f) { __atomic_store_n(f,1,__ATOMIC_RELEASE); syscall(SYS_futex,f,FUTEX_WAKE,1,nullptr,nullptr,0); }

uint64_t draw_quantum()
{
   switch (plan->policy)
   {
      case policy_quanta : return 1 + draw(40,"quantum");
      case policy_power  : { uint32_t e = draw(15,"quantum-2^"); return (1u << e) + draw(1u << e,"quantum"); }
      case policy_mixed  : return 1 + draw(4000,"quantum");
      default            : return UINT64_MAX;
   }
}
int pick_other()
{
   int ready[max_threads], n = 0;
   for (int i = 0; i < nthreads; ++i) if (i != current && !th[i].finished) ready[n++] = i;
   if (!n) return -1;
   return ready[draw(uint32_t(n),"next-thread")];
}
void hand_to(int t)
{
   const int from = current;
   const int e = errno;
   busy = false;
   current = t;
   fwake(&th[t].futex);
   if (from >= 0 && !th[from].finished) fwait(&th[from].futex);
   errno = e;
}
void do_switch(const char* why)
{
   const int t = pick_other();
   if (t < 0) return;
   ++nswitch;
   fault_fired(why);
   shape((uint64_t(current) << 40) ^ (uint64_t(t) << 32) ^ passed);
   logf("switch %d -> %d at point %llu (%s)",current,t,(unsigned long long)passed,why);
   hand_to(t);
}
inline bool sharedaddr(uintptr_t a)
{
   return std::binary_search(plan->shared.begin(),plan->shared.end(),uint64_t(a >> 3));
}
inline bool sharedrange(uintptr_t a, size_t n)
{
   const auto i = std::lower_bound(plan->shared.begin(),plan->shared.end(),uint64_t(a >> 3));
   return i != plan->shared.end() && *i <= uint64_t((a + n - 1) >> 3);
}
inline void record(uintptr_t a, size_t n, bool write)
{
   for (int r = 0; r < 1; ++r)
      if (a >= regions[r].lo && a < regions[r].hi)
         for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3 && (g << 3) < regions[r].hi; ++g)
         {
            const size_t i = size_t(g - (regions[r].lo >> 3));
            marks[r][i] = uint8_t(marks[r][i] | 1 | (write ? 2 : 0));
         }
}
// Unsynchronised sharing: vector clocks of the threads, and for every byte of static data who used it last.
// Two calls on separate data that use the same byte, at least one of them writing it, with no atomic, lock or
// one-time initialisation ordering the two, are a data race whatever the schedule makes of it.
struct Clock { uint32_t c[max_threads]; };
struct Byte { uint32_t write_clock; uint8_t writer; uint32_t read_clock[max_threads]; };     // writer: thread number + 1
struct Sync { uintptr_t a; Clock vc; };
const size_t sync_slots = 1 << 12;
Clock clocks[max_threads];
Byte* bytes = nullptr; Sync* syncs = nullptr;
template <typename T> T* pages(T* old, size_t n)
{
   if (old) munmap(old,n * sizeof(T));
   void* const m = mmap(nullptr,n * sizeof(T),PROT_READ | PROT_WRITE,MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,-1,0);
   if (m == MAP_FAILED) violate("sim-internal","mmap");
   return static_cast<T*>(m);
}
void clocks_reset()
{
   regions[0].lo = reinterpret_cast<uintptr_t>(&__data_start) & ~uintptr_t(7); regions[0].hi = reinterpret_cast<uintptr_t>(&_end);
   bytes = pages(bytes,regions[0].hi - regions[0].lo); syncs = pages(syncs,sync_slots);
   memset(clocks,0,sizeof clocks);
   for (int i = 0; i < max_threads; ++i) clocks[i].c[i] = 1;
}
Sync* sync_of(uintptr_t a)
{
   size_t i = size_t((a * 0x9E3779B97F4A7C15ull) >> 52) % sync_slots;
   for (size_t k = 0; k < sync_slots; ++k, i = (i + 1) % sync_slots) if (syncs[i].a == a || !syncs[i].a) { syncs[i].a = a; return &syncs[i]; }
   return nullptr;
}
bool clocked() { return active && me >= 0 && !simulator_depth && bytes; }
void acquires(uintptr_t a) { if (!clocked()) return; if (Sync* s = sync_of(a)) for (int i = 0; i < max_threads; ++i) clocks[me].c[i] = std::max(clocks[me].c[i],s->vc.c[i]); }
void releases(uintptr_t a) { if (!clocked()) return; if (Sync* s = sync_of(a)) { for (int i = 0; i < max_threads; ++i) s->vc.c[i] = std::max(s->vc.c[i],clocks[me].c[i]); ++clocks[me].c[me]; } }
bool static_data(uintptr_t a) { return a >= regions[0].lo && a < regions[0].hi; }
std::string name_of(uintptr_t a)
{
   Dl_info di;
   if (!dladdr(reinterpret_cast<void*>(a),&di) || !di.dli_sname) return "static data";
   int st = 0; char* const d = abi::__cxa_demangle(di.dli_sname,nullptr,nullptr,&st);
   const std::string r = d ? d : di.dli_sname; free(d); return r;
}
void raced(uintptr_t a, int other, const char* here, const char* there)
{
   std::string n; { NoFault nf; n = name_of(a); }
   violate("unsynchronised","thread %d %s memory that thread %d %s, and nothing orders the two: %s",me,here,other,there,n.c_str());
}
void used(uintptr_t a, size_t n, bool write)
{
   Clock& my = clocks[me];
   for (uintptr_t p = std::max(a,regions[0].lo); p < std::min(a + n,regions[0].hi); ++p)
   {
      Byte& b = bytes[p - regions[0].lo];
      if (b.writer && b.writer - 1 != me && b.write_clock > my.c[b.writer - 1]) raced(p,b.writer - 1,write ? "writes" : "reads","wrote");
      if (!write) { b.read_clock[me] = my.c[me]; continue; }
      for (int i = 0; i < nthreads; ++i) if (i != me && b.read_clock[i] > my.c[i]) raced(p,i,"writes","read");
      b.writer = uint8_t(me + 1); b.write_clock = my.c[me];
   }
}
void point(uintptr_t a, size_t n, bool write, bool plain = true)
{
   if (recording) { ++rec_points; if (n) record(a,n,write); return; }
   if (!active || me < 0 || busy || simulator_depth) return;
   busy = true;
   ++passed;
   const char* why = nullptr;
   if (n && plain && a < regions[0].hi && a + n > regions[0].lo) used(a,n,write);
   if (nswitch >= switch_limit) {}
   else if (n && !plan->shared.empty() && (plan->policy == policy_shared || plan->policy == policy_mixed || plan->policy == policy_quanta) && (n <= 8 ? sharedaddr(a) : sharedrange(a,n)))
   {
      ++shared_hits;
      if (draw(shared_hits < 400 ? 3 : 16,"switch-at-shared") == 1) why = "thread switch at memory another call writes";
   }
   if (!why && nswitch < switch_limit)
   {
      if (plan->policy == policy_points)
      {
         if (next_change < changes.size() && passed >= changes[next_change]) { while (next_change < changes.size() && passed >= changes[next_change]) ++next_change; why = "thread switch at a drawn point"; }
      }
      else if (quantum != UINT64_MAX && --quantum == 0) { why = "thread switch after a drawn quantum"; quantum = draw_quantum(); }
   }
   if (why) do_switch(why);
   busy = false;
}
void* thread_main(void* p)
{
   const int id = int(reinterpret_cast<intptr_t>(p));
   fwait(&th[id].futex);
   me = id;
   (*th[id].body)();
   me = -1;
   th[id].finished = true;
   int next = -1;
   { int ready[max_threads], n = 0; for (int i = 0; i < nthreads; ++i) if (!th[i].finished) ready[n++] = i; if (n) next = ready[draw(uint32_t(n),"next-thread")]; }
   logf("thread %d finished at point %llu",id,(unsigned long long)passed);
   if (next >= 0) { current = next; fwake(&th[next].futex); }
   else { current = -1; fwake(&main_futex); }
   fwait(&th[id].exit_futex);           // thread teardown (free of its caches) in a fixed order
   return nullptr;
}
// gives the processor away because the thread cannot go on
void stall(const char* what)
{
   if (!active || me < 0) { sched_yield(); return; }
   if (++stalled > 200000) violate("deadlock","no thread can go on: %s",what);
   int ready = 0; for (int i = 0; i < nthreads; ++i) if (i != current && !th[i].finished) ++ready;
   if (!ready) violate("deadlock","the last thread waits for %s",what);
   fault_fired("thread waits for another");
   // round robin: everybody gets a chance
   int t = current; do t = (t + 1) % nthreads; while (th[t].finished);
   ++nswitch; shape(uint64_t(t) + 77);
   hand_to(t);
}
struct Shm { uint64_t n, points; uint32_t done; };
} // namespace

uint64_t switches() { return nswitch; }
int id() { return me; }
void arm_allocation_failure(uint32_t at) { if (me < 0) return; th[me].fail_at = at; th[me].allocations = 0; th[me].faulted = false; }
bool allocation_fails()
{
   point(0,0,false);
   if (!active || me < 0 || simulator_depth || !th[me].fail_at || ++th[me].allocations != th[me].fail_at) return false;
   th[me].faulted = true;
   return true;
}
void note_fault() { if (active && me >= 0) th[me].faulted = true; }
bool faulted() { return me >= 0 && th[me].faulted; }
void touch(const void* p, size_t n, bool write) { if (n) point(reinterpret_cast<uintptr_t>(p),n,write); }
void preempt_point()
{
   if (recording) { ++rec_points; return; }
   if (!active || me < 0 || busy || simulator_depth) return;
   if (plan->policy == policy_serial || nswitch >= switch_limit) { ++passed; return; }
   ++passed;
   if (plan->policy == policy_points ? draw(12,"switch-at-system-call") == 1 : draw(3,"switch-at-system-call") == 1) do_switch("thread switch at a system call");
}

void run(const std::vector<std::function<void()>>& bodies, const Plan& p)
{
   plan = &p; nthreads = int(bodies.size()); passed = nswitch = shared_hits = stalled = 0; next_change = 0; changes.clear(); busy = false;
   if (p.policy == policy_points)
   {
      const uint32_t n = 1 + draw(6,"change-points");
      for (uint32_t i = 0; i < n; ++i) changes.push_back(1 + draw(uint32_t(std::min<uint64_t>(p.points + 1,0x7FFFFFFF)),"change-at"));
      std::sort(changes.begin(),changes.end());
   }
   quantum = draw_quantum();
   for (int i = 0; i < nthreads; ++i)
   {
      th[i] = Thread(); th[i].body = &bodies[size_t(i)];
      pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1 << 20);
      if (pthread_create(&th[i].tid,&at,thread_main,reinterpret_cast<void*>(intptr_t(i)))) violate("sim-internal","pthread_create");
      pthread_attr_destroy(&at);
   }
   main_futex = 0;
   clocks_reset();
   active = true;
   current = int(draw(uint32_t(nthreads),"first-thread"));
   fwake(&th[current].futex);
   fwait(&main_futex);
   active = false;
   for (int i = 0; i < nthreads; ++i) { fwake(&th[i].exit_futex); pthread_join(th[i].tid,nullptr); }
   probe("thread switches",nswitch); probe("instrumented points passed",passed); probe("accesses to memory another call writes",shared_hits);
}

bool isolated(const std::function<std::string()>& fn, std::string& result, Footprint& fp)
{
   const size_t cap = 1 << 24;
   regions[0].lo = reinterpret_cast<uintptr_t>(&__data_start) & ~uintptr_t(7); regions[0].hi = reinterpret_cast<uintptr_t>(&_end);
   const size_t g0 = (regions[0].hi - regions[0].lo) / 8 + 2;
   const size_t total = sizeof(Shm) + cap + g0;
   uint8_t* m = static_cast<uint8_t*>(mmap(nullptr,total,PROT_READ | PROT_WRITE,MAP_SHARED | MAP_ANONYMOUS,-1,0));
   if (m == MAP_FAILED) violate("sim-internal","mmap");
   Shm* s = reinterpret_cast<Shm*>(m);
   char* out = reinterpret_cast<char*>(m + sizeof(Shm));
   marks[0] = m + sizeof(Shm) + cap;
   const pid_t pid = fork();
   if (pid < 0) violate("sim-internal","fork");
   if (pid == 0)
   {
      detach_slot();
      recording = true;
      std::string r = fn();
      recording = false;
      s->n = std::min(r.size(),cap); memcpy(out,r.data(),size_t(s->n)); s->points = rec_points; s->done = 1;
      syscall(SYS_exit_group,0);
   }
   int st = 0; while (waitpid(pid,&st,0) < 0 && errno == EINTR) {}
   const bool ok = s->done == 1;
   if (ok)
   {
      result.assign(out,size_t(s->n)); fp.points = s->points;
      for (int r = 0; r < 1; ++r)
      {
         const size_t n = g0;
         for (size_t i = 0; i < n; ++i)
            if (marks[r][i]) { const uint64_t g = (regions[r].lo >> 3) + i; fp.accessed.push_back(g); if (marks[r][i] & 2) fp.written.push_back(g); }
      }
   }
   munmap(m,total);
   return ok;
}
} // namespace threads

void engine_reset()
{
   mallopt(M_ARENA_MAX,1); mallopt(M_MMAP_THRESHOLD,64 << 20);
}
} // namespace sim

using sim::threads::point;
#define A(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { point(0,0,false); }
void __tsan_func_exit() { point(0,0,false); }
#define RW(n) \
void __tsan_read##n(void* p) { point(A(p),n,false); } \
void __tsan_write##n(void* p) { point(A(p),n,true); } \
void __tsan_unaligned_read##n(void* p) { point(A(p),n,false); } \
void __tsan_unaligned_write##n(void* p) { point(A(p),n,true); } \
void __tsan_volatile_read##n(void* p) { point(A(p),n,false); } \
void __tsan_volatile_write##n(void* p) { point(A(p),n,true); } \
void __tsan_unaligned_volatile_read##n(void* p) { point(A(p),n,false); } \
void __tsan_unaligned_volatile_write##n(void* p) { point(A(p),n,true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { point(A(p),n,false); }
void __tsan_write_range(void* p, size_t n) { point(A(p),n,true); }
void __tsan_vptr_update(void** p, void*) { point(A(p),8,true); }
void __tsan_vptr_read(void** p) { point(A(p),8,false); }
// An atomic operation orders what comes before it in one thread and after it in another.  Counting references of
// an object in the heap (locales, regular expressions) is not meant to protect anything in static data.
static void ordering(uintptr_t a, size_t n, bool write, bool everywhere)
{
   point(a,n,write,false);
   if (everywhere || sim::threads::static_data(a)) { sim::threads::acquires(a); sim::threads::releases(a); }
}
#define ATOMIC(b,T) \
T __tsan_atomic##b##_load(const volatile T* a, int) { ordering(A(a),sizeof(T),false,true); return __atomic_load_n(a,__ATOMIC_SEQ_CST); } \
void __tsan_atomic##b##_store(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,true); __atomic_store_n(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,true); return __atomic_exchange_n(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,false); return __atomic_fetch_add(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,false); return __atomic_fetch_sub(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,true); return __atomic_fetch_and(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,true); return __atomic_fetch_or(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,true); return __atomic_fetch_xor(a,v,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { ordering(A(a),sizeof(T),true,true); return __atomic_fetch_nand(a,v,__ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { ordering(A(a),sizeof(T),true,true); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { ordering(A(a),sizeof(T),true,true); return __atomic_compare_exchange_n(a,c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { ordering(A(a),sizeof(T),true,true); __atomic_compare_exchange_n(a,&c,v,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return c; }
ATOMIC(8,unsigned char) ATOMIC(16,unsigned short) ATOMIC(32,unsigned int) ATOMIC(64,unsigned long)
void __tsan_atomic_thread_fence(int) { point(0,0,false); }
void __tsan_atomic_signal_fence(int) {}

// ---- what threads wait for ------------------------------------------------------------------------
// function-local statics: byte 0 done, byte 1 being initialised
int __cxa_guard_acquire(volatile unsigned char* g)
{
   for (;;)
   {
      point(A(g),8,true,false);
      sim::threads::acquires(A(g));
      if (g[0]) return 0;
      if (!g[1]) { g[1] = 1; return 1; }
      sim::threads::stall("a static being initialised");
   }
}
void __cxa_guard_release(volatile unsigned char* g) { sim::threads::releases(A(g)); g[1] = 0; g[0] = 1; point(A(g),8,true,false); }
void __cxa_guard_abort(volatile unsigned char* g) { sim::threads::releases(A(g)); g[1] = 0; point(A(g),8,true,false); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
   for (;;)
   {
      const int e = pthread_mutex_trylock(m);
      if (e != EBUSY) { sim::threads::acquires(A(m)); return e; }
      sim::threads::stall("a mutex");
   }
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
   static int (*real)(pthread_mutex_t*) = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT,"pthread_mutex_unlock"));
   sim::threads::releases(A(m));
   return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { for (;;) { const int e = pthread_rwlock_tryrdlock(m); if (e != EBUSY) { sim::threads::acquires(A(m)); return e; } sim::threads::stall("a lock"); } }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { for (;;) { const int e = pthread_rwlock_trywrlock(m); if (e != EBUSY) { sim::threads::acquires(A(m)); return e; } sim::threads::stall("a lock"); } }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
   static int (*real)(pthread_rwlock_t*) = reinterpret_cast<int (*)(pthread_rwlock_t*)>(dlsym(RTLD_NEXT,"pthread_rwlock_unlock"));
   sim::threads::releases(A(m));
   return real(m);
}
int pthread_once(pthread_once_t* o, void (*f)())
{
   volatile int* v = reinterpret_cast<volatile int*>(o);
   for (;;)
   {
      if (*v == 2) { sim::threads::acquires(A(o)); return 0; }
      if (*v == 0)
      {
         *v = 1;
         try { f(); } catch (...) { *v = 0; throw; }
         sim::threads::releases(A(o)); *v = 2; return 0;
      }
      sim::threads::stall("a one-time initialisation");
   }
}

// ---- block operations, also those of the C++ library on behalf of the code under test ------------------
typedef void* (*copy_fn)(void*, const void*, size_t);
static copy_fn real_memcpy, real_memmove; static void* (*real_memset)(void*, int, size_t); static int (*real_memcmp)(const void*, const void*, size_t);
__attribute__((constructor(101))) static void find_real()
{
   real_memmove = reinterpret_cast<copy_fn>(dlsym(RTLD_NEXT,"memmove"));
   real_memset = reinterpret_cast<void* (*)(void*, int, size_t)>(dlsym(RTLD_NEXT,"memset"));
   real_memcmp = reinterpret_cast<int (*)(const void*, const void*, size_t)>(dlsym(RTLD_NEXT,"memcmp"));
   real_memcpy = reinterpret_cast<copy_fn>(dlsym(RTLD_NEXT,"memcpy"));
}
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept
{
   if (!real_memcpy) { volatile char* o = static_cast<char*>(d); const volatile char* i = static_cast<const char*>(s); while (n--) *o++ = *i++; return d; }
   if (n) { point(A(s),n,false); point(A(d),n,true); }
   return real_memcpy(d,s,n);
}
void* memmove(void* d, const void* s, size_t n) noexcept
{
   if (!real_memcpy) { volatile char* o = static_cast<char*>(d); const volatile char* i = static_cast<const char*>(s); if (o < i) while (n--) *o++ = *i++; else while (n--) o[n] = i[n]; return d; }
   if (n) { point(A(s),n,false); point(A(d),n,true); }
   return real_memmove(d,s,n);
}
void* memset(void* d, int c, size_t n) noexcept
{
   if (!real_memcpy) { volatile char* o = static_cast<char*>(d); while (n--) *o++ = char(c); return d; }
   if (n) point(A(d),n,true);
   return real_memset(d,c,n);
}
int memcmp(const void* a, const void* b, size_t n) noexcept
{
   if (!real_memcpy) { const volatile unsigned char* x = static_cast<const unsigned char*>(a); const volatile unsigned char* y = static_cast<const unsigned char*>(b); for (; n; --n, ++x, ++y) if (*x != *y) return int(*x) - int(*y); return 0; }
   if (n) { point(A(a),n,false); point(A(b),n,false); }
   return real_memcmp(a,b,n);
}
// ---- C library functions with state of the whole process: memory that every call writes ---------------
#define HIDDEN(R,name,params,args) \
static unsigned long hidden_##name##_state; \
R name params noexcept { static R (*real) params = reinterpret_cast<R (*) params>(dlsym(RTLD_NEXT,#name)); point(A(&hidden_##name##_state),8,true,false); return real args; }
#define HIDDEN_AS(R,name,params,args,of) \
R name params noexcept { static R (*real) params = reinterpret_cast<R (*) params>(dlsym(RTLD_NEXT,#name)); point(A(&hidden_##of##_state),8,true,false); return real args; }
HIDDEN(int,rand,(void),()) HIDDEN_AS(void,srand,(unsigned s),(s),rand)
HIDDEN_AS(long,random,(void),(),rand) HIDDEN_AS(void,srandom,(unsigned s),(s),rand)
HIDDEN(double,drand48,(void),()) HIDDEN_AS(long,lrand48,(void),(),drand48) HIDDEN_AS(long,mrand48,(void),(),drand48) HIDDEN_AS(void,srand48,(long s),(s),drand48)
HIDDEN(char*,strtok,(char* s, const char* d),(s,d))
HIDDEN(tm*,localtime,(const time_t* t),(t)) HIDDEN_AS(tm*,gmtime,(const time_t* t),(t),localtime)
HIDDEN(char*,asctime,(const tm* t),(t)) HIDDEN_AS(char*,ctime,(const time_t* t),(t),asctime)
HIDDEN(char*,setlocale,(int c, const char* l),(c,l))
HIDDEN(char*,getenv,(const char* n),(n)) HIDDEN_AS(int,setenv,(const char* n, const char* v, int o),(n,v,o),getenv)
}
