// Deterministic simulator: choice sequence, run execution, search driver, minimiser, replay.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <new>
#include <unordered_map>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
namespace fs { void reset_all(); }
__attribute__((weak)) void engine_reset() {}   // thread engine: per-pass reset

namespace {

const uint32_t max_choices = 1u << 16;
const uint32_t max_spans   = 4096;
const uint64_t edge_budget = 400000000ull;

struct Counter { char name[56]; uint64_t n; };
struct Slot                                  // shared between a run's process and the driver
{
   uint32_t nchoices, nspans, ncounters, nontrivial;
   uint32_t choices[max_choices];
   uint32_t span_at[max_spans];
   char cls[160];
   char detail[4096];
   uint64_t digest, shape, edges, simtime, ops, faults, syscalls;
   uint32_t finished;
   Counter counters[192];
   uint8_t cov[1 << 16];
};

Slot* slot = nullptr;
bool  in_run = false;
bool  trace_on = false;
FILE* trace_fp = nullptr;
const uint32_t* replay = nullptr; size_t replay_n = 0;
uint64_t prng[2];
bool pass2 = false, pass2_wanted = false;
int64_t clock_us = 0;
uint64_t edges = 0;

// ---- allocator state ----------------------------------------------------------------------------
template <typename T> struct Mal
{
   typedef T value_type;
   Mal() {}
   template <typename U> Mal(const Mal<U>&) {}
   T* allocate(size_t n) { return static_cast<T*>(::malloc(n * sizeof(T))); }
   void deallocate(T* p, size_t) { ::free(p); }
   template <typename U> bool operator==(const Mal<U>&) const { return true; }
   template <typename U> bool operator!=(const Mal<U>&) const { return false; }
};
struct Blk { size_t n; char kind; };
typedef std::unordered_map<void*,Blk,std::hash<void*>,std::equal_to<void*>,Mal<std::pair<void* const,Blk>>> Live;
Live* live = nullptr;
bool win_on = false; uint64_t win_count = 0, win_largest = 0; uint32_t win_fail = 0, win_again = 0; bool win_fired = false;
unsigned char fill_byte = 0xA5;

void rng_seed(uint64_t a)
{
   Rng r(a); prng[0] = r.next(); prng[1] = r.next();
}
uint64_t rng_next()   // xoroshiro128+
{
   uint64_t a = prng[0], b = prng[1], res = a + b;
   b ^= a;
   prng[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
   prng[1] = (b << 37) | (b >> 27);
   return res;
}
void mix(uint64_t& h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }

void count(const char* name, const char* pre, uint64_t n)
{
   if (!slot) return;
   char full[56];
   snprintf(full,sizeof full,"%s%s",pre,name);
   for (uint32_t i = 0; i < slot->ncounters; ++i)
      if (0 == strcmp(slot->counters[i].name,full)) { slot->counters[i].n += n; return; }
   if (slot->ncounters < 192)
   {
      strcpy(slot->counters[slot->ncounters].name,full);
      slot->counters[slot->ncounters++].n = n;
   }
}
void put_trace(const char* b, size_t k)
{
   if (trace_on && trace_fp) { if (pass2) fputs("(second pass) ",trace_fp); fwrite(b,1,k,trace_fp); fputc('\n',trace_fp); fflush(trace_fp); }
}
void vtrace(const char* fmt, va_list ap)
{
   char b[3000];
   int n = vsnprintf(b,sizeof b,fmt,ap);
   size_t k = n < 0 ? 0 : size_t(n) < sizeof b ? size_t(n) : sizeof b - 1;
   if (slot && !pass2) mix(slot->digest,hash(b,k));
   put_trace(b,k);
}
} // namespace

uint64_t hash(const void* p, size_t n)
{
   const unsigned char* s = static_cast<const unsigned char*>(p);
   uint64_t h = 1469598103934665603ull;
   for (size_t i = 0; i < n; ++i) { h ^= s[i]; h *= 1099511628211ull; }
   return h ^ (h >> 29);
}
uint32_t draw(uint32_t n, const char* label)
{
   if (n <= 1) return 0;
   uint32_t v;
   Slot* s = slot;
   if (pass2)
   {  // second pass takes the choices of the first
      static_assert(sizeof(uint32_t) == 4,"");
   }
   if (replay)
   {
      uint32_t i = s->nchoices;
      v = i < replay_n ? replay[i] : 0;
      if (v >= n) v = n - 1;
   }
   else
      v = uint32_t((rng_next() >> 20) % n);
   if (s->nchoices < max_choices) s->choices[s->nchoices] = v;
   else violate("sim-internal","too many choices");
   s->nchoices++;
   (void)label;
   return v;
}
bool more(uint32_t avg, const char* label) { return draw(avg + 1,label) != 0; }

const uint32_t* g_dict = nullptr; size_t g_dict_n = 0;

size_t size_upto(size_t max, const char* label)
{
   if (!max) return 0;
   uint32_t mode = draw(8,label);
   size_t v = 0;
   switch (mode)
   {
      case 0 : v = draw(4,label); break;
      case 1 : v = draw(40,label); break;
      case 2 : v = draw(300,label); break;
      case 3 : { uint32_t e = draw(21,label); v = (size_t(1) << e) + draw(5,label); v = v >= 2 ? v - 2 : 0; break; }        // 2^e -2..+2
      case 4 : { static const uint32_t base[] = { 1024, 4096, 8191, 8192, 16384, 1023, 512, 16383, 65536 };
                 size_t b = base[draw(9,label)]; size_t m = 1 + draw(5,label); v = b * m + draw(7,label); v = v >= 3 ? v - 3 : 0; break; }
      case 5 : if (g_dict_n) { v = g_dict[draw(uint32_t(g_dict_n),label)] + draw(3,label); v = v ? v - 1 : 0; } else v = draw(1000,label); break;
      case 6 : v = draw(5000,label); break;
      default: v = draw(uint32_t(max < 200000 ? max : 200000) + 1,label); break;
   }
   return v > max ? (max ? v % (max + 1) : 0) : v;
}
uint64_t u64(const char* label)
{
   switch (draw(6,label))
   {
      case 0 : return draw(10,label);
      case 1 : { uint32_t e = draw(64,label); uint64_t v = 1ull << e; return v + draw(3,label) - 1; }
      case 2 : return draw(100000,label);
      case 3 : { uint64_t p = 1; for (uint32_t i = draw(20,label); i; --i) p *= 10; return p + draw(3,label) - 1; }
      case 4 : return ~uint64_t(0) - draw(4,label);
      default: { uint64_t h = draw(0xFFFFFFFFu,label); return (h << 32) | draw(0xFFFFFFFFu,label); }
   }
}
std::string bytes(size_t n, const char* label)
{
   NoFault nf;
   std::string s;
   uint32_t style = draw(5,label);
   uint32_t seed = n ? draw(0xFFFFFF,label) : 0;
   s.resize(n);
   Rng r(seed);
   for (size_t i = 0; i < n; ++i)
      switch (style)
      {
         case 0 : s[i] = char('a' + (i + seed) % 26); break;
         case 1 : s[i] = char(r.next()); break;
         case 2 : s[i] = "\n\r\0 ,a|\x7f\xff\x80"[r.below(10)]; break;
         case 3 : s[i] = char(seed); break;
         default: s[i] = char(' ' + r.below(95)); break;
      }
   return s;
}

void op_begin(const char* name)
{
   if (slot->nspans < max_spans && !pass2) slot->span_at[slot->nspans++] = slot->nchoices;
   if (!pass2) slot->ops++;
   shape(name);
   logf("op %s",name);
}
void op_end() {}
void logf(const char* fmt, ...) { NoFault nf; va_list ap; va_start(ap,fmt); vtrace(fmt,ap); va_end(ap); }
void log_data(const char* what, const std::string& s)
{
   NoFault nf;
   if (trace_on) { char b[600]; int n = snprintf(b,sizeof b,"%s (%zu bytes) = %s",what,s.size(),show(s,100).c_str()); put_trace(b,n < int(sizeof b) ? size_t(n) : sizeof b - 1); }
   if (slot && !pass2) { mix(slot->digest,hash(what,strlen(what))); mix(slot->digest,hash(s)); }
}
void probe(const char* name, uint64_t n) { if (!pass2) count(name,"",n); }
void fault_fired(const char* name) { if (!pass2) { count(name,"fault:",1); slot->faults++; } }
void mark_nontrivial() { slot->nontrivial = 1; }
void shape(uint64_t h) { if (!pass2) mix(slot->shape,h); }
void shape(const char* s) { shape(hash(s,strlen(s))); }
bool tracing() { return trace_on; }
bool second_pass() { return pass2; }
void want_second_pass() { pass2_wanted = true; }

std::string show(const std::string& s, size_t max)
{
   NoFault nf;
   std::string o = "\"";
   for (size_t i = 0; i < s.size() && i < max; ++i)
   {
      unsigned char c = static_cast<unsigned char>(s[i]);
      char b[8];
      if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
      else if (c < 32 || c > 126) { snprintf(b,sizeof b,"\\x%02x",c); o += b; }
      else o += char(c);
   }
   o += "\"";
   if (s.size() > max) o += "...";
   return o;
}

static void die_with(const char* cls, const char* detail)
{
   if (slot && !slot->cls[0])
   {
      snprintf(slot->cls,sizeof slot->cls,"%s",cls);
      snprintf(slot->detail,sizeof slot->detail,"%s",detail);
   }
   if (trace_on && trace_fp) { fprintf(trace_fp,"VIOLATION class=%s: %s\n",cls,detail); fflush(trace_fp); }
   if (slot) { slot->edges = edges; slot->finished = 1; }
   syscall(SYS_exit_group,77);
   __builtin_unreachable();
}
void violate(const char* cls, const char* fmt, ...)
{
   NoFault nf;
   char b[4000];
   va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
   die_with(cls,b);
   __builtin_unreachable();
}

int64_t now_us() { return clock_us; }
void clock_set(int64_t us) { clock_us = us; }
void clock_advance(int64_t us) { clock_us += us; if (us > 0 && slot && !pass2) slot->simtime += uint64_t(us); }

int simulator_depth = 0;
NoFault::NoFault() : saved(win_on) { win_on = false; ++simulator_depth; }
NoFault::~NoFault() { win_on = saved; --simulator_depth; }
AllocWindow::AllocWindow(uint32_t f) { win_count = win_largest = 0; win_fail = f; win_again = 0; win_fired = false; win_on = true; }
AllocWindow::AllocWindow(uint32_t f, uint32_t a) { win_count = win_largest = 0; win_fail = f; win_again = a; win_fired = false; win_on = true; }
AllocWindow::~AllocWindow() { win_on = false; }
bool AllocWindow::fired() const { return win_fired; }
uint64_t AllocWindow::allocations() const { return win_count; }
uint64_t AllocWindow::largest() const { return win_largest; }
uint32_t draw_alloc_fault(uint32_t limit, const char* label)
{
   switch (draw(4,label))
   {
      case 0 : return 0;
      case 1 : return 1 + draw(4,label);
      case 2 : return 1 + draw(12,label);
      default: return 1 + draw(limit,label);
   }
}
void alloc_pattern(unsigned char c) { fill_byte = c; }
size_t live_window_allocs()
{
   size_t n = 0;
   if (live) for (auto& b : *live) if (b.second.kind & 4) ++n;
   return n;
}

namespace threads { __attribute__((weak)) bool allocation_fails() { return false; } }
static void* sim_new(size_t n, char kind)
{
   if (in_run && threads::allocation_fails())
   {
      fault_fired("allocation fails (bad_alloc)"); mark_nontrivial();
      throw std::bad_alloc();
   }
   if (in_run && win_on)
   {
      ++win_count; if (n > win_largest) win_largest = n;
      bool fail = win_fail && (win_count == win_fail || (win_again && win_count > win_fail && 0 == (win_count - win_fail) % win_again));
      if (fail)
      {
         win_fired = true;
         bool w = win_on; win_on = false;
         fault_fired("allocation fails (bad_alloc)"); mark_nontrivial(); logf("fault allocation %llu fails",(unsigned long long)win_count);
         win_on = w;
         throw std::bad_alloc();
      }
   }
   if (n > (size_t(1) << 30)) throw std::bad_alloc();
   void* p = ::malloc(n ? n : 1);
   if (!p) throw std::bad_alloc();
   if (in_run)
   {
      memset(p,fill_byte,n < 65536 ? n : 65536);
      if (live) { Blk b = { n, char(kind | (win_on ? 4 : 0)) }; (*live)[p] = b; }
   }
   return p;
}
static void sim_delete(void* p, char kind)
{
   if (!p) return;
   if (in_run && live)
   {
      auto it = live->find(p);
      if (it != live->end())
      {
         if ((it->second.kind & 3) != kind) violate("alloc-dealloc-mismatch","memory allocated with operator new%s is released with operator delete%s",(it->second.kind & 2) ? "[]" : "",kind == 2 ? "[]" : "");
         live->erase(it);
      }
   }
   ::free(p);
}
} // namespace sim

void* operator new(size_t n) { return sim::sim_new(n,1); }
void* operator new[](size_t n) { return sim::sim_new(n,2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n,1); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n,2); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { sim::sim_delete(p,1); }
void operator delete[](void* p) noexcept { sim::sim_delete(p,2); }
void operator delete(void* p, size_t) noexcept { sim::sim_delete(p,1); }
void operator delete[](void* p, size_t) noexcept { sim::sim_delete(p,2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p,1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p,2); }

// ---- clock seam ----------------------------------------------------------------------------------
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
   if (!sim::in_run) { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
   int64_t t = sim::clock_us;
   tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000;
   return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
   if (!sim::in_run) return int(syscall(SYS_clock_gettime,id,ts));
   ts->tv_sec = sim::clock_us / 1000000; ts->tv_nsec = (sim::clock_us % 1000000) * 1000;
   return 0;
}
extern "C" time_t time(time_t* t) noexcept
{
   time_t v;
   if (!sim::in_run) { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_REALTIME,&ts); v = ts.tv_sec; }
   else v = sim::clock_us / 1000000;
   if (t) *t = v;
   return v;
}

// ---- deterministic step count and edge coverage (-fsanitize-coverage=trace-pc) --------------------
extern "C" void __sanitizer_cov_trace_pc()
{
   uint64_t pc = reinterpret_cast<uint64_t>(__builtin_return_address(0));
   if (sim::in_run)
   {
      sim::slot->cov[(pc ^ (pc >> 16)) & 0xFFFF] = 1;
      if (++sim::edges > sim::edge_budget) { sim::in_run = false; sim::die_with("hang","step budget exceeded: the library does not terminate"); }
   }
}
// ---- AddressSanitizer -----------------------------------------------------------------------------
extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error()
{
   if (!sim::slot) return;
   const char* d = __asan_get_report_description ? __asan_get_report_description() : "error";
   char cls[100]; snprintf(cls,sizeof cls,"memory-error:%s",d);
   if (sim::trace_on) { snprintf(sim::slot->cls,sizeof sim::slot->cls,"%s",cls); snprintf(sim::slot->detail,sizeof sim::slot->detail,"AddressSanitizer: %s",d); return; }
   sim::die_with(cls,d);
}
extern "C" const char* __asan_default_options()
{
   return "detect_leaks=0:symbolize=1:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
          "quarantine_size_mb=16:malloc_context_size=8:handle_abort=0:check_initialization_order=0:print_legend=0:max_malloc_fill_size=0";
}

namespace sim { namespace {

double wall() { struct timespec ts; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&ts); return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9; }

Slot* new_slot()
{
   void* p = mmap(nullptr,sizeof(Slot),PROT_READ | PROT_WRITE,MAP_SHARED | MAP_ANONYMOUS,-1,0);
   if (p == MAP_FAILED) { perror("mmap"); exit(2); }
   return static_cast<Slot*>(p);
}
void reset_slot(Slot* s)
{
   s->nchoices = s->nspans = s->nontrivial = 0; s->cls[0] = s->detail[0] = 0;
   s->digest = s->shape = s->edges = s->simtime = s->ops = s->faults = s->syscalls = 0; s->finished = 0;
}
void on_terminate()
{
   NoFault nf;
   const char* n = "unknown";
   if (std::type_info* t = abi::__cxa_current_exception_type()) n = t->name();
   char b[120]; snprintf(b,sizeof b,"std::terminate, exception type %s",n);
   die_with("terminate",b);
}
void on_signal(int sig)
{
   char b[40]; snprintf(b,sizeof b,"signal %d",sig);
   die_with(sig == SIGALRM ? "hang" : "crash",b);
}

void body()
{
   try { sim_run(); }
   catch (const std::exception& e)
   {
      NoFault nf; int st; char* n = abi::__cxa_demangle(typeid(e).name(),nullptr,nullptr,&st);
      violate("uncaught-exception","%s: %s",n ? n : "?",e.what());
   }
   catch (...) { NoFault nf; violate("uncaught-exception","unknown type"); }
}

void child_main()
{
   prctl(PR_SET_PDEATHSIG,SIGKILL);
   std::set_terminate(on_terminate);
   signal(SIGABRT,on_signal); signal(SIGFPE,on_signal); signal(SIGILL,on_signal); signal(SIGALRM,on_signal);
#if !defined(__SANITIZE_ADDRESS__)
   signal(SIGSEGV,on_signal); signal(SIGBUS,on_signal);
#endif
   alarm(150);
   live = new Live();
   clock_us = 1700000000ll * 1000000;
   in_run = true;
   pass2 = pass2_wanted = false;
   engine_reset();
   body();
   win_on = false;
   slot->edges = edges;
   if (pass2_wanted && live_window_allocs())
   {  // something allocated by the library is still alive; is it a leak (grows again) or a lazily built static?
      std::vector<uint32_t> c(slot->choices,slot->choices + slot->nchoices);
      uint32_t n = slot->nchoices;
      size_t before = live_window_allocs();
      pass2 = true; edges = 0;
      replay = c.data(); replay_n = c.size(); slot->nchoices = 0;
      fs::reset_all(); engine_reset();
      clock_us = 1700000000ll * 1000000;
      body();
      win_on = false;
      slot->nchoices = n; std::copy(c.begin(),c.end(),slot->choices);      // what the first pass drew is what a replay repeats
      size_t after = live_window_allocs();
      if (after > before) { size_t b = 0; for (auto& x : *live) if (x.second.kind & 4) b += x.second.n; violate("leak","library allocations are never released (%zu blocks after one history, %zu after repeating it, %zu bytes)",before,after,b); }
   }
   slot->finished = 1;
   syscall(SYS_exit_group,0);
}

} // namespace
void detach_slot()          // in a forked copy of a run: its records and draws are its own
{
   prctl(PR_SET_PDEATHSIG,SIGKILL);
   slot = new_slot(); trace_on = false; replay = nullptr; rng_seed(1); alarm(60);
}
namespace {
struct Result { std::string cls, detail; std::vector<uint32_t> choices, spans; uint64_t digest = 0; bool ok = true; };

// executes one run in a process of its own; result is in *s
void execute(Slot* s, const std::vector<uint32_t>* choices, uint64_t seed)
{
   reset_slot(s);
   fflush(stdout); fflush(stderr);
   pid_t p = fork();
   if (p < 0) { perror("fork"); exit(2); }
   if (0 == p)
   {
      slot = s;
      if (choices) { static uint32_t zero = 0; replay = choices->empty() ? &zero : choices->data(); replay_n = choices->size(); }
      else { replay = nullptr; rng_seed(seed); }
      if (!trace_on) { FILE* f = freopen("/dev/null","w",stderr); (void)f; }
      child_main();
      _exit(0);
   }
   int st = 0;
   while (waitpid(p,&st,0) < 0 && errno == EINTR) {}
   if (!s->finished && !s->cls[0])
   {
      snprintf(s->cls,sizeof s->cls,"crash");
      snprintf(s->detail,sizeof s->detail,"process ended by %s %d",WIFSIGNALED(st) ? "signal" : "exit status",WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
   }
}
Result result_of(Slot* s)
{
   Result r;
   r.cls = s->cls; r.detail = s->detail; r.digest = s->digest;
   r.choices.assign(s->choices,s->choices + std::min(s->nchoices,max_choices));
   r.spans.assign(s->span_at,s->span_at + s->nspans);
   return r;
}
Result run_choices(Slot* s, const std::vector<uint32_t>& c) { execute(s,&c,0); return result_of(s); }

// ---- minimiser --------------------------------------------------------------------------------
struct Minimiser
{
   Slot* s; std::string cls; Result best; double deadline; uint64_t tries = 0;
   static bool simpler(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b)
   {
      if (a.size() != b.size()) return a.size() < b.size();
      return a < b;
   }
   static void trim(std::vector<uint32_t>& c) { while (!c.empty() && !c.back()) c.pop_back(); }
   bool attempt(std::vector<uint32_t> c)
   {
      if (wall() > deadline) return false;
      trim(c);
      std::vector<uint32_t> cur = best.choices; trim(cur);
      if (c == cur) return false;
      ++tries;
      Result r = run_choices(s,c);
      if (r.cls != cls) return false;
      std::vector<uint32_t> rc = r.choices; trim(rc);
      if (!simpler(rc,cur)) return false;
      r.choices = rc; best = r;
      return true;
   }
   void run()
   {
      bool progress = true;
      int rounds = 0;
      while (progress && wall() < deadline && rounds++ < 12)
      {
         progress = false;
         // delete whole operations (choice spans)
         for (size_t i = best.spans.size(); i-- > 0 && wall() < deadline;)
         {
            if (i >= best.spans.size()) continue;
            size_t a = best.spans[i];
            for (size_t extra = 0; extra < 3; ++extra)      // a span may begin before/after its "more" choice
            {
               if (i >= best.spans.size()) break;
               size_t b = i + 1 < best.spans.size() ? best.spans[i + 1] : best.choices.size();
               a = best.spans[i];
               size_t lo = a >= extra ? a - extra : 0, hi = b >= extra ? b - extra : 0;
               if (hi > best.choices.size()) hi = best.choices.size();
               if (lo >= hi) continue;
               std::vector<uint32_t> c = best.choices;
               c.erase(c.begin() + long(lo),c.begin() + long(hi));
               if (attempt(c)) { progress = true; break; }
            }
         }
         // delete chunks
         for (size_t k = std::max<size_t>(1,best.choices.size() / 2); k >= 1 && wall() < deadline; k /= 2)
         {
            for (size_t i = best.choices.size(); i-- > 0 && wall() < deadline;)
            {
               if (k > 8 && i % k) continue;
               if (i >= best.choices.size()) continue;
               std::vector<uint32_t> c = best.choices;
               size_t e = std::min(c.size(),i + k);
               c.erase(c.begin() + long(i),c.begin() + long(e));
               if (attempt(c)) progress = true;
            }
            if (k > 1 && best.choices.size() > 400 && k < 4) break;
         }
         // zero chunks
         for (size_t k = std::max<size_t>(1,best.choices.size() / 2); k >= 1 && wall() < deadline; k /= 2)
            for (size_t i = 0; i < best.choices.size() && wall() < deadline; i += k)
            {
               std::vector<uint32_t> c = best.choices;
               bool any = false;
               for (size_t j = i; j < std::min(c.size(),i + k); ++j) { any |= c[j] != 0; c[j] = 0; }
               if (any && attempt(c)) progress = true;
            }
         // lower single choices
         for (size_t i = 0; i < best.choices.size() && wall() < deadline; ++i)
         {
            uint32_t lo = 0, hi = best.choices[i];
            if (!hi) continue;
            { std::vector<uint32_t> c = best.choices; c[i] = hi - 1; if (!attempt(c)) continue; progress = true; }
            if (i >= best.choices.size()) break;
            hi = best.choices[i];
            while (lo < hi && wall() < deadline)
            {
               uint32_t mid = lo + (hi - lo) / 2;
               std::vector<uint32_t> c = best.choices;
               if (i >= c.size()) break;
               c[i] = mid;
               if (attempt(c)) { if (i >= best.choices.size()) break; hi = best.choices[i]; } else lo = mid + 1;
            }
         }
      }
   }
};

std::string jstr(const std::string& s)
{
   std::string o = "\"";
   for (unsigned char c : s)
   {
      if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
      else if (c == '\n') o += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b,sizeof b,"\\u%04x",c); o += b; }
      else o += char(c);
   }
   return o + "\"";
}
void write_replay(const std::string& path, uint64_t seed, uint64_t run, const Result& r, const Result& orig, const std::string& trace)
{
   std::ofstream f(path.c_str());
   f << "# strtk deterministic simulation replay\n";
   f << "property " << sim_property << "\nseed " << seed << "\nrun " << run << "\nclass " << r.cls << "\ndigest " << r.digest << "\n";
   f << "detail " << jstr(r.detail) << "\n";
   f << "original-choices " << orig.choices.size() << "\nchoices " << r.choices.size();
   for (uint32_t c : r.choices) f << ' ' << c;
   f << "\n# minimised schedule and fault trace:\n" << trace;
}
bool read_replay(const char* path, std::vector<uint32_t>& c, std::string& cls, uint64_t& digest)
{
   std::ifstream f(path);
   std::string line; bool got = false;
   while (std::getline(f,line))
   {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "choices") { size_t n; is >> n; c.clear(); uint32_t v; while (is >> v) c.push_back(v); got = c.size() == n; }
      else if (k == "class") { cls = line.substr(6); }
      else if (k == "digest") is >> digest;
   }
   return got;
}

struct Agg
{
   uint64_t runs = 0, ops = 0, faults = 0, nontrivial = 0, simtime = 0, edges = 0, redo = 0, redo_bad = 0, choices = 0;
};
struct Found { uint64_t run; Result r; };

} // namespace
} // namespace sim

using namespace sim;

static void load_dict(const char* path)
{
   static std::vector<uint32_t> d;
   std::ifstream f(path);
   uint32_t v;
   while (f >> v) d.push_back(v);
   g_dict = d.data(); g_dict_n = d.size();
}

int main(int argc, char** argv)
{
   if (!getenv("SIM_NOASLR"))
   {
      setenv("SIM_NOASLR","1",1);
      if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe",argv);
   }
   std::map<std::string,std::string> a;
   std::string mode = argc > 1 ? argv[1] : "";
   std::string file = argc > 2 ? argv[2] : "";
   for (int i = 2; i + 1 < argc; ++i) if (argv[i][0] == '-' && argv[i][1] == '-') { a[argv[i] + 2] = argv[i + 1]; ++i; }
   if (a.count("dict")) load_dict(a["dict"].c_str());
   struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE,&rl);

   if (mode == "replay")
   {
      std::vector<uint32_t> c; std::string cls; uint64_t dg = 0;
      if (!read_replay(file.c_str(),c,cls,dg)) { fprintf(stderr,"cannot read %s\n",file.c_str()); return 2; }
      Slot* s = new_slot();
      if (a.count("trace")) { trace_on = true; trace_fp = a["trace"] == "-" ? stdout : fopen(a["trace"].c_str(),"w"); }
      Result r = run_choices(s,c);
      printf("replay: class=%s digest=%llu detail=%s\n",r.cls.empty() ? "none" : r.cls.c_str(),(unsigned long long)r.digest,jstr(r.detail).c_str());
      if (r.cls.empty()) return 0;
      return (r.cls == cls && (r.digest == dg || a.count("trace"))) ? 1 : 3;
   }
   if (mode == "one")     // one run by index, with a trace
   {
      uint64_t seed = strtoull(a["seed"].c_str(),nullptr,10), run = strtoull(a["run"].c_str(),nullptr,10);
      Slot* s = new_slot();
      trace_on = a.count("quiet") == 0; trace_fp = stdout;
      execute(s,nullptr,seed * 1000003ull + run * 2654435761ull + hash(sim_property,strlen(sim_property)));
      printf("class=%s detail=%s digest=%llu choices=%u edges=%llu\n",s->cls,s->detail,(unsigned long long)s->digest,s->nchoices,(unsigned long long)s->edges);
      return s->cls[0] ? 1 : 0;
   }
   if (mode != "explore") { fprintf(stderr,"usage: %s explore|replay|one ...\n",argv[0]); return 2; }

   const uint64_t seed = strtoull(a["seed"].c_str(),nullptr,10);
   const double budget = atof(a["budget"].c_str());
   const uint64_t max_runs = a.count("runs") ? strtoull(a["runs"].c_str(),nullptr,10) : ~0ull;
   const int workers = a.count("workers") ? atoi(a["workers"].c_str()) : 8;
   const std::string outdir = a.count("out") ? a["out"] : ".";
   const uint64_t base = seed * 1000003ull + hash(sim_property,strlen(sim_property));
   const double min_budget = a.count("minimise") ? atof(a["minimise"].c_str()) : 25;
   std::set<std::string> skip;   // classes listed as known findings
   { std::istringstream is(a["known"]); std::string k; while (std::getline(is,k,';')) if (!k.empty()) skip.insert(k); }

   struct WShared { Agg g; std::atomic<uint32_t> stop; std::atomic<uint64_t> next; };
   WShared* sh = static_cast<WShared*>(mmap(nullptr,sizeof(WShared) * size_t(workers + 1),PROT_READ | PROT_WRITE,MAP_SHARED | MAP_ANONYMOUS,-1,0));
   std::vector<Slot*> slots;
   for (int w = 0; w < workers; ++w) { slots.push_back(new_slot()); memset(slots.back()->cov,0,sizeof slots.back()->cov); slots.back()->ncounters = 0; }
   const double t0 = wall();
   std::vector<pid_t> pids;
   fflush(stdout);
   for (int w = 0; w < workers; ++w)
   {
      pid_t p = fork();
      if (0 == p)
      {
         prctl(PR_SET_PDEATHSIG,SIGKILL);
         Slot* s = slots[size_t(w)];
         Slot* s2 = new_slot();
         Agg& g = sh[w].g;
         std::unordered_set<uint64_t> shapes;
         std::map<std::string,int> seen;
         std::string dir = outdir + "/w" + std::to_string(w);
         FILE* vf = fopen((dir + ".viol").c_str(),"w");
         FILE* df = fopen((dir + ".digests").c_str(),"w");
         uint64_t mine = 0;
         for (;;)
         {
            if (wall() - t0 > budget || sh[workers].stop.load()) break;
            uint64_t i = sh[workers].next.fetch_add(1);
            if (i >= max_runs) break;
            uint64_t rs = base + i * 2654435761ull;
            execute(s,nullptr,rs);
            ++g.runs; g.ops += s->ops; g.faults += s->faults; g.simtime += s->simtime; g.edges += s->edges; g.choices += s->nchoices;
            if (s->nontrivial && s->ops) { if (shapes.insert(s->shape).second) ++g.nontrivial; }
            fprintf(df,"%llu %llu %u %llx\n",(unsigned long long)i,(unsigned long long)s->digest,s->nontrivial,(unsigned long long)s->shape);
            if (s->cls[0])
            {
               std::string cls = s->cls;
               if (seen[cls]++ < 3)
               {
                  fprintf(vf,"%llu\t%s\n",(unsigned long long)i,cls.c_str()); fflush(vf);
               }
               if (!skip.count(cls) && seen[cls] >= 3) sh[workers].stop.store(1);
            }
            if (0 == ++mine % 40)       // determinism sample: same choices again, in another process
            {
               Result r = result_of(s);
               execute(s2,&r.choices,0);
               ++g.redo;
               if (s2->digest != r.digest || r.cls != s2->cls) { ++g.redo_bad; fprintf(stderr,"nondeterministic run %llu (%s/%s)\n",(unsigned long long)i,r.cls.c_str(),s2->cls); }
            }
         }
         fclose(vf); fclose(df);
         _exit(0);
      }
      pids.push_back(p);
   }
   for (pid_t p : pids) { int st; waitpid(p,&st,0); }
   const double t1 = wall();
   Agg t; std::map<std::string,uint64_t> counters; std::vector<uint8_t> cov(1 << 16);
   for (int w = 0; w < workers; ++w)
   {
      Agg& g = sh[w].g;
      t.runs += g.runs; t.ops += g.ops; t.faults += g.faults; t.simtime += g.simtime; t.edges += g.edges; t.redo += g.redo; t.redo_bad += g.redo_bad; t.choices += g.choices;
      for (uint32_t i = 0; i < slots[size_t(w)]->ncounters; ++i) counters[slots[size_t(w)]->counters[i].name] += slots[size_t(w)]->counters[i].n;
      for (size_t i = 0; i < cov.size(); ++i) cov[i] = uint8_t(cov[i] | slots[size_t(w)]->cov[i]);
   }
   // merge distinct shapes and violations
   std::unordered_set<uint64_t> shapes; std::map<std::string,uint64_t> first; uint64_t order_digest = 0;
   std::map<uint64_t,uint64_t> digests;
   for (int w = 0; w < workers; ++w)
   {
      std::string dir = outdir + "/w" + std::to_string(w);
      { std::ifstream f((dir + ".viol").c_str()); std::string line;
        while (std::getline(f,line)) { size_t tab = line.find('\t'); uint64_t i = strtoull(line.c_str(),nullptr,10); std::string c = line.substr(tab + 1); if (!first.count(c) || first[c] > i) first[c] = i; } }
      { std::ifstream f((dir + ".digests").c_str()); std::string line;
        while (std::getline(f,line)) { unsigned long long i, d, sp; unsigned nt; if (4 == sscanf(line.c_str(),"%llu %llu %u %llx",&i,&d,&nt,&sp)) { digests[i] = d; if (nt) shapes.insert(sp); } } }
      unlink((dir + ".viol").c_str()); unlink((dir + ".digests").c_str());
   }
   for (auto& d : digests) { order_digest ^= hash(&d.second,8) * (d.first + 1); }
   size_t edges_hit = 0; for (uint8_t c : cov) edges_hit += c;

   int rc = 0;
   std::ostringstream vjson;
   size_t nviol = 0;
   std::string gate_error;
   for (auto& v : first)
   {
      Slot* s = new_slot();
      execute(s,nullptr,base + v.second * 2654435761ull);
      Result orig = result_of(s);
      if (orig.cls != v.first) { gate_error += "run " + std::to_string(v.second) + " did not reproduce " + v.first + "; "; continue; }
      Result again = run_choices(s,orig.choices);
      if (again.cls != orig.cls || again.digest != orig.digest) { gate_error += "run " + std::to_string(v.second) + " is not repeatable (" + v.first + "); "; continue; }
      Minimiser m; m.s = s; m.cls = orig.cls; m.best = orig; m.deadline = wall() + (nviol < 4 ? min_budget : 0);
      m.run();
      std::string path = outdir + "/" + std::string(sim_property) + "-" + std::to_string(nviol) + ".replay";
      // final: the minimised choices, with a trace
      Result fin = run_choices(s,m.best.choices);
      if (fin.cls != orig.cls) { m.best = orig; fin = again; }
      std::string tf = path + ".trace";
      { trace_on = true; trace_fp = fopen(tf.c_str(),"w"); int keep = dup(2); FILE* e = freopen((tf + ".err").c_str(),"w",stderr); (void)e;
        Result tr = run_choices(s,m.best.choices); (void)tr; fclose(trace_fp); trace_on = false; fflush(stderr); dup2(keep,2); close(keep); }
      std::string trace; { std::ifstream f(tf.c_str()); std::stringstream ss; ss << f.rdbuf(); trace = ss.str(); }
      { std::ifstream f((tf + ".err").c_str()); std::stringstream ss; ss << f.rdbuf(); if (!ss.str().empty()) trace += "# sanitizer report:\n" + ss.str(); }
      unlink(tf.c_str()); unlink((tf + ".err").c_str());
      Result out = fin; out.choices = m.best.choices;
      write_replay(path,seed,v.second,out,orig,trace);
      // fresh-process replay gate
      pid_t p = fork();
      if (0 == p) { int dn = 1; (void)dn; FILE* f = freopen("/dev/null","w",stdout); (void)f; std::string dict = a["dict"]; execl("/proc/self/exe",argv[0],"replay",path.c_str(),"--dict",dict.c_str(),(char*)nullptr); _exit(9); }
      int st = 0; waitpid(p,&st,0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { gate_error += "fresh-process replay of " + path + " does not reproduce " + v.first + "; "; continue; }
      vjson << (nviol ? "," : "") << "{\"class\":" << jstr(v.first) << ",\"run\":" << v.second << ",\"detail\":" << jstr(fin.detail)
            << ",\"replay\":" << jstr(path) << ",\"choices\":" << m.best.choices.size() << ",\"original_choices\":" << orig.choices.size()
            << ",\"minimiser_tries\":" << m.tries << "}";
      ++nviol;
      rc = 1;
      munmap(s,sizeof(Slot));
   }
   // samples: traces of three runs
   std::ostringstream samples;
   {
      Slot* s = new_slot(); int ns = 0;
      for (uint64_t i = 0; i < t.runs && i < 60 && ns < 3; ++i)
      {
         std::string tf = outdir + "/sample.trace";
         trace_on = true; trace_fp = fopen(tf.c_str(),"w");
         int keep = dup(2); FILE* e = freopen("/dev/null","w",stderr); (void)e;
         execute(s,nullptr,base + i * 2654435761ull);
         fflush(stderr); dup2(keep,2); close(keep);
         fclose(trace_fp); trace_on = false;
         if (s->nontrivial && s->ops)
         {
            std::ifstream f(tf.c_str()); std::stringstream ss; ss << f.rdbuf();
            std::string tr = ss.str(); if (tr.size() > 1500) tr = tr.substr(0,1500) + "...";
            samples << (ns ? "," : "") << "{\"run\":" << i << ",\"trace\":" << jstr(tr) << "}"; ++ns;
         }
         unlink(tf.c_str());
      }
   }
   std::ofstream o((outdir + "/stats.json").c_str());
   o << "{\"runs\":" << t.runs << ",\"ops\":" << t.ops << ",\"faults\":" << t.faults << ",\"distinct_nontrivial\":" << shapes.size()
     << ",\"sim_us\":" << t.simtime << ",\"steps\":" << t.edges << ",\"choices\":" << t.choices << ",\"code_edges\":" << edges_hit << ",\"determinism_reruns\":" << t.redo
     << ",\"determinism_mismatches\":" << t.redo_bad << ",\"digest\":" << order_digest << ",\"search_s\":" << (t1 - t0) << ",\"workers\":" << workers
     << ",\"rule\":" << jstr(sim_rule) << ",\"gate_error\":" << jstr(gate_error) << ",\"violations\":[" << vjson.str() << "],\"samples\":[" << samples.str() << "],\"counters\":{";
   bool c1 = false;
   for (auto& c : counters) { o << (c1 ? "," : "") << jstr(c.first) << ":" << c.second; c1 = true; }
   o << "}}\n";
   o.close();
   if (!gate_error.empty() && rc == 0) { fprintf(stderr,"gate: %s\n",gate_error.c_str()); return 2; }
   if (t.redo_bad && rc == 0) return 2;
   return rc;
}
