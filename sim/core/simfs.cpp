// Simulated disk.  libstdc++'s file streams and C stdio reach the disk through the libc symbols
// defined here; paths below /sim/ live in memory, everything else is forwarded to the kernel.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include "threads.hpp"
#include <map>
#include <memory>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>

namespace sim {
namespace threads { __attribute__((weak)) void preempt_point() {} __attribute__((weak)) void note_fault() {} __attribute__((weak)) void touch(const void*, size_t, bool) {} struct After { ~After() { preempt_point(); } }; }
namespace fs { namespace {

struct Inode
{
   std::string data;
   bool unreadable = false;
   std::vector<std::string> versions;
};
typedef std::shared_ptr<Inode> InodeP;
struct OpenFile { InodeP ino; std::string path; int64_t pos = 0; int flags = 0; FILE* fp = nullptr; bool used = false; };

struct State
{
   std::map<std::string,InodeP> files;
   std::vector<OpenFile> fds;
   Profile prof = {0,8};
   int window = 0;
   bool is_killed = false, hard = false, full = false, hard_at_kill = false;
   uint64_t nsys = 0;
   std::string race_path;
};
State& st() { static State* s = new State; return *s; }
const int fd_base = 100000;
const uint64_t syscall_budget = 400000;

bool is_sim(const char* p) { return p && 0 == std::strncmp(p,"/sim/",5); }
OpenFile* of(int fd)
{
   State& s = st();
   if (fd < fd_base || size_t(fd - fd_base) >= s.fds.size() || !s.fds[fd - fd_base].used) return nullptr;
   return &s.fds[fd - fd_base];
}
void record_version(Inode& i)
{
   if (st().window && (i.versions.empty() || i.versions.back() != i.data)) i.versions.push_back(i.data);
}
void fired(const char* name, bool hard)
{
   fault_fired(name); mark_nontrivial(); shape(name);
   logf("fault %s",name);
   if (hard) { st().hard = true; threads::note_fault(); }
}
bool roll(uint32_t bit, const char* label, uint32_t scale = 1)
{
   State& s = st();
   if (!s.window || s.is_killed || !(s.prof.mask & bit)) return false;
   return one_in(s.prof.rate * scale,label);
}
void do_race(const std::string& path)
{
   State& s = st();
   if (s.race_path.empty() || s.race_path != path) return;
   if (!roll(race,"race?")) return;
   auto it = s.files.find(path);
   if (it == s.files.end()) return;
   Inode& i = *it->second;
   record_version(i);
   switch (draw(3,"race-kind"))
   {
      case 0 : { size_t n = draw(uint32_t(i.data.size()) + 1,"truncate-to"); i.data.resize(n);
                 fired("other process truncates file",true); logf("to %zu",n); break; }
      case 1 : { std::string x = bytes(1 + size_upto(20000,"append-len"),"append-data"); i.data += x;
                 fired("other process appends to file",true); logf("%zu bytes",x.size()); break; }
      default: { if (i.data.empty()) break;
                 size_t p = draw(uint32_t(i.data.size()),"poke-at"); i.data[p] = char(i.data[p] ^ (1 + draw(255,"poke")));
                 fired("other process changes a byte",true); logf("at %zu",p); break; }
   }
   record_version(i);
}
// common prologue; true: the process is dead, the call has no effect
bool enter(const std::string& path)
{
   State& s = st();
   if (s.window)
   {
      if (++s.nsys > syscall_budget) violate("hang","more than %llu system calls",(unsigned long long)syscall_budget);
      clock_advance(3);
   }
   if (s.is_killed) return true;
   do_race(path);
   return false;
}
void kill_now()
{
   st().is_killed = true; st().hard_at_kill = st().hard;
   fired("process killed",true);
}
int new_fd()
{
   State& s = st();
   for (size_t i = 0; i < s.fds.size(); ++i) if (!s.fds[i].used) return fd_base + int(i);
   s.fds.emplace_back();
   return fd_base + int(s.fds.size()) - 1;
}

int do_open(const char* path, int flags)
{
   threads::preempt_point(); threads::After after;
   NoFault nf;
   State& s = st();
   if (enter(path)) { errno = EIO; return -1; }
   if (roll(kill,"kill@open?",6)) { kill_now(); errno = EIO; return -1; }
   if (roll(open_fail,"open-fail?"))
   {
      static const int errs[] = { EMFILE, EACCES, EINTR, EIO };
      int e = errs[draw(4,"open-errno")];
      fired("open fails",true); errno = e; return -1;
   }
   auto it = s.files.find(path);
   if (it == s.files.end())
   {
      if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
      it = s.files.emplace(path,std::make_shared<Inode>()).first;
      record_version(*it->second);
   }
   else if (it->second->unreadable) { errno = EACCES; return -1; }
   else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
   if (flags & O_TRUNC) { record_version(*it->second); it->second->data.clear(); record_version(*it->second); }
   int fd = new_fd();
   OpenFile& o = s.fds[fd - fd_base];
   o.used = true; o.ino = it->second; o.path = path; o.pos = 0; o.flags = flags; o.fp = nullptr;
   return fd;
}
ssize_t do_read(int fd, void* buf, size_t n)
{
   threads::preempt_point(); threads::touch(buf,n,true); threads::After after;
   NoFault nf;
   OpenFile* o = of(fd);
   if (!o) { errno = EBADF; return -1; }
   if (enter(o->path)) { errno = EIO; return -1; }
   if (roll(kill,"kill@read?",12)) { kill_now(); errno = EIO; return -1; }
   if (roll(read_eintr,"read-eintr?")) { fired("read interrupted (EINTR)",true); errno = EINTR; return -1; }
   if (roll(read_eio,"read-eio?",2)) { fired("read fails (EIO)",true); errno = EIO; return -1; }
   const std::string& d = o->ino->data;
   size_t avail = o->pos < int64_t(d.size()) ? d.size() - size_t(o->pos) : 0;
   size_t k = n < avail ? n : avail;
   if (k > 1 && roll(read_short,"read-short?"))
   {
      size_t m = 1 + draw(uint32_t(k - 1),"short-len");
      if (m < k) { fired("short read",false); k = m; }
   }
   std::memcpy(buf,d.data() + o->pos,k);
   o->pos += int64_t(k);
   return ssize_t(k);
}
ssize_t do_write(int fd, const char* buf, size_t n)
{
   threads::preempt_point(); threads::After after;
   NoFault nf;
   State& s = st();
   OpenFile* o = of(fd);
   if (!o) { errno = EBADF; return -1; }
   if (enter(o->path)) { errno = EIO; return -1; }
   bool die = roll(kill,"kill@write?",4);
   size_t k = n;
   if (die && n) k = draw(uint32_t(n + 1),"torn-len");
   if (!die)
   {
      if (s.full) { threads::note_fault(); errno = ENOSPC; return -1; }
      if (roll(write_eintr,"write-eintr?")) { fired("write interrupted (EINTR)",true); errno = EINTR; return -1; }
      if (roll(write_eio,"write-eio?",2)) { fired("write fails (EIO)",true); errno = EIO; return -1; }
      if (n && roll(enospc,"enospc?",2))
      {
         fired("disk full (ENOSPC)",true); s.full = true;
         k = draw(uint32_t(n),"enospc-accept");
         if (!k) { errno = ENOSPC; return -1; }
      }
      else if (n > 1 && roll(write_short,"write-short?"))
      {
         size_t m = 1 + draw(uint32_t(n - 1),"short-len");
         if (m < n) { fired("short write",false); k = m; }
      }
   }
   std::string& d = o->ino->data;
   if (o->flags & O_APPEND) o->pos = int64_t(d.size());
   if (k)
   {
      if (d.size() < size_t(o->pos) + k) d.resize(size_t(o->pos) + k,'\0');
      d.replace(size_t(o->pos),k,buf,k);
      o->pos += int64_t(k);
      if (o->path == s.race_path) record_version(*o->ino);
   }
   if (die) { kill_now(); errno = EIO; return -1; }
   return ssize_t(k);
}
int64_t do_seek(int fd, int64_t off, int whence)
{
   threads::preempt_point();
   NoFault nf;
   OpenFile* o = of(fd);
   if (!o) { errno = EBADF; return -1; }
   if (enter(o->path)) { errno = EIO; return -1; }
   if (roll(seek_fail,"seek-fail?")) { fired("seek fails (ESPIPE)",true); errno = ESPIPE; return -1; }
   int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->pos : int64_t(o->ino->data.size());
   if (base + off < 0) { errno = EINVAL; return -1; }
   o->pos = base + off;
   return o->pos;
}
int do_close(int fd)
{
   threads::preempt_point(); threads::After after;
   NoFault nf;
   OpenFile* o = of(fd);
   if (!o) { errno = EBADF; return -1; }
   bool writer = (o->flags & O_ACCMODE) != O_RDONLY;
   bool dead = enter(o->path);
   bool bad = !dead && writer && roll(close_eio,"close-eio?");
   if (bad && !o->ino->data.empty() && flip("close-loses"))
   {  // the write-back behind the close failed: what was accepted before is not all stored
      o->ino->data.resize(draw(uint32_t(o->ino->data.size()),"close-keeps"));
      logf("close keeps %zu bytes",o->ino->data.size());
   }
   o->used = false; o->ino.reset(); o->fp = nullptr; o->path.clear();
   if (bad) { fired("close fails (EIO)",true); errno = EIO; return -1; }
   return 0;
}

// ---- C stdio on top: a cookie stream whose fileno() is the simulated descriptor ---------------
struct Cookie { int fd; };
ssize_t ck_read(void* c, char* b, size_t n) { return do_read(static_cast<Cookie*>(c)->fd,b,n); }
ssize_t ck_write(void* c, const char* b, size_t n)
{
   size_t done = 0;
   while (done < n)
   {
      ssize_t k = do_write(static_cast<Cookie*>(c)->fd,b + done,n - done);
      if (k <= 0) return ssize_t(done);
      done += size_t(k);
   }
   return ssize_t(done);
}
int ck_seek(void* c, off64_t* off, int whence)
{
   int64_t r = do_seek(static_cast<Cookie*>(c)->fd,*off,whence);
   if (r < 0) return -1;
   *off = r; return 0;
}
int ck_close(void* c)
{
   int r = do_close(static_cast<Cookie*>(c)->fd);
   ::free(c);
   return r;
}
int mode_flags(const char* m)
{
   bool plus = std::strchr(m,'+') != nullptr;
   int x = std::strchr(m,'x') ? O_EXCL : 0;
   switch (m[0])
   {
      case 'r' : return plus ? O_RDWR : O_RDONLY;
      case 'w' : return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC | x;
      default  : return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND | x;
   }
}
FILE* make_file(int fd, const char* mode)
{
   NoFault nf;
   Cookie* c = static_cast<Cookie*>(::malloc(sizeof(Cookie)));
   c->fd = fd;
   cookie_io_functions_t fn = { ck_read, ck_write, ck_seek, ck_close };
   char m[3] = { mode[0], std::strchr(mode,'+') ? '+' : '\0', '\0' };
   FILE* f = fopencookie(c,m,fn);
   of(fd)->fp = f;
   return f;
}
FILE* sim_fopen(const char* path, const char* mode)
{
   int fd = do_open(path,mode_flags(mode));
   return fd < 0 ? nullptr : make_file(fd,mode);
}
template <typename F> F real(const char* name)
{
   return reinterpret_cast<F>(dlsym(RTLD_NEXT,name));
}
int fill_stat(const char* path, struct stat* b)
{
   State& s = st();
   if (enter(path)) { errno = EIO; return -1; }
   auto it = s.files.find(path);
   if (it == s.files.end()) { errno = ENOENT; return -1; }
   std::memset(b,0,sizeof(*b));
   b->st_mode = S_IFREG | 0644; b->st_nlink = 1; b->st_size = off_t(it->second->data.size()); b->st_blksize = 4096;
   return 0;
}
int fill_fstat(int fd, struct stat* b)
{
   OpenFile* o = of(fd);
   std::memset(b,0,sizeof(*b));
   b->st_mode = S_IFREG | 0644; b->st_nlink = 1; b->st_size = off_t(o->ino->data.size()); b->st_blksize = 4096;
   return 0;
}

} // namespace

Profile draw_profile(uint32_t allowed)
{
   Profile p = {0,8};
   switch (draw(4,"fault-profile"))
   {
      case 0 : break;                                                    // fault free
      case 1 : p.mask = allowed & benign; break;
      default: for (uint32_t b = 1; b <= kill; b <<= 1)
                  if ((allowed & b) && flip("fault-kind?")) p.mask |= b;
   }
   static const uint32_t rates[] = { 16, 8, 4, 3, 32, 64 };
   if (p.mask) p.rate = rates[draw(6,"fault-rate")];
   return p;
}
void profile(const Profile& p) { st().prof = p; }
void put(const std::string& path, const std::string& data)
{
   NoFault nf;
   auto& f = st().files[path];
   f = std::make_shared<Inode>();
   f->data = data;
}
void erase(const std::string& path) { NoFault nf; st().files.erase(path); }
bool exists(const std::string& path) { return st().files.count(path) != 0; }
const std::string& get(const std::string& path)
{
   static std::string none;
   auto it = st().files.find(path);
   return it == st().files.end() ? none : it->second->data;
}
void set_unreadable(const std::string& path, bool b)
{
   auto it = st().files.find(path);
   if (it != st().files.end()) it->second->unreadable = b;
}
void race_target(const std::string& path) { NoFault nf; st().race_path = path; }
const std::vector<std::string>& versions(const std::string& path)
{
   static std::vector<std::string> none;
   auto it = st().files.find(path);
   return it == st().files.end() ? none : it->second->versions;
}
bool killed() { return st().is_killed; }
void restart()
{
   NoFault nf;
   State& s = st();
   s.is_killed = false; s.full = false;
   logf("process restarts");
}
bool hard_fired() { return st().hard; }
bool hard_before_kill() { return st().is_killed ? st().hard_at_kill : st().hard; }
uint64_t syscalls() { return st().nsys; }
size_t open_fds() { size_t n = 0; for (auto& o : st().fds) n += o.used; return n; }
Window::Window()
{
   NoFault nf;
   State& s = st();
   s.window = 1; s.hard = false; s.full = false; s.nsys = 0;
   for (auto& f : s.files) { f.second->versions.clear(); record_version(*f.second); }
}
Window::~Window() { st().window = 0; }

void reset_all()   // between the two passes of one run
{
   NoFault nf;
   State& s = st();
   s.files.clear(); s.prof = Profile{0,8}; s.window = 0;
   s.is_killed = s.hard = s.full = false; s.nsys = 0; s.race_path.clear();
}

}} // namespace sim::fs

using namespace sim::fs;

extern "C" {

FILE* fopen64(const char* p, const char* m)
{ return is_sim(p) ? sim_fopen(p,m) : real<FILE*(*)(const char*,const char*)>("fopen64")(p,m); }
FILE* fopen(const char* p, const char* m)
{ return is_sim(p) ? sim_fopen(p,m) : real<FILE*(*)(const char*,const char*)>("fopen")(p,m); }
FILE* fdopen(int fd, const char* m)
{ return of(fd) ? make_file(fd,m) : real<FILE*(*)(int,const char*)>("fdopen")(fd,m); }
int fileno(FILE* f)
{
   State& s = st();
   for (size_t i = 0; i < s.fds.size(); ++i) if (s.fds[i].used && s.fds[i].fp == f) return fd_base + int(i);
   return real<int(*)(FILE*)>("fileno")(f);
}
int open64(const char* p, int flags, ...)
{
   va_list ap; va_start(ap,flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap,int) : 0; va_end(ap);
   if (is_sim(p)) return do_open(p,flags);
   return int(syscall(SYS_openat,AT_FDCWD,p,flags,mode));
}
int open(const char* p, int flags, ...)
{
   va_list ap; va_start(ap,flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap,int) : 0; va_end(ap);
   if (is_sim(p)) return do_open(p,flags);
   return int(syscall(SYS_openat,AT_FDCWD,p,flags,mode));
}
int close(int fd) { return of(fd) ? do_close(fd) : int(syscall(SYS_close,fd)); }
ssize_t read(int fd, void* b, size_t n) { return of(fd) ? do_read(fd,b,n) : syscall(SYS_read,fd,b,n); }
ssize_t write(int fd, const void* b, size_t n)
{ if (of(fd)) sim::threads::touch(b,n,false); return of(fd) ? do_write(fd,static_cast<const char*>(b),n) : syscall(SYS_write,fd,b,n); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
   if (!of(fd)) return syscall(SYS_writev,fd,v,c);
   sim::threads::preempt_point();
   for (int i = 0; i < c; ++i) sim::threads::touch(v[i].iov_base,v[i].iov_len,false);
   std::vector<char> all;
   { sim::NoFault nf; for (int i = 0; i < c; ++i) all.insert(all.end(),static_cast<char*>(v[i].iov_base),static_cast<char*>(v[i].iov_base) + v[i].iov_len); }
   ssize_t r = do_write(fd,all.data(),all.size());
   { sim::NoFault nf; int e = errno; std::vector<char>().swap(all); errno = e; }
   return r;
}
ssize_t pread64(int fd, void* b, size_t n, off64_t off)
{
   if (!of(fd)) return syscall(SYS_pread64,fd,b,n,off);
   int64_t old = of(fd)->pos; of(fd)->pos = off;
   ssize_t r = do_read(fd,b,n);
   if (of(fd)) of(fd)->pos = old;
   return r;
}
ssize_t pread(int fd, void* b, size_t n, off_t off) { return pread64(fd,b,n,off); }
off64_t lseek64(int fd, off64_t o, int w) { return of(fd) ? do_seek(fd,o,w) : syscall(SYS_lseek,fd,o,w); }
off_t lseek(int fd, off_t o, int w) { return of(fd) ? do_seek(fd,o,w) : syscall(SYS_lseek,fd,o,w); }
int fstat64(int fd, struct stat64* b)
{ return of(fd) ? fill_fstat(fd,reinterpret_cast<struct stat*>(b)) : int(syscall(SYS_fstat,fd,b)); }
int fstat(int fd, struct stat* b) { return of(fd) ? fill_fstat(fd,b) : int(syscall(SYS_fstat,fd,b)); }
int stat(const char* p, struct stat* b) { return is_sim(p) ? fill_stat(p,b) : int(syscall(SYS_stat,p,b)); }
int stat64(const char* p, struct stat64* b)
{ return is_sim(p) ? fill_stat(p,reinterpret_cast<struct stat*>(b)) : int(syscall(SYS_stat,p,b)); }
int lstat(const char* p, struct stat* b) { return is_sim(p) ? fill_stat(p,b) : int(syscall(SYS_lstat,p,b)); }
int access(const char* p, int m)
{
   if (!is_sim(p)) return int(syscall(SYS_access,p,m));
   struct stat b; return fill_stat(p,&b);
}
int unlink(const char* p)
{
   if (!is_sim(p)) return int(syscall(SYS_unlink,p));
   sim::NoFault nf;
   if (enter(p)) { errno = EIO; return -1; }
   if (!st().files.erase(p)) { errno = ENOENT; return -1; }
   return 0;
}
int remove(const char* p)
{
   if (!is_sim(p)) return real<int(*)(const char*)>("remove")(p);
   return unlink(p);
}
int rename(const char* a, const char* b)
{
   if (!is_sim(a)) return int(syscall(SYS_rename,a,b));
   sim::NoFault nf;
   if (enter(a)) { errno = EIO; return -1; }
   State& s = st();
   if (roll(kill,"kill@rename?",6)) { kill_now(); errno = EIO; return -1; }
   auto it = s.files.find(a);
   if (it == s.files.end()) { errno = ENOENT; return -1; }
   InodeP i = it->second; s.files.erase(it); s.files[b] = i;
   return 0;
}
int fsync(int fd) { return of(fd) ? 0 : int(syscall(SYS_fsync,fd)); }
int fdatasync(int fd) { return of(fd) ? 0 : int(syscall(SYS_fdatasync,fd)); }
int ftruncate(int fd, off_t n)
{
   OpenFile* o = of(fd);
   if (!o) return int(syscall(SYS_ftruncate,fd,n));
   sim::NoFault nf;
   if (enter(o->path)) { errno = EIO; return -1; }
   record_version(*o->ino); o->ino->data.resize(size_t(n)); record_version(*o->ino);
   return 0;
}
int ioctl(int fd, unsigned long req, ...)
{
   va_list ap; va_start(ap,req); void* arg = va_arg(ap,void*); va_end(ap);
   OpenFile* o = of(fd);
   if (!o) return int(syscall(SYS_ioctl,fd,req,arg));
   if (req == FIONREAD)
   {
      int64_t left = int64_t(o->ino->data.size()) - o->pos;
      *static_cast<int*>(arg) = left > 0 ? int(left) : 0;
      return 0;
   }
   errno = ENOTTY; return -1;
}
int poll(struct pollfd* p, nfds_t n, int t)
{
   if (n == 1 && of(p->fd)) { p->revents = short(p->events & (POLLIN | POLLOUT)); return 1; }
   return int(syscall(SYS_poll,p,n,t));
}

} // extern "C"
