#include "tracer.hpp"
#include <sys/prctl.h>
#ifndef PTRACE_EVENT_EXEC
#define PTRACE_EVENT_EXEC 4
#endif
long mal_fail = 0, mal_count = 0; uint64_t t_runs, t_sys;
extern "C" {
void *vpt_malloc(size_t n) { if (mal_fail && ++mal_count == mal_fail) { errno = ENOMEM; return 0; } return malloc(n); }
void *vpt_calloc(size_t a, size_t b) { if (mal_fail && ++mal_count == mal_fail) { errno = ENOMEM; return 0; } return calloc(a, b); }
void *vpt_realloc(void *p, size_t n) { if (mal_fail && ++mal_count == mal_fail) { errno = ENOMEM; return 0; } return realloc(p, n); }
}
static const std::map<long, const char *> NM = {{SYS_read,"read"},{SYS_write,"write"},{SYS_open,"open"},{SYS_openat,"openat"},{SYS_creat,"creat"},{SYS_close,"close"},{SYS_fstat,"fstat"},{SYS_newfstatat,"newfstatat"},{SYS_stat,"stat"},{SYS_lseek,"lseek"},{SYS_pread64,"pread"},{SYS_pwrite64,"pwrite"},{SYS_readv,"readv"},{SYS_writev,"writev"},{SYS_fsync,"fsync"},{SYS_fdatasync,"fdatasync"},{SYS_flock,"flock"},{SYS_fcntl,"fcntl"},{SYS_rename,"rename"},{SYS_renameat,"renameat"},{SYS_renameat2,"renameat2"},{SYS_unlink,"unlink"},{SYS_unlinkat,"unlinkat"},{SYS_link,"link"},{SYS_ftruncate,"ftruncate"},{SYS_truncate,"truncate"},{SYS_exit_group,"exit"},{SYS_ioctl,"ioctl"},{SYS_dup,"dup"},{SYS_dup2,"dup2"},{SYS_msync,"msync"},{SYS_mmap,"mmap"},{SYS_sync,"sync"},{SYS_getrandom,"getrandom"},{SYS_access,"access"},{SYS_statx,"statx"},{SYS_chmod,"chmod"},{SYS_fchmod,"fchmod"},{SYS_sync_file_range,"sync_file_range"},{SYS_fallocate,"fallocate"}};
std::string sys_name(long nr) { auto it = NM.find(nr); return it == NM.end() ? js("system call %ld", nr) : it->second; }
std::string err_name(long e) { switch (e) { case EIO: return "EIO"; case EINTR: return "EINTR"; case ENOSPC: return "ENOSPC"; case EACCES: return "EACCES"; case ENOLCK: return "ENOLCK"; case EMFILE: return "EMFILE"; case EINVAL: return "EINVAL"; case EROFS: return "EROFS"; case EPIPE: return "EPIPE"; case EWOULDBLOCK: return "EWOULDBLOCK"; case ESPIPE: return "ESPIPE"; case ENOENT: return "ENOENT"; } return js("error %ld", e); }
std::string act_str(const Act &a) { switch (a.k) { case Act::PASS: return "executed"; case Act::KILL: return "killed before it"; case Act::ERR: return "fails with " + err_name(a.v); case Act::SHORT: return js("transfers only %ld bytes", a.v); case Act::ZERO: return "transfers nothing"; } return "?"; }
bytes slurp(const std::string &p, bool *ok) { bytes b; int fd = open(p.c_str(), O_RDONLY); if (ok) *ok = fd >= 0; if (fd < 0) return b; struct stat st; fstat(fd, &st); b.resize(st.st_size); size_t n = 0; while (n < b.size()) { ssize_t r = read(fd, &b[n], b.size() - n); if (r <= 0) break; n += r; } b.resize(n); close(fd); return b; }
void spit(const std::string &p, const bytes &b) { int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(3); } size_t n = 0; while (n < b.size()) { ssize_t r = write(fd, &b[n], b.size() - n); if (r <= 0) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(3); } n += r; } close(fd); }
void spit(const std::string &p, const std::string &s) { spit(p, bytes(s.begin(), s.end())); }
static void rmtree(const std::string &d) { DIR *q = opendir(d.c_str()); if (!q) return; while (dirent *e = readdir(q)) { std::string n = e->d_name; if (n == "." || n == "..") continue; n = d + "/" + n; struct stat st; if (!lstat(n.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(n); else unlink(n.c_str()); } closedir(q); rmdir(d.c_str()); }
Scratch::Scratch() { for (const char *b : {"/dev/shm", "/tmp", "."}) { char t[100]; snprintf(t, sizeof t, "%s/vp-xmss-XXXXXX", b); if (mkdtemp(t)) { d = t; char *r = realpath(t, 0); d = r; free(r); return; } } fprintf(stderr, "no scratch directory\n"); _exit(3); }
Scratch::~Scratch() { rmtree(d); }
static bool irrelevant(long nr) { switch (nr) { case SYS_brk: case SYS_munmap: case SYS_mprotect: case SYS_futex: case SYS_rt_sigaction: case SYS_rt_sigprocmask: case SYS_madvise: case SYS_clock_gettime: case SYS_gettimeofday: case SYS_time: case SYS_getpid: case SYS_gettid: case SYS_getuid: case SYS_prlimit64: case SYS_set_robust_list: case SYS_rseq: case SYS_set_tid_address: case SYS_arch_prctl: case SYS_rt_sigreturn: case SYS_sched_yield: case SYS_execve: case SYS_readlink: case SYS_readlinkat: case SYS_getrandom: case SYS_sigaltstack: case SYS_prctl: case SYS_sysinfo: case SYS_uname: return true; } return false; }
std::vector<Act> variants(const Sys &s, int lv) {
  std::vector<Act> v; auto E = [&](long e) { v.push_back({Act::ERR, e}); }; auto Sh = [&](long n) { if (n > 0 && n < s.ret) v.push_back({Act::SHORT, n}); };
  switch (s.nr) {
  case SYS_open: case SYS_openat: case SYS_creat: if (s.ret < 0) break; E(EACCES); if (lv) { E(EMFILE); E(EINTR); } break;
  case SYS_read: case SYS_pread64: case SYS_readv: if (s.ret < 0) break; E(EIO); Sh(s.ret / 2); if (s.ret > 0) v.push_back({Act::ZERO, 0}); if (lv) { E(EINTR); Sh(1); Sh(s.ret - 1); } break;
  case SYS_write: case SYS_pwrite64: case SYS_writev: if (s.ret <= 0) break; E(ENOSPC); Sh(s.ret / 2); if (lv) { E(EIO); E(EINTR); Sh(1); Sh(s.ret - 1); Sh(512); } break;
  case SYS_lseek: if (s.ret < 0) break; E(EINVAL); if (lv) E(EIO); break;
  case SYS_fsync: case SYS_fdatasync: case SYS_msync: E(EIO); if (lv) { E(EINTR); E(ENOSPC); } break;
  case SYS_flock: E(ENOLCK); if (lv) { E(EINTR); E(EWOULDBLOCK); } break;
  case SYS_fcntl: if (s.a[1] == F_SETLK || s.a[1] == F_SETLKW || s.a[1] == F_OFD_SETLK || s.a[1] == F_OFD_SETLKW) { E(ENOLCK); if (lv) E(EINTR); } break;
  case SYS_close: E(EIO); if (lv) E(EINTR); break;
  case SYS_fstat: case SYS_newfstatat: case SYS_stat: case SYS_statx: if (s.ret < 0) break; E(EIO); break;
  case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_link: case SYS_ftruncate: case SYS_truncate: case SYS_fallocate: case SYS_chmod: case SYS_fchmod: if (s.ret < 0) break; E(EIO); if (lv) E(ENOSPC); break;
  }
  return v;
}
void Proc::start(const Launch &l, const std::string &rt) {
  root = rt; t_runs++; fflush(stdout); fflush(stderr); pid = fork(); if (pid < 0) { fprintf(stderr, "fork\n"); _exit(3); }
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGPIPE}) signal(s, SIG_DFL); struct rlimit rl = {30, 30}; setrlimit(RLIMIT_CPU, &rl); rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (chdir(l.cwd.c_str())) _exit(97); int i = open("/dev/null", O_RDONLY), o, e = open(l.err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (l.out_full) o = open("/dev/full", O_WRONLY); else if (l.out_pipe_closed) { int p[2]; if (pipe(p)) _exit(97); close(p[0]); o = p[1]; } else o = open(l.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (i < 0 || o < 0 || e < 0) _exit(97); dup2(i, 50); dup2(o, 51); dup2(e, 52); for (int f = 3; f < 50; f++) close(f); dup2(50, 0); dup2(51, 1); dup2(52, 2); close(50); close(51); close(52);
    if (l.exe.empty()) { stdin = fdopen(0, "r"); stdout = fdopen(1, "w"); stderr = fdopen(2, "w"); setvbuf(stderr, 0, _IONBF, 0); hash_hook = 0; ent_reset(l.ent_seed); mal_fail = l.mal; mal_count = 0; if (l.chunk) { static int ch; ch = l.chunk; } }
    for (int f = 0; f < 3; f++) if (l.closed >> f & 1) close(f);
    std::vector<char *> av; for (auto &a : l.args) av.push_back(strdup(a.c_str())); av.push_back(0);
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(96); raise(SIGSTOP);
    if (!l.exe.empty()) { execv(l.exe.c_str(), av.data()); _exit(95); }
    int (*fn)(int, char **) = tool_fn(l.tool); if (!fn) _exit(94); exit(fn(av.size() - 1, av.data()));
  }
  int st; waitpid(pid, &st, __WALL); if (!WIFSTOPPED(st)) { fprintf(stderr, "cannot trace (status %x)\n", st); _exit(3); }
  if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC)) { fprintf(stderr, "ptrace options\n"); _exit(3); }
  to_entry();
}
void Proc::kill_now() { if (dead) return; kill(pid, SIGKILL); int st; while (waitpid(pid, &st, __WALL) == pid && !WIFEXITED(st) && !WIFSIGNALED(st)) ptrace(PTRACE_CONT, pid, 0, 0); dead = true; sig = SIGKILL; }
// continue; afterwards either dead or in a system-call stop (in_sys toggled)
void Proc::cont(int s) {
  for (;;) {
    if (ptrace(PTRACE_SYSCALL, pid, 0, s)) { } s = 0; int st; if (waitpid(pid, &st, __WALL) != pid) { fprintf(stderr, "waitpid\n"); _exit(3); }
    if (WIFEXITED(st)) { dead = true; code = WEXITSTATUS(st); return; } if (WIFSIGNALED(st)) { dead = true; sig = WTERMSIG(st); return; }
    int g = WSTOPSIG(st); if (g == (SIGTRAP | 0x80)) { in_sys = !in_sys; return; } if (g == SIGTRAP && (st >> 16)) continue; s = g == SIGSTOP ? 0 : g;
  }
}
bool Proc::entry() { // describe the pending call; false if it is of no interest
  struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r); Sys s; s.nr = r.orig_rax; uint64_t a[6] = {r.rdi, r.rsi, r.rdx, r.r10, r.r8, r.r9}; memcpy(s.a, a, sizeof a); n_sys++; t_sys++;
  if (s.nr == SYS_mmap) { if ((int)s.a[4] < 0 || (s.a[3] & MAP_ANONYMOUS)) return false; }
  else if (irrelevant(s.nr)) return false;
  auto fdrole = [&](int fd) { char l[64], b[300]; snprintf(l, sizeof l, "/proc/%d/fd/%d", (int)pid, fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return R_NONE; b[n] = 0; std::string p = b; if (p.compare(0, root.size(), root) == 0) { p = p.substr(root.size()); if (p.compare(0, 3, "/d/") == 0 || p == "/d") return R_KEYDIR; if (p.compare(0, 4, "/out") == 0) return R_OUT; if (p.compare(0, 4, "/err") == 0) return R_ERR; return R_MSG; } if (p.find("random") != std::string::npos) return R_RND; if (p == "/dev/full" || p.compare(0, 5, "pipe:") == 0) return R_OUT; return R_OTHER; };
  auto pathrole = [&](uint64_t ad) { char b[512]; memset(b, 0, sizeof b); struct iovec l = {b, 500}, q = {(void *)ad, 500}; ssize_t n = process_vm_readv(pid, &l, 1, &q, 1, 0); if (n <= 0) { q.iov_len = 4096 - ad % 4096; if (q.iov_len > 500) q.iov_len = 500; l.iov_len = q.iov_len; process_vm_readv(pid, &l, 1, &q, 1, 0); } std::string p = b; if (p.find("random") != std::string::npos) return R_RND; if (p.compare(0, root.size(), root) == 0) { p = p.substr(root.size()); return p.compare(0, 3, "/d/") == 0 ? R_KEYDIR : R_MSG; } if (p.size() && p[0] == '/') return R_OTHER; if (p.compare(0, 3, "../") == 0) return R_MSG; return R_KEYDIR; };
  switch (s.nr) {
  case SYS_open: case SYS_creat: case SYS_unlink: case SYS_truncate: case SYS_rename: case SYS_link: case SYS_access: case SYS_stat: case SYS_chmod: case SYS_lstat: s.role = pathrole(s.a[0]); break;
  case SYS_openat: case SYS_unlinkat: case SYS_renameat: case SYS_renameat2: case SYS_newfstatat: case SYS_statx: s.role = pathrole(s.a[1]); if (s.nr == SYS_newfstatat || s.nr == SYS_statx) { char c = 0; struct iovec l = {&c, 1}, q = {(void *)s.a[1], 1}; process_vm_readv(pid, &l, 1, &q, 1, 0); if (!c) s.role = fdrole(s.a[0]); } break;
  case SYS_exit_group: case SYS_exit: s.role = R_NONE; break; case SYS_mmap: s.role = fdrole(s.a[4]); break;
  default: s.role = fdrole(s.a[0]);
  }
  if (s.role == R_KEYDIR) switch (s.nr) { case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_ftruncate: case SYS_truncate: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_link: case SYS_fallocate: case SYS_creat: s.mutates = true; break; case SYS_open: s.mutates = s.a[1] & O_TRUNC; break; case SYS_openat: s.mutates = s.a[2] & O_TRUNC; break; case SYS_mmap: s.mutates = (s.a[2] & PROT_WRITE) && (s.a[3] & MAP_SHARED); break; }
  cur = s; return s.role != R_OTHER || s.nr == SYS_exit_group;
}
void Proc::to_entry() { for (;;) { cont(); if (dead) return; if (n_sys > 200000) { hang = true; kill_now(); return; } if (in_sys) { if (entry()) return; struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r); if (r.orig_rax == SYS_nanosleep || r.orig_rax == SYS_clock_nanosleep) {} } } }
void Proc::exec(const Act &a) {
  if (dead) return; if (a.k == Act::KILL) { kill_now(); return; }
  struct user_regs_struct r; ptrace(PTRACE_GETREGS, pid, 0, &r); struct user_regs_struct o = r; bool fake = false; long fret = 0; bool nb = false;
  if (cur.mutates && a.k != Act::ERR) update_started = true;
  switch (cur.nr) { case SYS_fsync: case SYS_fdatasync: case SYS_sync: case SYS_syncfs: case SYS_sync_file_range: case SYS_nanosleep: case SYS_clock_nanosleep: case SYS_pause: fake = true; break; } // durability is modelled, time does not pass
  if (a.k == Act::ERR) { if (cur.nr != SYS_close) fake = true; fret = -a.v; } else if (a.k == Act::ZERO) { fake = true; fret = 0; } else if (a.k == Act::SHORT) { r.rdx = a.v; if (cur.nr == SYS_writev || cur.nr == SYS_readv) { struct iovec v[1]; struct iovec l = {v, sizeof v}, q = {(void *)o.rsi, sizeof v}; process_vm_readv(pid, &l, 1, &q, 1, 0); r.orig_rax = cur.nr == SYS_writev ? SYS_write : SYS_read; r.rsi = (uint64_t)v[0].iov_base; if ((uint64_t)a.v > v[0].iov_len) r.rdx = v[0].iov_len; } }
  if (multi && cur.nr == SYS_flock && !(cur.a[1] & LOCK_NB) && !fake) { r.rsi |= LOCK_NB; nb = true; }
  if (multi && cur.nr == SYS_fcntl && (cur.a[1] == F_SETLKW || cur.a[1] == F_OFD_SETLKW) && !fake) { r.rsi = cur.a[1] == F_SETLKW ? F_SETLK : F_OFD_SETLK; nb = true; }
  if (fake) r.orig_rax = -1; ptrace(PTRACE_SETREGS, pid, 0, &r); cont(); if (dead) { log.push_back(cur); return; }
  ptrace(PTRACE_GETREGS, pid, 0, &r); long ret = fake ? fret : (long)r.rax; if (a.k == Act::ERR && cur.nr == SYS_close) ret = fret;
  if (nb && (ret == -EWOULDBLOCK || ret == -EAGAIN || ret == -EACCES)) { r.rip -= 2; r.rax = cur.nr; r.rsi = o.rsi; ptrace(PTRACE_SETREGS, pid, 0, &r); blocked = true; to_entry(); return; }
  blocked = false; r.rax = ret; r.rsi = o.rsi; r.rdx = o.rdx; ptrace(PTRACE_SETREGS, pid, 0, &r); cur.ret = ret; if (cur.role == R_OUT && ret > 0 && (cur.nr == SYS_write || cur.nr == SYS_writev || cur.nr == SYS_pwrite64)) outw += ret;
  log.push_back(cur); to_entry();
}
