// Runs one command-line tool under system-call control: every call can be executed, failed, shortened or be the
// place where the process is killed; several tools can be advanced one call at a time.
#pragma once
#include "sub.hpp"
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dirent.h>
#include <fcntl.h>
#include <cerrno>
#include <csignal>
struct ToolFn { const char *name; int (*fn)(int, char **); };
extern const ToolFn TOOLS[];
inline int (*tool_fn(const std::string &n))(int, char **) { for (const ToolFn *t = TOOLS; t->name; t++) if (n == t->name) return t->fn; return nullptr; }
extern long mal_fail, mal_count; // the mal_fail-th allocation of the tool fails
enum Role { R_NONE, R_KEYDIR, R_MSG, R_OUT, R_ERR, R_RND, R_OTHER };
struct Sys { long nr = -1; uint64_t a[6] = {0}; long ret = 0; Role role = R_NONE; bool mutates = false; };
struct Act { enum { PASS, KILL, ERR, SHORT, ZERO } k = PASS; long v = 0; };
std::string sys_name(long nr); std::string act_str(const Act &a); std::string err_name(long e);
std::vector<Act> variants(const Sys &s, int level); // level 0: few, 1: all
struct Launch { std::string tool; std::string exe; std::vector<std::string> args; std::string cwd, out, err; unsigned closed = 0; bool out_full = false, out_pipe_closed = false; uint64_t ent_seed = 1; long mal = 0; int chunk = 0; };
struct Proc {
  pid_t pid = -1; bool dead = false, hang = false, blocked = false, fresh = true; int code = -1, sig = 0; Sys cur; std::vector<Sys> log; std::string root; uint64_t n_sys = 0; bool multi = false; bool update_started = false; uint64_t outw = 0; // bytes written to standard output
  void start(const Launch &l, const std::string &root);
  void exec(const Act &a); // executes the pending call and proceeds to the next relevant one
  void kill_now();
  ~Proc() { if (pid > 0 && !dead) kill_now(); }
private:
  void wait_stop(); void to_entry(); bool entry(); void cont(int sig = 0); bool in_sys = false; int pend = 0;
};
extern uint64_t t_runs, t_sys;
bytes slurp(const std::string &p, bool *ok = nullptr); void spit(const std::string &p, const bytes &b); void spit(const std::string &p, const std::string &s);
struct Scratch { std::string d; Scratch(); ~Scratch(); };
