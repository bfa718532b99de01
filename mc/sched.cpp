// C12: all interleavings of calls on distinct keys.
// Real threads under a baton: one runs at a time, and the baton changes hands only at visible events
// (conflicting memory accesses, entropy calls, optionally every hash call). The code is compiled with
// -fsanitize=thread instrumentation; the runtime the instrumentation calls is this file.
#include "sub.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <unordered_set>
extern bool o_stub;
#include <sys/syscall.h>
// ---------------------------------------------------------------------------------------- scheduler
enum { OFF = 0, RECORD = 1, RUN = 2 };
static int s_mode = OFF; static bool s_coarse = false; static unsigned s_visits = 3; // events: the first s_visits visits of every code site
struct Ev { uint64_t site; };
struct Thr { sem_t go; bool done = false, started = false; uint8_t *lo = 0, *hi = 0; uint64_t ev = 0; std::unordered_map<uint64_t, uint64_t> visits; std::unordered_set<uint64_t> rd, wr; std::vector<uint64_t> pts; uint64_t seed = 1, pos = 0; uint8_t *arena = 0; size_t aoff = 0, acap = 0; uint64_t spins = 0; };
static Thr *T; static int n_thr = 0, cur = 0; static thread_local int me = -1;
static std::vector<std::pair<int, uint64_t>> s_plan; static size_t s_at = 0; // preemptions: (thread, event number) -> next thread
static std::unordered_set<uint64_t> S; static uint8_t s_filter[1 << 14]; static bool s_any = false;
static inline size_t fidx(uint64_t g) { return (g ^ g >> 14) & ((1 << 14) - 1); }
static void switch_to(int t) { int self = me; cur = t; sem_post(&T[t].go); if (self >= 0 && !T[self].done) while (sem_wait(&T[self].go)) {} }
static int other(int t) { for (int k = 1; k < n_thr; k++) { int o = (t + k) % n_thr; if (!T[o].done) return o; } return -1; }
static void __attribute__((noinline)) event(uint64_t site) {
  Thr &t = T[me]; uint64_t &v = t.visits[site]; if (v++ >= s_visits) return; uint64_t e = t.ev++;
  if (s_at == s_plan.size()) t.pts.push_back(e); // candidate for a further preemption
  else if (s_plan[s_at].first == me && s_plan[s_at].second == e) { s_at++; int o = other(me); if (o >= 0) switch_to(o); }
}
static void yield_blocked() { Thr &t = T[me]; if (++t.spins > 200000) viol("calls on distinct keys block each other forever"); int o = other(me); if (o >= 0) switch_to(o); }
static void __attribute__((noinline)) acc_slow(uint64_t a, uint64_t n, bool w, uint64_t site) {
  for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    if (s_mode == RECORD) { (w ? T[me].wr : T[me].rd).insert(g); continue; }
    if (s_filter[fidx(g)] && S.count(g)) { event(site); return; }
  }
}
static inline void acc(const void *p, uint64_t n, bool w, uint64_t site) {
  if (s_mode == OFF || me < 0 || !n) return; if (s_mode == RUN && !s_any) return;
  const uint8_t *q = (const uint8_t *)p; if (q >= T[me].lo && q < T[me].hi) return; // own stack
  acc_slow((uint64_t)q, n, w, site);
}
static void on_hash(int, const uint8_t *in, uint64_t il, uint8_t *out, uint64_t ol, int ph) {
  if (me < 0 || s_mode == OFF) return; uint64_t site = (uint64_t)__builtin_return_address(0);
  if (ph == 0) acc(in, il, false, 1); else acc(out, ol, true, 2);
  if (s_mode == RUN && s_coarse) { Thr &t = T[me]; uint64_t e = t.ev++; (void)site; if (s_at == s_plan.size()) t.pts.push_back(e); else if (s_plan[s_at].first == me && s_plan[s_at].second == e) { s_at++; int o = other(me); if (o >= 0) switch_to(o); } }
}
static long on_entropy(int is_read, uint8_t *b, uint64_t n) {
  if (me >= 0 && s_mode == RUN) event(is_read ? 11 : 12);
  if (!is_read) return 1000; static uint64_t sp = 0; uint64_t &pos = me >= 0 ? T[me].pos : sp; uint64_t sd = me >= 0 ? T[me].seed : 1;
  for (uint64_t i = 0; i < n; i++) b[i] = ent_byte(sd, pos++); if (me >= 0) acc(b, n, true, 13); if (me >= 0 && s_mode == RUN) event(14); return n;
}
// ------------------------------------------------------------------------- instrumentation runtime
#define RA ((uint64_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, 0, RA); } void __tsan_write##n(void *p) { acc(p, n, 1, RA); } void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, RA); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, RA); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, 0, RA); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1, RA); } void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, 0, RA); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, 1, RA); } \
  void __tsan_read_write##n(void *p) { acc(p, n, 1, RA); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 1, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, 0, RA); } void __tsan_write_range(void *p, unsigned long n) { acc(p, n, 1, RA); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, 1, RA); } void __tsan_vptr_read(void **p) { acc(p, 8, 0, RA); }
#define AT(b, ty) \
  ty __tsan_atomic##b##_load(const volatile ty *p, int) { acc((void *)p, b / 8, 0, RA); return __atomic_load_n(p, 5); } void __tsan_atomic##b##_store(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); __atomic_store_n(p, v, 5); } \
  ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); return __atomic_exchange_n(p, v, 5); } ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); return __atomic_fetch_add(p, v, 5); } \
  ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); return __atomic_fetch_sub(p, v, 5); } ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); return __atomic_fetch_and(p, v, 5); } \
  ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); return __atomic_fetch_or(p, v, 5); } ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); return __atomic_fetch_xor(p, v, 5); } ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int) { acc((void *)p, b / 8, 1, RA); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int, int) { acc((void *)p, b / 8, 1, RA); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int, int) { acc((void *)p, b / 8, 1, RA); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int, int) { acc((void *)p, b / 8, 1, RA); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void *vp_memcpy(void *d, const void *s, size_t n) { acc(s, n, 0, RA); acc(d, n, 1, RA); return memcpy(d, s, n); }
void *vp_memmove(void *d, const void *s, size_t n) { acc(s, n, 0, RA); acc(d, n, 1, RA); return memmove(d, s, n); }
void *vp_memset(void *d, int c, size_t n) { acc(d, n, 1, RA); return memset(d, c, n); }
int vp_memcmp(const void *a, const void *b, size_t n) { acc(a, n, 0, RA); acc(b, n, 0, RA); return memcmp(a, b, n); }
// heap blocks of the code under test: every thread has its own region and nothing is ever reused
void *vp_malloc(size_t n) { if (me < 0) return malloc(n); Thr &t = T[me]; size_t z = (n + 47) & ~15ull; if (t.aoff + z > t.acap) { t.acap = z > (8 << 20) ? z : 8 << 20; t.arena = (uint8_t *)mmap(0, t.acap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); t.aoff = 0; } uint8_t *r = t.arena + t.aoff; t.aoff += z; *(size_t *)r = n; return r + 16; }
void vp_free(void *p) { if (me < 0) free(p); else if (p) acc(p, 8, 1, RA); }
void *vp_calloc(size_t a, size_t b) { if (me < 0) return calloc(a, b); void *r = vp_malloc(a * b); memset(r, 0, a * b); return r; }
void *vp_realloc(void *p, size_t n) { if (me < 0) return realloc(p, n); void *r = vp_malloc(n); if (p) { size_t o = *(size_t *)((uint8_t *)p - 16); memcpy(r, p, o < n ? o : n); } return r; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { if (me < 0 || s_mode == OFF) return pthread_mutex_lock(m); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) yield_blocked(); return r; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); if (me >= 0 && s_mode == RUN) event(RA); return r; }
int vp_pthread_once(pthread_once_t *o, void (*f)(void)) { static std::map<pthread_once_t *, int> st; if (me < 0 || s_mode == OFF) return pthread_once(o, f); while (st[o] == 1) yield_blocked(); if (st[o] == 2) return 0; st[o] = 1; f(); st[o] = 2; return 0; }
}
// ------------------------------------------------------------------------------------- the programs
typedef std::function<void(Dig &)> Prog;
struct Shared { Dig d[3]; uint32_t npts; uint64_t pts[20000]; uint32_t nS; uint64_t S[4000]; uint32_t newS; int ab; uint32_t n[8]; uint8_t b[8][1 << 18]; };
static Shared *sh_;
struct Run { int i; Prog p; Dig *d; };
static sem_t fin;
static void *thr_main(void *a) {
  Run *r = (Run *)a; me = r->i; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void *lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); T[me].lo = (uint8_t *)lo; T[me].hi = (uint8_t *)lo + sz;
  while (sem_wait(&T[me].go)) {} *r->d = Dig(); r->p(*r->d); T[me].done = true; int o = other(me); if (o >= 0) switch_to(o); else for (int i = 0; i < n_thr; i++) sem_post(&fin); while (sem_wait(&fin)) {} return 0; // nobody's memory is recycled before the end
}
static void run_threads(const std::vector<Prog> &ps, int first, int mode) { // in a child process
  n_thr = ps.size(); T = new Thr[n_thr]; std::vector<Run> rs(n_thr); std::vector<pthread_t> th(n_thr); s_at = 0; hash_hook = on_hash; ent.fn = on_entropy; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20); sem_init(&fin, 0, 0);
  for (int i = 0; i < n_thr; i++) { sem_init(&T[i].go, 0, 0); T[i].seed = 50 + i; rs[i] = {i, ps[i], &sh_->d[i]}; pthread_create(&th[i], &at, thr_main, &rs[i]); }
  s_mode = mode; cur = first; sem_post(&T[first].go); for (auto &t : th) pthread_join(t, 0); s_mode = OFF;
}
static void in_child(std::function<void()> f) { fflush(stdout); pid_t c = fork(); if (!c) { guard_init(); op_limit(120); f(); fflush(stdout); _exit(7); } int st; waitpid(c, &st, 0); parent_reports(st); }
static const char *TN[3] = {"A", "B", "C"};
static Sub load(const Impl &I, const P &p, int slot) { Sub s(I, p); s.params(); auto get = [&](int i) { return bytes(sh_->b[i], sh_->b[i] + sh_->n[i]); }; s.pk = get(slot); s.sk = get(slot + 1); s.sm = get(slot + 2); return s; }
static Prog program(const Impl &I, const P &p, int slot, const std::string &ops, uint64_t tag) {
  return [&I, p, slot, ops, tag](Dig &d) { Sub s = load(I, p, slot); EnvV e = ENVS[0]; int k = 0;
    for (char c : ops) { k++; if (c == 'g') s.gen(e, &d); else if (c == 's') s.sg(e, message(tag + k, 30 + tag % 7), &d, true); else if (c == 'o') s.op(e, s.sm, &d); else if (c == 'x') { bytes b(s.sm); b[p.idxb + 2] ^= 8; s.op(e, b, &d); } else if (c == 'e') { put_be(&s.sk[s.off], p.idxb, p.capacity() - 1); s.sg(e, message(tag + k, 9), &d, true); } } };
}
static void prepare(const std::vector<std::pair<const Impl *, P>> &ks) {
  sh_ = (Shared *)shm(sizeof(Shared)); paint_on = false;
  in_child([&] { sh_->ab = abstract_ok(); auto put = [&](int i, const bytes &v) { sh_->n[i] = v.size(); if (v.size() > sizeof sh_->b[0]) _exit(3); memcpy(sh_->b[i], v.data(), v.size()); }; if (wots_mode >= W_AWOTS && !sh_->ab) return;
    int s = 0; for (auto &k : ks) { if (s > 4) break; ent_reset(60 + s); Sub x(*k.first, k.second); x.gen(ENVS[0], 0); x.sg(ENVS[0], message(70 + s, 25), 0, false); put(s, x.pk); put(s + 1, x.sk); put(s + 2, x.sm); s += 3; } });
}
static std::string plan_str(int first) { std::string s = js("start %s", TN[first]); for (auto &x : s_plan) s += js(", preempt %s before its visible event %llu", TN[x.first], (ull)x.second); return s; }
static uint64_t n_sched, n_ev; static Dig base[3]; static std::string what; static double t_end; static bool capped;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool one(const std::vector<Prog> &ps, int first, std::vector<uint64_t> &pts) { // one schedule; the events at which one more preemption is possible
  // after the last preemption of the plan, the running thread is:
  int runner = first; for (auto &x : s_plan) runner = (x.first + 1) % (int)ps.size();
  in_child([&] { set_op("%s; schedule: %s", what.c_str(), plan_str(first).c_str()); run_threads(ps, first, RUN); auto &v = T[runner].pts; sh_->npts = v.size() > 20000 ? 20000 : v.size(); memcpy(sh_->pts, v.data(), sh_->npts * 8); });
  n_sched++; for (size_t i = 0; i < ps.size(); i++) if (!(sh_->d[i] == base[i])) viol("%s: the results of %s differ from those it gives alone; schedule: %s", what.c_str(), TN[i], plan_str(first).c_str());
  pts.assign(sh_->pts, sh_->pts + sh_->npts); return true;
}
static void explore(const std::vector<Prog> &ps, int first, unsigned bound, uint64_t part, uint64_t parts) {
  std::vector<uint64_t> pts; one(ps, first, pts); n_ev++; if (s_plan.size() >= bound) return; n_ev += pts.size(); int runner = first; for (auto &x : s_plan) runner = (x.first + 1) % (int)ps.size();
  uint64_t i = 0; for (uint64_t e : pts) { if (s_plan.empty() && i++ % parts != part) continue; if (now() > t_end) { capped = true; return; } s_plan.push_back({runner, e}); explore(ps, first, bound, 0, 1); s_plan.pop_back(); }
}
static void c12_t(const Args &a) { // T specA implA opsA specB implB opsB mode coarse bound visits part parts
  P pa = parse_spec(a[1]), pb = parse_spec(a[4]); const Impl &Ia = impl_of(a[2][0]), &Ib = impl_of(a[5][0]); wots_mode = atoi(a[7].c_str()); s_coarse = arg_u(a, 8); unsigned bound = arg_u(a, 9); s_visits = arg_u(a, 10, 3); uint64_t part = arg_u(a, 11), parts = arg_u(a, 12, 1); op_limit(0);
  o_stub = true; prepare({{&Ia, pa}, {&Ib, pb}}); if (wots_mode >= W_AWOTS && !sh_->ab) { stat_add("skipped_jobs", 1); return; } t_end = now() + 500;
  what = js("thread A: %s \"%s\" on %s, thread B: %s \"%s\" on %s (g key generation, s sign, o verify, x verify altered, e last signature)", Ia.name, a[3].c_str(), pa.name.c_str(), Ib.name, a[6].c_str(), pb.name.c_str());
  std::vector<Prog> ps = {program(Ia, pa, 0, a[3], 1), program(Ib, pb, 3, a[6], 20)};
  for (int i = 0; i < 2; i++) { in_child([&] { set_op("%s; %s alone", what.c_str(), TN[i]); n_thr = 2; Prog idle = [](Dig &) {}; std::vector<Prog> q = {i == 0 ? ps[0] : idle, i == 1 ? ps[1] : idle}; run_threads(q, i, OFF); }); base[i] = sh_->d[i]; }
  // which locations do both touch, at least one of them writing?
  size_t rounds = 0; uint64_t acc_n = 0;
  for (int first = 0; first < 2; first++) {
    in_child([&] { set_op("%s; recording", what.c_str()); run_threads(ps, first, RECORD); for (int i = 0; i < 2; i++) for (uint64_t g : T[i].wr) if (T[1 - i].rd.count(g) || T[1 - i].wr.count(g)) { bool dup = false; for (uint32_t j = 0; j < sh_->nS; j++) dup |= sh_->S[j] == g; if (!dup && sh_->nS < 4000) sh_->S[sh_->nS++] = g; } sh_->newS = T[0].wr.size() + T[1].wr.size() + T[0].rd.size() + T[1].rd.size(); });
    acc_n += sh_->newS; for (int i = 0; i < 2; i++) if (!(sh_->d[i] == base[i])) viol("%s: the results of %s differ from those it gives alone when %s's calls come first", what.c_str(), TN[i], TN[first]);
  }
  for (uint32_t i = 0; i < sh_->nS; i++) { S.insert(sh_->S[i]); s_filter[fidx(sh_->S[i])] = 1; } s_any = !S.empty();
  for (int first = 0; first < 2; first++) { s_plan.clear(); explore(ps, first, bound, part, parts); }
  stat_add("states", n_sched); stat_add("transitions", n_ev); stat_add("schedules", n_sched); stat_add("shared_locations", S.size()); stat_add("locations_accessed", acc_n / 2); if (capped) stat_add("jobs_capped", 1);
  sample("%s: %zu conflicting 8-byte locations, %llu schedules with at most %u preemptions", what.c_str(), S.size(), (ull)n_sched, bound);
}
// ---- whole calls of several keys in every order, in one thread
static void c12_q(const Args &a) { // Q mode related script spec+impl...
  wots_mode = atoi(a[1].c_str()); unsigned rel = arg_u(a, 2) & 7, near = arg_u(a, 2) >> 3; std::string script = a[3]; std::vector<std::pair<const Impl *, P>> ks; for (size_t i = 4; i + 1 < a.size(); i += 2) ks.push_back({&impl_of(a[i + 1][0]), parse_spec(a[i])}); size_t K = ks.size(), L = script.size(); op_limit(0); sh_ = (Shared *)shm(sizeof(Shared)); paint_on = false; o_stub = true;
  in_child([&] { sh_->ab = abstract_ok(); }); if (wots_mode >= W_AWOTS && !sh_->ab) { stat_add("skipped_jobs", 1); return; }
  // seeds: bit j of rel set: the keys share the j-th third of what key generation draws; near: the other thirds differ in one byte only (1 last, 2 first, 3 middle)
  std::vector<int> order(K * L); std::vector<Dig> b(K); std::string names; for (auto &k : ks) names += std::string(k.first->name) + " " + k.second.name + ", ";
  auto go = [&](const std::vector<int> &ord, Dig *out) { std::vector<Sub> s; std::vector<size_t> at(K), pos(K); for (auto &k : ks) s.emplace_back(*k.first, k.second); for (size_t i = 0; i < K; i++) out[i] = Dig(); int c = 0;
    ent.fn = [&](int r, uint8_t *bb, uint64_t n) -> long { if (!r) return 1000; for (uint64_t i = 0; i < n; i++, pos[c]++) { unsigned third = pos[c] / ks[c].second.n; unsigned kn = ks[c].second.n, at_ = pos[c] % kn; bool same = third < 3 && (rel >> third & 1); bb[i] = ent_byte(same || (near && third < 3) ? 500 + third : 600 + c * 8 + third, at_); if (near && !same && third < 3 && at_ == (near == 1 ? kn - 1 : near == 2 ? 0 : kn / 2)) bb[i] ^= 1 + c; } return n; };
    for (int k : ord) { c = k; char o = script[at[k]++]; Sub &x = s[k]; EnvV e = ENVS[0]; if (o == 'g') x.gen(e, &out[k]); else if (o == 's') x.sg(e, message(at[k], 40), &out[k], false); else if (o == 'o') x.op(e, x.sm, &out[k]); else if (o == 'x') { bytes z(x.sm); z[ks[k].second.idxb + 3] ^= 2; x.op(e, z, &out[k]); } } };
  for (size_t i = 0; i < K; i++) { in_child([&] { set_op("%s: key %zu alone", names.c_str(), i); go(std::vector<int>(L, i), sh_->d); }); b[i] = sh_->d[i]; }
  std::vector<int> ord; for (size_t i = 0; i < K; i++) for (size_t j = 0; j < L; j++) ord.push_back(i); uint64_t n = 0;
  do { in_child([&] { std::string o; for (int k : ord) o += TN[k]; set_op("keys %s scripts \"%s\" in the order %s", names.c_str(), script.c_str(), o.c_str()); go(ord, sh_->d); for (size_t i = 0; i < K; i++) if (!(sh_->d[i] == b[i])) viol("keys %s calls \"%s\" each (g key generation, s sign, o verify, x verify altered) in the order %s: the results of key %s differ from those it gives alone", names.c_str(), script.c_str(), o.c_str(), TN[i]); }); n++; } while (std::next_permutation(ord.begin(), ord.end()));
  stat_add("states", n * K * L); stat_add("transitions", n * K * L); stat_add("call_orders", n); sample("%s \"%s\": %llu orders of whole calls", names.c_str(), script.c_str(), (ull)n);
}
// ---- one-time-signature calls on nearly equal keys, every call directly before every other
static void c12_w(const Args &a) { // W implX specA specB...: keys of the given shapes; seeds equal but for one byte
  const Impl &I = impl_of(a[1][0]); wots_mode = W_CONCRETE; op_limit(0); sh_ = (Shared *)shm(sizeof(Shared)); paint_on = false;
  struct Op { P p; xmss_params rp; bytes seed, pub, m; int what; std::string name; }; std::vector<Op> ops;
  for (size_t q = 2; q < a.size(); q++) { P p = parse_spec(a[q]); xmss_params rp = repo_params(I, p);
    for (int v = 0; v < 8; v++) { if (q > 2 && v > 1) break; bytes seed(p.n), pub(p.n); for (unsigned i = 0; i < p.n; i++) seed[i] = ent_byte(500, i), pub[i] = ent_byte(502, i); size_t at[3] = {0, p.n / 2, p.n - 1}; std::string kn = "key K";
      if (v >= 1 && v <= 3) { pub[at[3 - v]] ^= 1; kn = js("key K with byte %zu of its public seed changed", at[3 - v]); } else if (v >= 4 && v <= 6) { seed[at[6 - v]] ^= 1; kn = js("key K with byte %zu of its secret seed changed", at[6 - v]); } else if (v == 7) { for (auto &b : seed) b ^= 0x55; for (auto &b : pub) b ^= 0x33; kn = "another key"; }
      for (int what = 0; what < 8; what++) { Op o; o.p = p; o.rp = rp; o.seed = seed; o.pub = pub; o.what = what < 2 ? what : 2 + (what & 1); o.m.assign(p.n, 0); unsigned t = what / 2; for (unsigned i = 0; i < p.n; i++) o.m[i] = t == 1 ? (p.w == 256 ? 1 : p.w == 16 ? 0x11 : 0x55) : t == 2 ? 0xff : i * 37 + 11;
        static const char *on[] = {"one-time key generation", "leaf", "one-time signature", "one-time verification"}; o.name = js("%s (%s, %s)", on[o.what], a[q].c_str(), kn.c_str()); if (o.what >= 2) o.name += js(", message %s", t == 1 ? "with all digits small" : t == 2 ? "with all digits maximal" : "with mixed digits"); ops.push_back(o); } } }
  auto run = [&](const Op &o, Dig &d) { d = Dig(); uint32_t ad[8] = {1, 0, 2, 0, 3, 0, 0, 0}, la[8] = {1, 0, 2, 1, 3, 0, 0, 0}; size_t L = o.p.len * o.p.n; static bytes out, sig; out.assign(o.what == 1 ? o.p.n : L, 0); 
    if (o.what == 0) I.wots_pkgen(&o.rp, out.data(), o.seed.data(), o.pub.data(), ad); else if (o.what == 1) I.gen_leaf_wots(&o.rp, out.data(), o.seed.data(), o.pub.data(), la, ad); else if (o.what == 2) I.wots_sign(&o.rp, out.data(), o.m.data(), o.seed.data(), o.pub.data(), ad); else { sig = message(77, L); I.wots_pk_from_sig(&o.rp, out.data(), sig.data(), o.m.data(), o.pub.data(), ad); }
    d.add(out.data(), out.size()); };
  std::vector<Dig> alone(ops.size()); for (size_t i = 0; i < ops.size(); i++) { in_child([&] { set_op("%s %s, alone", I.name, ops[i].name.c_str()); run(ops[i], sh_->d[0]); }); alone[i] = sh_->d[0]; }
  uint64_t n = 0; for (size_t y = 0; y < ops.size(); y++) { in_child([&] { op_limit(300); for (size_t x = 0; x < ops.size(); x++) { Dig d; set_op("%s %s, then %s", I.name, ops[y].name.c_str(), ops[x].name.c_str()); run(ops[y], d); if (!(d == alone[y])) viol("%s: %s gives another result than alone, after calls on other keys", I.name, ops[y].name.c_str()); run(ops[x], d); if (!(d == alone[x])) viol("%s: %s gives another result directly after %s than alone", I.name, ops[x].name.c_str(), ops[y].name.c_str()); } }); n += ops.size(); }
  stat_add("states", n); stat_add("transitions", 2 * n); stat_add("call_orders", n); sample("%s: %zu one-time-signature calls on nearly equal keys, each directly before each", I.name, ops.size());
}
static Reg c12("C12", {[](bool th, Out out) {
  bool ab = abstract_ok(); 
  std::vector<std::pair<P, P>> prs = {{custom(0, 24, 4, 4, 2), custom(0, 24, 4, 4, 2)}, {custom(0, 32, 32, 4, 2), custom(1, 32, 32, 3, 1)}, {custom(2, 64, 64, 3, 1), custom(0, 64, 64, 6, 3)}, {custom(0, 32, 32, 4, 2, 4), custom(0, 24, 4, 4, 2, 256)}, {custom(2, 24, 4, 4, 2), custom(2, 32, 32, 4, 2)}, {custom(1, 32, 32, 6, 3), custom(1, 32, 32, 6, 3)}};
  std::vector<std::array<const char *, 4>> ops = {{"s", "s", "f", "f"}, {"s", "s", "n", "n"}, {"s", "o", "f", "f"}, {"s", "x", "n", "n"}, {"o", "x", "f", "f"}, {"g", "s", "f", "f"}, {"g", "o", "n", "n"}, {"g", "g", "f", "f"}, {"g", "g", "n", "n"}, {"ss", "ss", "f", "f"}, {"e", "s", "f", "f"}, {"e", "e", "n", "n"}, {"o", "o", "n", "n"}, {"xs", "so", "f", "f"}};
  // fine: every conflicting access; code run as it is
  for (auto &q : prs) for (auto &o : ops) out(3, js("@race T %s %s %s %s %s %s %d 0 %d 3", q.first.str().c_str(), o[2], o[0], q.second.str().c_str(), o[3], o[1], W_CONCRETE, th ? 2 : 1));
  if (ab) for (auto &q : prs) if (q.first.w == 16 && q.second.w == 16) for (auto &o : ops) out(2, js("@race T %s %s %s %s %s %s %d 0 2 3", q.first.str().c_str(), o[2], o[0], q.second.str().c_str(), o[3], o[1], W_AWOTS));
  for (const char *sp : {"x:1", "m:1", "x:7", "m:33", "x:16"}) for (auto &o : ops) { if (!ab) break; bool nv = o[2][0] == 'n'; if ((nv || sp[0] == 'x') && strpbrk(o[0], "g") && !th) continue; out(4, js("@race T %s %s %s %s %s %s %d 0 1 2", sp, o[2], o[0], sp[0] == 'm' ? "x:1" : "m:1", o[3], o[1], W_AWOTS)); }
  // coarse: every hash call is a possible preemption
  if (ab) for (size_t i = 0; i < (th ? prs.size() : 1); i++) for (auto &o : ops) if (prs[i].first.w == 16 && prs[i].second.w == 16) { bool two = th && !(o[0][0] == 'g' && o[1][0] == 'g') && strlen(o[0]) == 1; for (unsigned k = 0; k < (two ? 8u : 1u); k++) out(two ? 200 : 4, js("@race T %s %s %s %s %s %s %d 1 %d 3 %u %u", prs[i].first.str().c_str(), o[2], o[0], prs[i].second.str().c_str(), o[3], o[1], W_AWOTS, two ? 2 : 1, k, two ? 8 : 1)); }
  for (auto &o : ops) if (strlen(o[0]) == 1) { P p = custom(0, 24, 4, 2, 1, 16), q = custom(0, 24, 4, 4, 2, 16); if (th) for (unsigned i = 0; i < 8; i++) out(60, js("@race T %s %s %s %s %s %s %d 1 1 3 %u 8", q.str().c_str(), o[2], o[0], q.str().c_str(), o[3], o[1], W_CONCRETE, i)); else if (o[2][0] == 'f' && o[0][0] != 'g') out(20, js("@race T %s %s %s %s %s %s %d 1 1 3", p.str().c_str(), o[2], o[0], p.str().c_str(), o[3], o[1], W_CONCRETE)); }
  // the entry points for named parameter sets, two different single-tree or two different multi-tree sets
  static const char *two[][2] = {{"m:1", "m:33"}, {"x:1", "x:7"}, {"m:17", "m:1"}, {"x:4", "x:16"}, {"m:2", "m:2"}, {"x:10", "x:10"}};
  for (auto &q : two) for (auto &o : ops) { if (!ab) break; if (strpbrk(o[0], "g") && !th && (o[2][0] == 'n' || q[0] == std::string("x:10") || q[0] == std::string("x:4"))) continue; out(4, js("@race T %s %s %s %s %s %s %d 0 1 2", q[0], o[2], o[0], q[1], o[3], o[1], W_AWOTS)); }
  for (char t : {'n', 'f'}) { for (auto &p : {custom(0, 32, 32, 3, 1), custom(0, 24, 4, 3, 1), custom(2, 32, 32, 3, 1), custom(1, 64, 64, 3, 1), custom(0, 32, 32, 3, 1, 4)}) { if (!th && p.n == 64) continue; out(15, js("W %c %s", t, p.str().c_str())); }
    out(15, js("W %c %s %s %s %s", t, custom(0, 32, 32, 3, 1).str().c_str(), custom(2, 32, 32, 3, 1).str().c_str(), custom(0, 24, 4, 3, 1).str().c_str(), custom(0, 32, 32, 3, 1, 256).str().c_str())); }
  // whole calls
  P A = custom(0, 32, 32, 4, 2), B = custom(2, 64, 64, 6, 3), C = custom(0, 24, 4, 3, 1), D = custom(0, 32, 32, 6, 2), E = custom(1, 32, 32, 4, 2);
  int m = ab ? W_AWOTS : W_CONCRETE;
  for (char t : {'n', 'f'}) for (unsigned rel = 0; rel < 7; rel++) { out(5, js("Q %d %u gssos %s %c %s %c", m, rel, A.str().c_str(), t, A.str().c_str(), t)); out(5, js("Q %d %u gsosx %s %c %s %c", m, rel, A.str().c_str(), t, D.str().c_str(), t)); out(5, js("Q %d %u gsosx %s %c %s %c", m, rel, A.str().c_str(), t, E.str().c_str(), t)); if (th || rel == 0) out(30, js("Q %d %u %s %s %c %s %c %s %c", m, rel, ab || th ? "gso" : "gs", A.str().c_str(), t, B.str().c_str(), t, C.str().c_str(), t)); out(6, js("Q %d %u gsos %s %c %s %c", W_CONCRETE, rel, C.str().c_str(), t, A.str().c_str(), t)); if (th || (rel & rel - 1) == 0) out(20, js("Q %d %u %s %s %c %s %c %s %c", m, rel, ab || th ? "gss" : "gs", A.str().c_str(), t, A.str().c_str(), t, A.str().c_str(), t)); }
  for (char t : {'n', 'f'}) for (unsigned near = 1; near < 4; near++) for (unsigned rel = 0; rel < 7; rel++) { P F = custom(0, 32, 32, 3, 1), G = custom(0, 24, 4, 2, 1), H = custom(2, 32, 32, 2, 1), M = custom(0, 32, 32, 4, 2); if (!th && rel && rel != 3 && rel != 5 && rel != 6 && !(rel == 4 && near == 1)) continue; unsigned r = rel | near << 3;
    out(8, js("Q %d %u gsos %s %c %s %c", W_CONCRETE, r, C.str().c_str(), t, C.str().c_str(), t)); out(8, js("Q %d %u gsos %s %c %s %c", W_CONCRETE, r, F.str().c_str(), t, F.str().c_str(), t)); out(3, js("Q %d %u gso %s %c %s %c", W_CONCRETE, r, H.str().c_str(), t, H.str().c_str(), t)); out(3, js("Q %d %u gso %s %c %s %c", W_CONCRETE, r, G.str().c_str(), t, H.str().c_str(), t)); out(5, js("Q %d %u gss %s %c %s %c", W_CONCRETE, r, M.str().c_str(), t, M.str().c_str(), t)); out(5, js("Q %d %u gssos %s %c %s %c", m, r, A.str().c_str(), t, A.str().c_str(), t)); if (th) { P X = custom(0, 64, 64, 2, 1), Y = custom(1, 32, 32, 2, 1), Z = custom(2, 24, 4, 2, 1), U = custom(2, 64, 64, 2, 1); for (auto &q : {X, Y, Z, U}) out(6, js("Q %d %u gsos %s %c %s %c", W_CONCRETE, r, q.str().c_str(), t, q.str().c_str(), t)); } }
  if (th) for (char t : {'n', 'f'}) for (unsigned rel = 0; rel < 7; rel++) out(100, js("Q %d %u gsos %s %c %s %c %s %c", m, rel, A.str().c_str(), t, E.str().c_str(), t, A.str().c_str(), t));
}, [](const Args &a) { if (a[0] == "T") c12_t(a); else if (a[0] == "W") c12_w(a); else c12_q(a); }});
