#include "hx.hpp"
#include "prim.hpp"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <algorithm>
#define INI(f) n_##f,
const Impl NAIVE = {"naive", 'n', VP_API(INI)};
#undef INI
#define INI(f) f_##f,
const Impl FAST = {"fast", 'f', VP_API(INI)};
#undef INI
// ------------------------------------------------------------------------------------------- params
void P::derive() {
  logw = w == 4 ? 2 : w == 16 ? 4 : 8; len1 = 8 * n / logw; unsigned m = len1 * (w - 1); len2 = 0; while (m) { len2++; m >>= logw; }
  len = len1 + len2; th = h / d; idxb = d == 1 ? 4 : (h + 7) / 8; sig = idxb + n + d * len * n + h * n; pkb = 2 * n;
}
std::string P::str() const {
  char b[100]; if (oid) snprintf(b, sizeof b, "%c:%u", mt ? 'm' : 'x', oid); else snprintf(b, sizeof b, "c:%u,%u,%u,%u,%u,%u,%u", func, n, pad, h, d, w, k); return b;
}
const std::vector<P> &official() {
  static std::vector<P> v; if (!v.empty()) return v;
  struct Fam { const char *nm; unsigned bits, func, n, pad; };
  // order of the registries: RFC 8391 first, then SP 800-208
  static const Fam F[7] = {{"SHA2", 256, 0, 32, 32}, {"SHA2", 512, 0, 64, 64}, {"SHAKE", 256, 1, 32, 32}, {"SHAKE", 512, 2, 64, 64},
                           {"SHA2", 192, 0, 24, 4}, {"SHAKE256", 256, 2, 32, 32}, {"SHAKE256", 192, 2, 24, 4}};
  char b[80]; uint32_t o = 1;
  for (auto &f : F) for (unsigned h : {10u, 16u, 20u}) { P p; p.oid = o++; p.func = f.func; p.n = f.n; p.pad = f.pad; p.h = h; p.d = 1; snprintf(b, sizeof b, "XMSS-%s_%u_%u", f.nm, h, f.bits); p.name = b; p.derive(); v.push_back(p); }
  o = 1; static const unsigned S[8][2] = {{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}};
  for (auto &f : F) for (auto &s : S) { P p; p.mt = true; p.oid = o++; p.func = f.func; p.n = f.n; p.pad = f.pad; p.h = s[0]; p.d = s[1]; snprintf(b, sizeof b, "XMSSMT-%s_%u/%u_%u", f.nm, s[0], s[1], f.bits); p.name = b; p.derive(); v.push_back(p); }
  return v;
}
P official_by_oid(bool mt, uint32_t oid) { for (auto &p : official()) if (p.mt == mt && p.oid == oid) return p; fprintf(stderr, "no such set\n"); _exit(3); }
P custom(unsigned func, unsigned n, unsigned pad, unsigned h, unsigned d, unsigned w, unsigned k) {
  P p; p.func = func; p.n = n; p.pad = pad; p.h = h; p.d = d; p.w = w; p.k = k; p.mt = d > 1; p.derive(); p.name = p.str(); return p;
}
P parse_spec(const std::string &s) {
  if (s[0] == 'x' || s[0] == 'm') return official_by_oid(s[0] == 'm', strtoul(s.c_str() + 2, 0, 10));
  unsigned v[7]; if (sscanf(s.c_str(), "c:%u,%u,%u,%u,%u,%u,%u", v, v+1, v+2, v+3, v+4, v+5, v+6) != 7) { fprintf(stderr, "bad spec %s\n", s.c_str()); _exit(3); }
  return custom(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
}
xmss_params repo_params(const Impl &I, const P &p) {
  xmss_params r; memset(&r, 0, sizeof r);
  if (p.oid) { if ((p.mt ? I.xmssmt_parse_oid : I.xmss_parse_oid)(&r, p.oid)) viol("%s: parameter set %s (%u) not accepted", I.name, p.name.c_str(), p.oid); return r; }
  r.func = p.func; r.n = p.n; r.padding_len = p.pad; r.full_height = p.h; r.d = p.d; r.wots_w = p.w; r.bds_k = p.k;
  if (I.xmss_xmssmt_initialize_params(&r)) viol("%s: initialize_params failed for %s", I.name, p.str().c_str());
  return r;
}
uint64_t be(const uint8_t *p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
void put_be(uint8_t *p, unsigned n, uint64_t v) { for (unsigned i = 0; i < n; i++) p[n - 1 - i] = i < 8 ? (uint8_t)(v >> (8 * i)) : 0; }
// ------------------------------------------------------------------------------------- environment
int wots_mode = W_CONCRETE; bool shims_ok = true; uint64_t c_hash, c_leaf, c_wsign, c_pkgen; hash_hook_t hash_hook; void (*point_hook)(int); Entropy ent; uint64_t vseed = 1;
static inline uint64_t mixw(uint64_t a, uint64_t b) { unsigned __int128 r = (unsigned __int128)(a ^ 0x9E3779B97F4A7C15ull) * (b ^ 0xD1B54A32D192ED03ull); return (uint64_t)r ^ (uint64_t)(r >> 64); }
uint8_t ent_byte(uint64_t seed, uint64_t pos) { return mixw(mixw(seed, pos / 8 + 1), 0x1234567) >> (8 * (pos % 8)); }
void ent_reset(uint64_t seed) { ent = Entropy(); ent.seed = seed; }
extern "C" {
static long ent_read(int is_read, uint8_t *b, uint64_t n) {
  if (is_read) ent.reads++; else ent.opens++;
  if (ent.fn) return ent.fn(is_read, b, n);
  if (!is_read) return 1000;
  for (uint64_t i = 0; i < n; i++) b[i] = ent_byte(ent.seed, ent.pos++);
  return n;
}
int vp_open(const char *path, int flags, ...) {
  if (strstr(path, "random")) return ent_read(0, nullptr, 0);
  va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return open(path, flags, m);
}
int vp_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return vp_open(path, flags, m); }
int vp___open_2(const char *path, int flags) { return vp_open(path, flags, 0); }
int vp___open64_2(const char *path, int flags) { return vp_open(path, flags, 0); }
ssize_t vp_read(int fd, void *b, size_t n) { if (fd >= 1000 && fd < 1100) return ent_read(1, (uint8_t *)b, n); return read(fd, b, n); }
ssize_t vp___read_chk(int fd, void *b, size_t n, size_t) { return vp_read(fd, b, n); }
int vp_close(int fd) { if (fd >= 1000 && fd < 1100) return 0; return close(fd); }
unsigned vp_sleep(unsigned) { ent.sleeps++; return 0; }
int vp_usleep(unsigned) { ent.sleeps++; return 0; }
int vp_nanosleep(const struct timespec *, struct timespec *) { ent.sleeps++; return 0; }
ssize_t vp_getrandom(void *b, size_t n, unsigned) { return ent_read(1, (uint8_t *)b, n); }
int vp_getentropy(void *b, size_t n) { uint8_t *p = (uint8_t *)b; while (n) { long r = ent_read(1, p, n); if (r < 0) return -1; p += r; n -= r; } return 0; }
void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
#define RANGE(d, n, md, ol) do { if (__asan_region_is_poisoned && (__asan_region_is_poisoned((void *)(d), n) || __asan_region_is_poisoned(md, ol))) viol("a hash call reads or writes outside its buffer (input of %zu bytes)", (size_t)(n)); } while (0)
unsigned char *vp_SHA256(const unsigned char *d, size_t n, unsigned char *md) {
  static unsigned char st[64]; if (!md) md = st; c_hash++; RANGE(d, n, md, 32);
  if (hash_hook) hash_hook(256, d, n, md, 32, 0);
  o_sha256(d, n, md);
  if (hash_hook) hash_hook(256, d, n, md, 32, 1);
  return md;
}
unsigned char *vp_SHA512(const unsigned char *d, size_t n, unsigned char *md) {
  static unsigned char st[64]; if (!md) md = st; c_hash++; RANGE(d, n, md, 64);
  if (hash_hook) hash_hook(512, d, n, md, 64, 0);
  o_sha512(d, n, md);
  if (hash_hook) hash_hook(512, d, n, md, 64, 1);
  return md;
}
// the incremental interface: the input is gathered (in the caller's context, so that contexts can be copied and kept), and hashed at the end
int SHA256_Init(void *); int SHA256_Update(void *, const void *, size_t); int SHA256_Final(unsigned char *, void *);
int SHA512_Init(void *); int SHA512_Update(void *, const void *, size_t); int SHA512_Final(unsigned char *, void *);
}
struct HSlot { uint64_t gen = 0; std::vector<uint8_t> v; bool real = false; alignas(16) uint8_t ctx[256]; };
template <size_t CAP> struct __attribute__((packed)) HCtx { uint64_t magic, len; union { uint8_t in[CAP]; struct __attribute__((packed)) { uint64_t slot, gen; } s; }; };
static thread_local HSlot hslot[64]; static thread_local uint64_t hgen;
template <size_t CAP> static int h_update(HCtx<CAP> *c, const void *d, size_t n, int (*ri)(void *), int (*ru)(void *, const void *, size_t)) {
  if (c->magic != 0x1C1C1C1C) viol("a hash context is used before it is initialised"); if (!n) return 1;
  if (c->len + n <= CAP) { memcpy(c->in + c->len, d, n); c->len += n; return 1; }
  HSlot *s; const uint8_t *p = (const uint8_t *)d;
  if (c->len <= CAP) { s = &hslot[++hgen % 64]; s->gen = hgen; s->real = false; s->v.assign(c->in, c->in + c->len); c->s.slot = hgen % 64; c->s.gen = hgen; }
  else { s = &hslot[c->s.slot]; if (s->gen != c->s.gen) exit(3); if (s->real ? memcmp(s->ctx + 248, &c->len, 8) != 0 : s->v.size() != c->len) { if (s->real) exit(3); std::vector<uint8_t> t(s->v.begin(), s->v.begin() + c->len); s = &hslot[++hgen % 64]; s->gen = hgen; s->real = false; s->v.swap(t); c->s.slot = hgen % 64; c->s.gen = hgen; } }
  c->len += n; if (!s->real && c->len > (64u << 20)) { s->real = true; ri(s->ctx); ru(s->ctx, s->v.data(), s->v.size()); std::vector<uint8_t>().swap(s->v); }
  if (s->real) { ru(s->ctx, d, n); memcpy(s->ctx + 248, &c->len, 8); } else s->v.insert(s->v.end(), p, p + n);
  return 1;
}
template <size_t CAP> static int h_final(HCtx<CAP> *c, unsigned char *md, unsigned char *(*f)(const unsigned char *, size_t, unsigned char *), int (*rf)(unsigned char *, void *)) {
  if (c->magic != 0x1C1C1C1C) viol("a hash context is used before it is initialised");
  if (c->len <= CAP) { uint8_t b[CAP]; memcpy(b, c->in, c->len); f(b, c->len, md); } else { HSlot &s = hslot[c->s.slot]; if (s.gen != c->s.gen) exit(3); if (s.real) { c_hash++; rf(md, s.ctx); } else { std::vector<uint8_t> b(s.v.begin(), s.v.begin() + c->len); f(b.data(), b.size(), md); } }
  memset((void *)c, 0, sizeof *c); return 1;
}
typedef HCtx<96> HC256; typedef HCtx<200> HC512; static_assert(sizeof(HC256) <= 112 && sizeof(HC512) <= 216, "");
extern "C" {
int vp_SHA256_Init(void *c) { ((HC256 *)c)->magic = 0x1C1C1C1C; ((HC256 *)c)->len = 0; return 1; }
int vp_SHA256_Update(void *c, const void *d, size_t n) { return h_update((HC256 *)c, d, n, SHA256_Init, SHA256_Update); }
int vp_SHA256_Final(unsigned char *md, void *c) { return h_final((HC256 *)c, md, vp_SHA256, SHA256_Final); }
int vp_SHA512_Init(void *c) { ((HC512 *)c)->magic = 0x1C1C1C1C; ((HC512 *)c)->len = 0; return 1; }
int vp_SHA512_Update(void *c, const void *d, size_t n) { return h_update((HC512 *)c, d, n, SHA512_Init, SHA512_Update); }
int vp_SHA512_Final(unsigned char *md, void *c) { return h_final((HC512 *)c, md, vp_SHA512, SHA512_Final); }
}
// ---- abstract one-time signatures
void aw_mix(const char *tag, std::initializer_list<std::pair<const void *, size_t>> in, uint8_t *out, size_t n) {
  uint64_t a = 0x243F6A8885A308D3ull, b = 0x13198A2E03707344ull; a ^= (uint64_t)(uint8_t)tag[0] << 32;
  for (auto &x : in) { const uint8_t *p = (const uint8_t *)x.first; size_t l = x.second; b += l;
    while (l >= 8) { uint64_t v; memcpy(&v, p, 8); uint64_t t = mixw(a ^ v, b + 0x5851F42D4C957F2Dull); b = mixw(b + v, a ^ 0x14057B7EF767814Full) + t; a = t; p += 8; l -= 8; }
    if (l) { uint64_t v = 0; memcpy(&v, p, l); uint64_t t = mixw(a ^ v, b + 0x5851F42D4C957F2Dull); b = mixw(b + v, a ^ 0x14057B7EF767814Full) + t; a = t; } }
  for (size_t i = 0; i < n; i += 8) { uint64_t v = mixw(a + i, b ^ 0x94D049BB133111EBull); memcpy(out + i, &v, n - i < 8 ? n - i : 8); }
}
void aw_secret(unsigned n, const uint8_t *seed, const uint8_t *pub, const uint32_t a[5], uint8_t *s) { aw_mix("s", {{seed, n}, {pub, n}, {a, 20}}, s, n); }
void aw_pk(unsigned n, unsigned len, const uint8_t *s, const uint8_t *pub, const uint32_t a[5], uint8_t *pk) { aw_mix("p", {{s, n}, {pub, n}, {a, 20}}, pk, n); memset(pk + n, 0x11, (size_t)(len - 1) * n); }
void aw_sig(unsigned n, unsigned len, const uint8_t *s, const uint8_t *msg, uint8_t *sig) { memcpy(sig, s, n); memcpy(sig + n, msg, n); memset(sig + 2 * n, 0xEE, (size_t)(len - 2) * n); }
void aw_leaf(unsigned n, const uint8_t *seed, const uint8_t *pub, const uint32_t lt[5], const uint32_t ot[5], uint8_t *leaf) { aw_mix("l", {{seed, n}, {pub, n}, {lt, 20}, {ot, 20}}, leaf, n); }
#if !(HAVE_SHIM_gen_leaf_wots && HAVE_SHIM_wots_pkgen && HAVE_SHIM_wots_sign && HAVE_SHIM_wots_pk_from_sig)
#define VP_NO_WOTS_SHIM 1
#endif
// -------------------------------------------------------------------------------------- reporting
static char curop[900]; static std::map<std::string, uint64_t> stats; static double oplim = 0;
void flush_stats() { for (auto &s : stats) printf("STAT %s %llu\n", s.first.c_str(), (ull)s.second); stats.clear(); fflush(stdout); }
void set_op(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(curop, sizeof curop, f, a); va_end(a); op_tick(); }
void viol(const char *f, ...) { char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); for (char *c = b; *c; c++) if (*c == '\n') *c = ' ';
  flush_stats(); printf("VIOL %s [during: %s]\n", b, curop); fflush(stdout); _exit(0); }
void stat_add(const char *k, uint64_t v) { stats[k] += v; }
void sample(const char *f, ...) { static int n; if (n++ >= 3) return; char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); printf("SAMPLE %s\n", b); }
void note(const char *f, ...) { char b[1500]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); printf("NOTE %s\n", b); }
std::string hex(const uint8_t *p, size_t n, size_t mx) { std::string s; char b[3]; for (size_t i = 0; i < n && i < mx; i++) { snprintf(b, 3, "%02x", p[i]); s += b; } if (n > mx) s += "..(" + std::to_string(n) + ")"; return s; }
volatile uint32_t g_cur = 0;
static void on_sig(int s, siginfo_t *si, void *) {
  char b[1200]; int n; if (g_cur) snprintf(curop + strlen(curop), sizeof curop - strlen(curop), " (identifier %#x)", (unsigned)g_cur);
  if (s == SIGPROF) n = snprintf(b, sizeof b, "\nVIOL operation did not finish within its CPU budget of %.0f s [during: %s]\n", oplim, curop);
  else n = snprintf(b, sizeof b, "\nVIOL crash: signal %d (%s) at address %p [during: %s]\n", s, s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGABRT ? "SIGABRT" : "fatal", si ? si->si_addr : 0, curop);
  if (write(1, b, n) < 0) {} _exit(0);
}
// AddressSanitizer reports become violations (only in the asan build)
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char *__asan_get_report_description() __attribute__((weak));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0"; }
// index checks (-fsanitize=bounds) end here: the run time behind them knows nothing of the callback above
extern "C" void __ubsan_handle_out_of_bounds_abort(void *data, void *) { struct L { const char *file; uint32_t line, col; } *l = (L *)data; char b[1400]; const char *f = l->file ? strrchr(l->file, '/') : nullptr; int n = snprintf(b, sizeof b, "\nVIOL index out of bounds at %s:%u [during: %s]\n", f ? f + 1 : l->file ? l->file : "?", l->line, curop); if (write(1, b, n) < 0) {} _exit(1); }
static void on_death() { char b[1200]; const char *d = __asan_get_report_description ? __asan_get_report_description() : ""; int n = snprintf(b, sizeof b, "\nVIOL memory error reported by the sanitizer: %s [during: %s]\n", d && *d ? d : "index out of bounds", curop); if (write(1, b, n) < 0) {} }
void guard_init() {
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  static uint8_t *alt = (uint8_t *)malloc(1 << 17); stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 1 << 17; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, 0);
}
void op_limit(double s) { oplim = s; if (!s) { struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, 0); } else { struct itimerval z; memset(&z, 0, sizeof z); z.it_value.tv_sec = (long)s; setitimer(ITIMER_PROF, &z, 0); } }
void op_tick() { static unsigned c; if (oplim > 0 && (c++ % 16) == 0) op_limit(oplim); }
// -------------------------------------------------------------------------------------------- keys
Key::Key(const Impl &i, const P &pp) : I(&i), p(pp) {
  rp = repo_params(i, pp); off = p.oid ? 4 : 0; pk.assign(off + rp.pk_bytes, 0xA5); sk.assign(off + rp.sk_bytes, 0x5A);
}
int Key::keygen() {
  set_op("%s key generation, %s", I->name, p.name.c_str());
  if (p.oid) return (p.mt ? I->xmssmt_keypair : I->xmss_keypair)(pk.data(), sk.data(), p.oid);
  return (p.d > 1 ? I->xmssmt_core_keypair : I->xmss_core_keypair)(&rp, pk.data(), sk.data());
}
int Key::sign(const uint8_t *m, ull mlen, bytes &sm, ull &smlen) {
  sm.resize(rp.sig_bytes + mlen); smlen = ~0ull;
  if (p.oid) return (p.mt ? I->xmssmt_sign : I->xmss_sign)(sk.data(), sm.data(), &smlen, m, mlen);
  return (p.d > 1 ? I->xmssmt_core_sign : I->xmss_core_sign)(&rp, sk.data(), sm.data(), &smlen, m, mlen);
}
uint64_t Key::idx() const { return be(&sk[off], p.idxb); }
void Key::set_idx(uint64_t v) { put_be(&sk[off], p.idxb, v); }
int do_open(const Impl &I, const P &p, const xmss_params *rp, uint8_t *m, ull *mlen, const uint8_t *sm, ull smlen, const uint8_t *pk) {
  if (p.oid) return (p.mt ? I.xmssmt_sign_open : I.xmss_sign_open)(m, mlen, sm, smlen, pk);
  return (p.d > 1 ? I.xmssmt_core_sign_open : I.xmss_core_sign_open)(rp, m, mlen, sm, smlen, pk);
}
bytes message(uint64_t tag, ull n) { bytes b(n); for (ull i = 0; i < n; i++) b[i] = ent_byte(tag * 77 + 5 + vseed, i); return b; }
std::map<std::string, Check> &registry() { static std::map<std::string, Check> r; return r; }
uint64_t arg_u(const Args &a, size_t i, uint64_t d) { return i < a.size() ? strtoull(a[i].c_str(), 0, 0) : d; }
int main(int argc, char **argv) {
#ifdef VP_NO_WOTS_SHIM
  shims_ok = false;
#endif
  if (getenv("VERIF_SEED")) vseed = strtoull(getenv("VERIF_SEED"), 0, 10);
  if (argc < 3) { fprintf(stderr, "usage: mc jobs <check> <tier> | mc run <check> args..\n"); return 3; }
  auto &R = registry(); auto it = R.find(argv[2]); if (it == R.end()) { fprintf(stderr, "unknown check\n"); return 3; }
  if (!strcmp(argv[1], "jobs")) { it->second.jobs(argc > 3 && !strcmp(argv[3], "thorough"), [](double c, const std::string &s) { printf("%.1f\t%s\n", c, s.c_str()); }); return 0; }
  setvbuf(stdout, 0, _IOLBF, 1 << 16);
  if (!prim_selftest()) { fprintf(stderr, "oracle hash self-test failed\n"); return 3; }
  guard_init(); Args a(argv + 3, argv + argc); it->second.run(a); op_limit(0); flush_stats(); printf("DONE\n"); fflush(stdout); _exit(0);
}
