// A key handled through the public interface, with everything documented as output collected in a digest.
#pragma once
#include "guard.hpp"
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <malloc.h>
typedef std::function<void(double, const std::string &)> Out;
inline bool paint_on = true;
inline bool mode_ok(int m) { if (m >= W_AWOTS && !abstract_ok()) { stat_add("skipped_jobs", 1); return false; } return true; }
// fill what lies below the stack pointer
static inline void __attribute__((noinline)) paint(int v) {
  if (!paint_on) return;
  volatile uint8_t *b = (volatile uint8_t *)__builtin_alloca(640 << 10); if (v < 0) for (size_t i = 0; i < (640 << 10); i += 8) *(volatile uint64_t *)(b + i) = i * 0x9E3779B97F4A7C15ull + v; else memset((void *)b, v, 640 << 10); asm volatile("" ::"r"(b) : "memory");
}
struct Dig { uint64_t a = 1, b = 2; void add(const void *p, size_t n) { uint64_t o[2]; aw_mix("o", {{&a, 8}, {&b, 8}, {p, n}}, (uint8_t *)o, 16); a = o[0]; b = o[1]; } void num(uint64_t v) { add(&v, 8); } bool operator==(const Dig &o) const { return a == o.a && b == o.b; } };
struct EnvV { int stack; uint8_t fill; unsigned align; }; // what must not matter
static const EnvV ENVS[] = {{0, 0, 0}, {0xFF, 0xFF, 1}, {-7, 0xA5, 8}, {0x01, 0x01, 3}, {0x80, 0x7F, 5}};
inline EnvV at(EnvV e, unsigned f, unsigned o) { e.align = (e.align * f + o) & 15; return e; } // another alignment for another buffer
struct Buf { bytes v; unsigned al; uint8_t *p; Buf(size_t n, const EnvV &e) : v(n + 32, e.fill), al(e.align) { p = &v[0] + (16 - (uintptr_t)&v[0] % 16) % 16 + al; } Buf(const bytes &b, const EnvV &e) : Buf(b.size(), e) { if (b.size()) memcpy(p, b.data(), b.size()); } };
struct Sub { // subject: one parameter set with one implementation
  const Impl &I; P p; xmss_params rp; unsigned off; Sub(const Impl &I, const P &p) : I(I), p(p) { off = p.oid ? 4 : 0; }
  void params() { rp = repo_params(I, p); }
  int keypair(uint8_t *pk, uint8_t *sk) { if (p.oid) return (p.mt ? I.xmssmt_keypair : I.xmss_keypair)(pk, sk, p.oid); return (p.d > 1 ? I.xmssmt_core_keypair : I.xmss_core_keypair)(&rp, pk, sk); }
  int sign(uint8_t *sk, uint8_t *sm, ull *sl, const uint8_t *m, ull ml) { if (p.oid) return (p.mt ? I.xmssmt_sign : I.xmss_sign)(sk, sm, sl, m, ml); return (p.d > 1 ? I.xmssmt_core_sign : I.xmss_core_sign)(&rp, sk, sm, sl, m, ml); }
  // operations; everything documented as output goes into the digest
  bytes pk, sk; // key as produced
  void gen(const EnvV &e, Dig *d) { params(); Buf a(off + rp.pk_bytes, e), b(off + rp.sk_bytes, e); paint(e.stack); int r = keypair(a.p, b.p); pk.assign(a.p, a.p + off + rp.pk_bytes); sk.assign(b.p, b.p + off + rp.sk_bytes); if (d) { d->num(r); d->add(pk.data(), pk.size()); d->add(sk.data(), off + p.idxb + 4 * p.n); } }
  bytes sm;
  int sg(const EnvV &e, const bytes &m, Dig *d, bool whole_key) { params(); Buf k(sk, e), mm(m, at(e, 3, 1)), s(p.sig + m.size(), at(e, 5, 2)); ull sl = 0x5555; paint(e.stack); int r = sign(k.p, s.p, &sl, mm.p, m.size()); sk.assign(k.p, k.p + sk.size()); if (r == 0) sm.assign(s.p, s.p + p.sig + m.size()); if (d) { d->num(r); if (r == 0) { d->num(sl); d->add(s.p, p.sig + m.size()); } d->add(sk.data(), whole_key ? sk.size() : std::min<size_t>(sk.size(), off + p.idxb + 4 * p.n)); } return r; }
  int op(const EnvV &e, const bytes &s, Dig *d) { params(); Buf k(pk, at(e, 3, 1)), i(s, e), o(s.size() + 1, at(e, 5, 2)); ull ol = 0x7777; paint(e.stack); int r = do_open(I, p, &rp, o.p, &ol, i.p, s.size(), k.p); if (d) { d->num(r); d->num(ol); if (r == 0) d->add(o.p, ol); } return r; }
};
inline void parent_reports(int st) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 7)) { flush_stats(); fflush(stdout); _exit(0); } }
template <class T> inline void child(T *shared, std::function<void(T &)> f) { (void)shared; fflush(stdout); pid_t c = fork(); if (!c) { guard_init(); f(*shared); fflush(stdout); _exit(7); } int st; waitpid(c, &st, 0); parent_reports(st); }
inline void *shm(size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
