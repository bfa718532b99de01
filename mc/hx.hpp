// Common harness: the two implementations under test, interposed environment, reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unordered_map>
#include <array>
extern "C" {
#include "params.h"
#include "xmss.h"
#include "xmss_core.h"
#include "xmss_commons.h"
#include "wots.h"
#include "fips202.h"
#include "randombytes.h"
#include "utils.h"
#include "hash_address.h"
}
typedef std::vector<uint8_t> bytes;
typedef unsigned long long ull;

#define VP_API(X) X(xmss_keypair) X(xmss_sign) X(xmss_sign_open) X(xmssmt_keypair) X(xmssmt_sign) X(xmssmt_sign_open) \
  X(xmss_core_keypair) X(xmss_core_sign) X(xmss_core_sign_open) X(xmssmt_core_keypair) X(xmssmt_core_sign) X(xmssmt_core_sign_open) \
  X(xmss_parse_oid) X(xmssmt_parse_oid) X(xmss_str_to_oid) X(xmssmt_str_to_oid) X(xmss_xmssmt_initialize_params) \
  X(wots_pkgen) X(wots_sign) X(wots_pk_from_sig) X(shake128) X(shake256) X(randombytes) X(gen_leaf_wots)
#define DECL(f) extern "C" decltype(f) n_##f; extern "C" decltype(f) f_##f;
#ifndef VP_OWN_PROTOTYPES
VP_API(DECL)
#endif
#undef DECL
struct Impl {
  const char *name; char tag;
#define FLD(f) decltype(&::f) f;
  VP_API(FLD)
#undef FLD
};
extern const Impl NAIVE, FAST;
inline const Impl &impl_of(char t) { return t == 'n' ? NAIVE : FAST; }

// ---- independent description of a parameter set -------------------------------------------------
struct P {
  bool mt = false; uint32_t oid = 0; std::string name; // oid 0: custom
  unsigned func = 0, n = 32, pad = 32, h = 10, d = 1, w = 16, k = 0;
  unsigned logw, len1, len2, len, th, idxb, sig, pkb;
  void derive();
  uint64_t last() const { return (h >= 64) ? ~0ull : ((1ull << h) - 1); } // highest one-time index
  // number of signatures a key may make
  uint64_t capacity() const { return h == 8 * idxb ? last() : last() + 1; }
  std::string str() const;
};
const std::vector<P> &official(); // all 21 + 56
P official_by_oid(bool mt, uint32_t oid);
P custom(unsigned func, unsigned n, unsigned pad, unsigned h, unsigned d, unsigned w = 16, unsigned k = 0);
P parse_spec(const std::string &s); // "x:OID" "m:OID" "c:func,n,pad,h,d,w,k"
xmss_params repo_params(const Impl &I, const P &p); // via the code under test

// ---- environment --------------------------------------------------------------------------------
enum { W_CONCRETE = 0, W_MEMO = 1, W_AWOTS = 2, W_ALEAF = 3 };
extern int wots_mode;
extern bool shims_ok; // all one-time-signature entry points are interposable
extern uint64_t c_hash, c_leaf, c_wsign, c_pkgen; // calls since last reset
typedef void (*hash_hook_t)(int kind, const uint8_t *in, uint64_t inlen, uint8_t *out, uint64_t outlen, int phase);
extern hash_hook_t hash_hook; // kind: 256,512 (SHA-2), -128,-256 (SHAKE); phase 0 before, 1 after
extern void (*wsign_hook)(const uint8_t *secret, const uint8_t *msg, unsigned n); // abstract one-time signatures computed
extern void (*point_hook)(int what); // coarse scheduling points: wots/leaf entry and exit
void memo_clear();
size_t memo_size();

struct Entropy {
  uint64_t seed = 1, pos = 0;                    // default stream
  bool scripted = false;
  std::vector<int> script; size_t at = 0;        // outcome per open/read call
  std::function<long(int is_read, uint8_t *buf, uint64_t n)> fn; // full control
  uint64_t opens = 0, reads = 0, sleeps = 0;
};
extern Entropy ent;
void ent_reset(uint64_t seed);
uint8_t ent_byte(uint64_t seed, uint64_t pos);

// ---- abstract one-time signatures, shared by shim and reference ----------------------------------
void aw_mix(const char *tag, std::initializer_list<std::pair<const void *, size_t>> in, uint8_t *out, size_t n);
void aw_secret(unsigned n, const uint8_t *seed, const uint8_t *pub, const uint32_t a[5], uint8_t *s);
void aw_pk(unsigned n, unsigned len, const uint8_t *s, const uint8_t *pub, const uint32_t a[5], uint8_t *pk);
void aw_sig(unsigned n, unsigned len, const uint8_t *s, const uint8_t *msg, uint8_t *sig);
void aw_leaf(unsigned n, const uint8_t *seed, const uint8_t *pub, const uint32_t lt[5], const uint32_t ot[5], uint8_t *leaf);

// ---- reporting ------------------------------------------------------------------------------------
void set_op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));    // describes the running operation
void viol(const char *fmt, ...) __attribute__((format(printf, 1, 2)));      // reports and exits the job
void stat_add(const char *key, uint64_t v);
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void flush_stats();
void guard_init();              // SIGSEGV & co => violation; per-operation CPU limit
void op_limit(double cpu_s);    // CPU budget for the next operations (0 = off)
void op_tick();                 // re-arm
std::string hex(const uint8_t *p, size_t n, size_t max = 32);
inline std::string hex(const bytes &b) { return hex(b.data(), b.size()); }
extern uint64_t vseed;

// ---- a key under test -----------------------------------------------------------------------------
struct Key {
  const Impl *I; P p; xmss_params rp; bytes pk, sk; unsigned off; // off: identifier bytes in front
  Key() : I(nullptr) {}
  Key(const Impl &i, const P &p);               // buffers allocated, filled with `fill`
  int keygen();                                 // through the public API (core API for custom shapes)
  int sign(const uint8_t *m, ull mlen, bytes &sm, ull &smlen); // sm resized to sig+mlen
  uint64_t idx() const; void set_idx(uint64_t);
  const uint8_t *sk_seed() const { return &sk[off + p.idxb]; }
  const uint8_t *sk_prf() const { return sk_seed() + p.n; }
  const uint8_t *sk_root() const { return sk_seed() + 2 * p.n; }
  const uint8_t *sk_pub() const { return sk_seed() + 3 * p.n; }
  const uint8_t *pk_root() const { return &pk[off]; }
  const uint8_t *pk_seed() const { return &pk[off + p.n]; }
};
int do_open(const Impl &I, const P &p, const xmss_params *rp, uint8_t *m, ull *mlen, const uint8_t *sm, ull smlen, const uint8_t *pk);
uint64_t be(const uint8_t *p, unsigned n);
void put_be(uint8_t *p, unsigned n, uint64_t v);
bytes message(uint64_t tag, ull mlen);
// ---- job registry ---------------------------------------------------------------------------------
typedef std::vector<std::string> Args;
struct Check { std::function<void(bool thorough, std::function<void(double, const std::string &)>)> jobs; std::function<void(const Args &)> run; };
std::map<std::string, Check> &registry();
struct Reg { Reg(const char *id, Check c) { registry()[id] = c; } };
uint64_t arg_u(const Args &a, size_t i, uint64_t dflt = 0);
