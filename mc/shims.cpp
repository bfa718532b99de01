// Stand-ins interposed at the one-time-signature and SHAKE entry points of the code under test. They use prototypes of
// their own, so that this tree's headers may declare the functions with other qualifiers.
#define VP_OWN_PROTOTYPES 1
#include "hx.hpp"
#include "prim.hpp"
#include <algorithm>
// ---- memo
typedef std::array<uint64_t, 4> MK; struct MKH { size_t operator()(const MK &k) const { return k[0]; } };
static std::unordered_map<MK, bytes, MKH> memo;
void (*wsign_hook)(const uint8_t *secret, const uint8_t *msg, unsigned n);
void memo_clear() { memo.clear(); } size_t memo_size() { return memo.size(); }
static MK mkey(uint8_t what, const xmss_params *p, std::initializer_list<std::pair<const void *, size_t>> in) {
  static thread_local bytes b; b.clear(); uint32_t h[6] = {what, p->func, p->n, p->wots_w, p->padding_len, p->wots_len}; b.insert(b.end(), (uint8_t *)h, (uint8_t *)(h + 6));
  for (auto &x : in) b.insert(b.end(), (const uint8_t *)x.first, (const uint8_t *)x.first + x.second);
  MK k; o_sha256(b.data(), b.size(), (uint8_t *)k.data()); return k;
}
#define PT() do { if (point_hook) point_hook(0); } while (0)
#define SHIMS(V) \
extern "C" { void V##real_gen_leaf_wots(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, uint32_t *, uint32_t *); void V##real_wots_pkgen(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, uint32_t *); \
void V##real_wots_sign(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, uint32_t *); void V##real_wots_pk_from_sig(const xmss_params *, unsigned char *, const unsigned char *, const unsigned char *, const unsigned char *, uint32_t *); } \
extern "C" void V##gen_leaf_wots(const xmss_params *p, unsigned char *leaf, const unsigned char *seed, const unsigned char *pub, uint32_t lt[8], uint32_t ot[8]) { \
  c_leaf++; PT(); \
  if (wots_mode == W_CONCRETE) { V##real_gen_leaf_wots(p, leaf, seed, pub, lt, ot); PT(); return; } \
  if (wots_mode == W_ALEAF) { aw_leaf(p->n, seed, pub, lt, ot, leaf); ot[5] = p->wots_len - 1; ot[6] = p->wots_w - 2; ot[7] = 1; lt[5] = 7; lt[6] = 0; lt[7] = 2; PT(); return; } \
  MK k = mkey(V##wid, p, {{seed, p->n}, {pub, p->n}, {lt, 32}, {ot, 32}}); auto it = memo.find(k); \
  if (it == memo.end()) { bytes v(p->n + 64); V##real_gen_leaf_wots(p, v.data(), seed, pub, lt, ot); memcpy(&v[p->n], lt, 32); memcpy(&v[p->n + 32], ot, 32); it = memo.emplace(k, std::move(v)).first; } \
  memcpy(leaf, it->second.data(), p->n); memcpy(lt, &it->second[p->n], 32); memcpy(ot, &it->second[p->n + 32], 32); PT(); } \
extern "C" void V##wots_pkgen(const xmss_params *p, unsigned char *pk, const unsigned char *seed, const unsigned char *pub, uint32_t a[8]) { \
  c_pkgen++; PT(); if (wots_mode < W_AWOTS) { V##real_wots_pkgen(p, pk, seed, pub, a); PT(); return; } \
  uint8_t s[64]; aw_secret(p->n, seed, pub, a, s); aw_pk(p->n, p->wots_len, s, pub, a, pk); a[5] = p->wots_len - 1; a[6] = p->wots_w - 2; a[7] = 1; PT(); } \
extern "C" void V##wots_sign(const xmss_params *p, unsigned char *sig, const unsigned char *msg, const unsigned char *seed, const unsigned char *pub, uint32_t a[8]) { \
  c_wsign++; PT(); \
  if (wots_mode >= W_AWOTS) { uint8_t s[64], m[64]; memcpy(m, msg, p->n); aw_secret(p->n, seed, pub, a, s); if (wsign_hook) wsign_hook(s, m, p->n); aw_sig(p->n, p->wots_len, s, m, sig); a[5] = p->wots_len - 1; a[6] = msg[0] & 15; a[7] = msg[0] & 1; PT(); return; } \
  if (wots_mode == W_MEMO && a[0] > 0) { MK k = mkey(V##wid + 1, p, {{msg, p->n}, {seed, p->n}, {pub, p->n}, {a, 32}}); auto it = memo.find(k); \
    if (it == memo.end()) { bytes v(p->wots_sig_bytes + 32); V##real_wots_sign(p, v.data(), msg, seed, pub, a); memcpy(&v[p->wots_sig_bytes], a, 32); it = memo.emplace(k, std::move(v)).first; } \
    memcpy(sig, it->second.data(), p->wots_sig_bytes); memcpy(a, &it->second[p->wots_sig_bytes], 32); PT(); return; } \
  V##real_wots_sign(p, sig, msg, seed, pub, a); PT(); } \
extern "C" void V##wots_pk_from_sig(const xmss_params *p, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const unsigned char *pub, uint32_t a[8]) { \
  PT(); \
  if (wots_mode >= W_AWOTS) { bool ok = !memcmp(sig + p->n, msg, p->n); for (unsigned i = 2 * p->n; ok && i < p->wots_sig_bytes; i++) ok = sig[i] == 0xEE; \
    if (ok) aw_pk(p->n, p->wots_len, sig, pub, a, pk); else { uint8_t g[64]; aw_mix("g", {{sig, p->wots_sig_bytes}, {msg, p->n}}, g, p->n); aw_pk(p->n, p->wots_len, g, pub, a, pk); } \
    a[5] = p->wots_len - 1; a[6] = p->wots_w - 2; a[7] = 1; PT(); return; } \
  if (wots_mode == W_MEMO && a[0] > 0) { MK k = mkey(V##wid + 2, p, {{sig, p->wots_sig_bytes}, {msg, p->n}, {pub, p->n}, {a, 32}}); auto it = memo.find(k); \
    if (it == memo.end()) { bytes v(p->wots_sig_bytes + 32); V##real_wots_pk_from_sig(p, v.data(), sig, msg, pub, a); memcpy(&v[p->wots_sig_bytes], a, 32); it = memo.emplace(k, std::move(v)).first; } \
    memcpy(pk, it->second.data(), p->wots_sig_bytes); memcpy(a, &it->second[p->wots_sig_bytes], 32); PT(); return; } \
  V##real_wots_pk_from_sig(p, pk, sig, msg, pub, a); PT(); }
#define SHAKES(V) \
extern "C" void V##real_shake128(unsigned char *, ull, const unsigned char *, ull), V##real_shake256(unsigned char *, ull, const unsigned char *, ull); \
extern "C" void V##shake128(unsigned char *o, ull ol, const unsigned char *in, ull il) { c_hash++; if (hash_hook) hash_hook(-128, in, il, o, ol, 0); V##real_shake128(o, ol, in, il); if (hash_hook) hash_hook(-128, in, il, o, ol, 1); } \
extern "C" void V##shake256(unsigned char *o, ull ol, const unsigned char *in, ull il) { c_hash++; if (hash_hook) hash_hook(-256, in, il, o, ol, 0); V##real_shake256(o, ol, in, il); if (hash_hook) hash_hook(-256, in, il, o, ol, 1); }
enum { n_wid = 10, f_wid = 20 };
#if HAVE_SHIM_gen_leaf_wots && HAVE_SHIM_wots_pkgen && HAVE_SHIM_wots_sign && HAVE_SHIM_wots_pk_from_sig
SHIMS(n_) SHIMS(f_)
#endif
#if HAVE_SHIM_shake128 && HAVE_SHIM_shake256
SHAKES(n_) SHAKES(f_)
#endif
