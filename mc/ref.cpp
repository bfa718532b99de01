#include "ref.hpp"
#include "prim.hpp"
#include <algorithm>
#include <iterator>
static void tobyte(uint8_t *o, unsigned n, uint64_t v) { for (unsigned i = 0; i < n; i++) o[n - 1 - i] = i < 8 ? (uint8_t)(v >> (8 * i)) : 0; }
static void adrs(uint8_t o[32], const uint32_t a[8]) { for (int i = 0; i < 8; i++) { o[4*i] = a[i] >> 24; o[4*i+1] = a[i] >> 16; o[4*i+2] = a[i] >> 8; o[4*i+3] = a[i]; } }
void RHash::H(const uint8_t *in, size_t n, uint8_t *out) const {
  uint8_t t[64];
  if (p.func == 0) { if (p.n == 64) o_sha512(in, n, t); else o_sha256(in, n, t); memcpy(out, t, p.n); }
  else o_shake(p.func == 1 ? 128 : 256, in, n, out, p.n);
}
void RHash::prf(const uint8_t *key, const uint8_t *in32, uint8_t *out) const {
  uint8_t b[64 + 64 + 32]; tobyte(b, p.pad, 3); memcpy(b + p.pad, key, p.n); memcpy(b + p.pad + p.n, in32, 32); H(b, p.pad + p.n + 32, out);
}
void RHash::prf_keygen(const uint8_t *key, const uint8_t *pub, const uint32_t a[8], uint8_t *out) const {
  uint8_t b[64 * 3 + 32]; tobyte(b, p.pad, 4); memcpy(b + p.pad, key, p.n); memcpy(b + p.pad + p.n, pub, p.n); adrs(b + p.pad + 2 * p.n, a); H(b, p.pad + 2 * p.n + 32, out);
}
void RHash::F(const uint8_t *pub, uint32_t a[8], const uint8_t *in, uint8_t *out) const {
  uint8_t b[64 * 3], ad[32], mask[64]; tobyte(b, p.pad, 0);
  a[7] = 0; adrs(ad, a); prf(pub, ad, b + p.pad);
  a[7] = 1; adrs(ad, a); prf(pub, ad, mask);
  for (unsigned i = 0; i < p.n; i++) b[p.pad + p.n + i] = in[i] ^ mask[i];
  H(b, p.pad + 2 * p.n, out);
}
void RHash::HH(const uint8_t *pub, uint32_t a[8], const uint8_t *l, const uint8_t *r, uint8_t *out) const {
  uint8_t b[64 * 4], ad[32], mask[128]; tobyte(b, p.pad, 1);
  a[7] = 0; adrs(ad, a); prf(pub, ad, b + p.pad);
  a[7] = 1; adrs(ad, a); prf(pub, ad, mask);
  a[7] = 2; adrs(ad, a); prf(pub, ad, mask + p.n);
  for (unsigned i = 0; i < p.n; i++) { b[p.pad + p.n + i] = l[i] ^ mask[i]; b[p.pad + 2 * p.n + i] = r[i] ^ mask[p.n + i]; }
  H(b, p.pad + 3 * p.n, out);
}
void RHash::hmsg(const uint8_t *R, const uint8_t *root, uint64_t idx, const uint8_t *m, ull mlen, uint8_t *out) const {
  bytes b(p.pad + 3 * p.n + mlen); tobyte(&b[0], p.pad, 2); memcpy(&b[p.pad], R, p.n); memcpy(&b[p.pad + p.n], root, p.n); tobyte(&b[p.pad + 2 * p.n], p.n, idx);
  if (mlen) memcpy(&b[p.pad + 3 * p.n], m, mlen); H(b.data(), b.size(), out);
}
std::vector<unsigned> ref_digits(const P &p, const uint8_t *msg) {
  std::vector<unsigned> d; unsigned per = 8 / p.logw, csum = 0;
  for (unsigned i = 0; i < p.len1; i++) { unsigned v = (msg[i / per] >> (p.logw * (per - 1 - i % per))) & (p.w - 1); d.push_back(v); csum += p.w - 1 - v; }
  // checksum in base w, most significant digit first
  for (unsigned i = 0; i < p.len2; i++) d.push_back((csum >> (p.logw * (p.len2 - 1 - i))) & (p.w - 1));
  return d;
}
void RWots::chain(uint8_t *x, unsigned start, unsigned steps, const uint8_t *pub, uint32_t a[8]) const {
  for (unsigned i = start; i < start + steps; i++) { a[6] = i; h.F(pub, a, x, x); }
}
static void otsa(uint32_t o[8], const uint32_t a[5]) { memcpy(o, a, 20); o[5] = o[6] = o[7] = 0; }
void RWots::sk(const uint8_t *seed, const uint8_t *pub, const uint32_t a5[5], bytes &out) const {
  uint32_t a[8]; otsa(a, a5); out.resize(h.p.len * h.p.n);
  for (unsigned i = 0; i < h.p.len; i++) { a[5] = i; h.prf_keygen(seed, pub, a, &out[i * h.p.n]); }
}
void RWots::pkgen(const uint8_t *seed, const uint8_t *pub, const uint32_t a5[5], bytes &out) const {
  sk(seed, pub, a5, out); uint32_t a[8]; otsa(a, a5);
  for (unsigned i = 0; i < h.p.len; i++) { a[5] = i; chain(&out[i * h.p.n], 0, h.p.w - 1, pub, a); }
}
void RWots::sign(const uint8_t *seed, const uint8_t *pub, const uint32_t a5[5], const uint8_t *msg, uint8_t *out) const {
  bytes s; sk(seed, pub, a5, s); uint32_t a[8]; otsa(a, a5); auto d = ref_digits(h.p, msg);
  for (unsigned i = 0; i < h.p.len; i++) { a[5] = i; chain(&s[i * h.p.n], 0, d[i], pub, a); }
  memcpy(out, s.data(), s.size());
}
void RWots::from_sig(const uint8_t *sig, const uint8_t *pub, const uint32_t a5[5], const uint8_t *msg, bytes &out) const {
  out.assign(sig, sig + h.p.len * h.p.n); uint32_t a[8]; otsa(a, a5); auto d = ref_digits(h.p, msg);
  for (unsigned i = 0; i < h.p.len; i++) { a[5] = i; chain(&out[i * h.p.n], d[i], h.p.w - 1 - d[i], pub, a); }
}
void RWots::ltree(bytes pk, const uint8_t *pub, uint32_t layer, uint64_t tree, uint32_t leaf, uint8_t *out) const {
  unsigned n = h.p.n, l = h.p.len; uint32_t a[8] = {layer, (uint32_t)(tree >> 32), (uint32_t)tree, 1, leaf, 0, 0, 0};
  while (l > 1) {
    for (unsigned i = 0; i < l / 2; i++) { a[6] = i; h.HH(pub, a, &pk[2 * i * n], &pk[(2 * i + 1) * n], &pk[i * n]); }
    if (l & 1) memmove(&pk[(l / 2) * n], &pk[(l - 1) * n], n);
    l = (l + 1) / 2; a[5]++;
  }
  memcpy(out, pk.data(), n);
}
Ref::Ref(const P &p, int mode, const uint8_t *s, const uint8_t *f, const uint8_t *pb) : p(p), mode(mode), w(p), seed(s, s + p.n), prf(f, f + p.n), pub(pb, pb + p.n) {
  const uint8_t *r = troot(p.d - 1, 0); root.assign(r, r + p.n);
}
void Ref::leaf(unsigned layer, uint64_t tree, uint32_t i, uint8_t *out) {
  uint32_t a[5] = {layer, (uint32_t)(tree >> 32), (uint32_t)tree, 0, i};
  if (mode == W_ALEAF) { uint32_t lt[5] = {layer, a[1], a[2], 1, i}; aw_leaf(p.n, seed.data(), pub.data(), lt, a, out); return; }
  bytes pk;
  if (mode == W_AWOTS) { uint8_t s[64]; aw_secret(p.n, seed.data(), pub.data(), a, s); pk.resize(p.n * p.len); aw_pk(p.n, p.len, s, pub.data(), a, pk.data()); }
  else w.pkgen(seed.data(), pub.data(), a, pk);
  w.ltree(pk, pub.data(), layer, tree, i, out);
}
const uint8_t *Ref::node(unsigned layer, uint64_t tree, unsigned height, uint64_t i) {
  auto key = std::make_pair(layer, tree); auto it = trees.find(key); unsigned n = p.n; uint64_t L = 1ull << p.th;
  if (it == trees.end()) {
    // keep a bounded number of trees per layer (walks are local); drop the lowest-numbered one
    size_t cap = std::max<size_t>(3, (32u << 20) / (2 * L * n)); if (cap > 64) cap = 64;
    auto lo = trees.lower_bound({layer, 0}), hi = trees.lower_bound({layer + 1, 0});
    if ((size_t)std::distance(lo, hi) >= cap) trees.erase(lo);
    bytes t(2 * L * n); uint64_t off = 0, cnt = L;
    for (uint64_t j = 0; j < L; j++) leaf(layer, tree, j, &t[j * n]);
    uint32_t a[8] = {layer, (uint32_t)(tree >> 32), (uint32_t)tree, 2, 0, 0, 0, 0};
    for (unsigned hh = 0; hh < p.th; hh++) {
      uint64_t o2 = off + cnt;
      for (uint64_t j = 0; j < cnt / 2; j++) { a[5] = hh; a[6] = j; w.h.HH(pub.data(), a, &t[(off + 2 * j) * n], &t[(off + 2 * j + 1) * n], &t[(o2 + j) * n]); }
      off = o2; cnt /= 2;
    }
    it = trees.emplace(key, std::move(t)).first;
  }
  uint64_t off = 0, cnt = L; for (unsigned hh = 0; hh < height; hh++) { off += cnt; cnt /= 2; }
  return &it->second[(off + i) * n];
}
void Ref::wsig(unsigned layer, uint64_t tree, uint32_t lf, const uint8_t *msg, uint8_t *out) {
  uint32_t a[5] = {layer, (uint32_t)(tree >> 32), (uint32_t)tree, 0, lf};
  if (mode >= W_AWOTS) { uint8_t s[64]; aw_secret(p.n, seed.data(), pub.data(), a, s); aw_sig(p.n, p.len, s, msg, out); }
  else w.sign(seed.data(), pub.data(), a, msg, out);
}
const uint8_t *Ref::wsig_upper(unsigned layer, uint64_t tree, uint32_t lf) {
  std::array<uint64_t, 3> k = {layer, tree, lf}; auto it = wcache.find(k); if (it != wcache.end()) return it->second.data();
  if (wcache.size() > 3000) wcache.clear();
  bytes o(p.len * p.n); bytes r(troot(layer - 1, (tree << p.th) | lf), troot(layer - 1, (tree << p.th) | lf) + p.n);
  wsig(layer, tree, lf, r.data(), o.data()); return wcache.emplace(k, std::move(o)).first->second.data();
}
void Ref::randomizer(uint64_t idx, uint8_t *R) const { uint8_t b[32]; tobyte(b, 32, idx); w.h.prf(prf.data(), b, R); }
void Ref::sign(uint64_t idx, const uint8_t *m, ull mlen, uint8_t *out) {
  unsigned n = p.n; uint8_t mh[64]; tobyte(out, p.idxb, idx); out += p.idxb; randomizer(idx, out); w.h.hmsg(out, root.data(), idx, m, mlen, mh); out += n;
  uint64_t tree = idx >> p.th; uint32_t lf = idx & ((1ull << p.th) - 1);
  for (unsigned l = 0; l < p.d; l++) {
    if (l == 0) wsig(0, tree, lf, mh, out); else memcpy(out, wsig_upper(l, tree, lf), p.len * n);
    out += p.len * n;
    for (unsigned j = 0; j < p.th; j++, out += n) memcpy(out, node(l, tree, j, (lf >> j) ^ 1), n);
    lf = tree & ((1ull << p.th) - 1); tree >>= p.th;
  }
}
bool ref_root_from_sig(const P &p, int mode, const uint8_t *sm, ull smlen, const uint8_t *pk_root, const uint8_t *pub, uint8_t *root, std::vector<bytes> *lr) {
  if (smlen < p.sig) return false;
  unsigned n = p.n; RWots w(p); uint64_t idx = be(sm, p.idxb); uint8_t cur[64];
  w.h.hmsg(sm + p.idxb, pk_root, idx, sm + p.sig, smlen - p.sig, cur); sm += p.idxb + n;
  uint64_t tree = idx >> p.th; uint32_t lf = idx & ((1ull << p.th) - 1);
  for (unsigned l = 0; l < p.d; l++) {
    uint32_t a[5] = {l, (uint32_t)(tree >> 32), (uint32_t)tree, 0, lf}; bytes pk; uint8_t nd[64];
    w.from_sig(sm, pub, a, cur, pk); sm += p.len * n; w.ltree(pk, pub, l, tree, lf, nd);
    uint32_t b[8] = {l, a[1], a[2], 2, 0, 0, 0, 0};
    for (unsigned j = 0; j < p.th; j++, sm += n) { b[5] = j; b[6] = lf >> (j + 1); if ((lf >> j) & 1) w.h.HH(pub, b, sm, nd, nd); else w.h.HH(pub, b, nd, sm, nd); }
    memcpy(cur, nd, n); if (lr) lr->push_back(bytes(nd, nd + n));
    lf = tree & ((1ull << p.th) - 1); tree >>= p.th;
  }
  memcpy(root, cur, n); return true;
}
