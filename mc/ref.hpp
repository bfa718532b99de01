// Independent reference model of XMSS / XMSS^MT (RFC 8391, SP 800-208), structure-for-structure from
// the standard's pseudocode; shares no code with /repo. Trees are cached whole, never traversed.
#pragma once
#include "hx.hpp"
struct RAdrs { uint32_t a[8]; };
struct RHash { // the keyed hash functions for one parameter set
  P p; explicit RHash(const P &p) : p(p) {}
  void H(const uint8_t *in, size_t n, uint8_t *out) const;
  void prf(const uint8_t *key, const uint8_t *in32, uint8_t *out) const;
  void prf_keygen(const uint8_t *key, const uint8_t *pub, const uint32_t a[8], uint8_t *out) const;
  void F(const uint8_t *pub, uint32_t a[8], const uint8_t *in, uint8_t *out) const;
  void HH(const uint8_t *pub, uint32_t a[8], const uint8_t *l, const uint8_t *r, uint8_t *out) const;
  void hmsg(const uint8_t *R, const uint8_t *root, uint64_t idx, const uint8_t *m, ull mlen, uint8_t *out) const;
};
std::vector<unsigned> ref_digits(const P &p, const uint8_t *msg);
struct RWots {
  RHash h; explicit RWots(const P &p) : h(p) {}
  void chain(uint8_t *x, unsigned start, unsigned steps, const uint8_t *pub, uint32_t a[8]) const;
  void sk(const uint8_t *seed, const uint8_t *pub, const uint32_t a[5], bytes &out) const;
  void pkgen(const uint8_t *seed, const uint8_t *pub, const uint32_t a[5], bytes &out) const;
  void sign(const uint8_t *seed, const uint8_t *pub, const uint32_t a[5], const uint8_t *msg, uint8_t *out) const;
  void from_sig(const uint8_t *sig, const uint8_t *pub, const uint32_t a[5], const uint8_t *msg, bytes &out) const;
  void ltree(bytes pk, const uint8_t *pub, uint32_t layer, uint64_t tree, uint32_t leaf, uint8_t *out) const;
};
struct Ref {
  P p; int mode; RWots w; bytes seed, prf, pub, root;
  Ref(const P &p, int mode, const uint8_t *seed, const uint8_t *prf, const uint8_t *pub);
  void leaf(unsigned layer, uint64_t tree, uint32_t i, uint8_t *out);
  const uint8_t *node(unsigned layer, uint64_t tree, unsigned height, uint64_t i);
  const uint8_t *troot(unsigned layer, uint64_t tree) { return node(layer, tree, p.th, 0); }
  const uint8_t *wsig_upper(unsigned layer, uint64_t tree, uint32_t leaf); // signature of the root below, cached
  void wsig(unsigned layer, uint64_t tree, uint32_t leaf, const uint8_t *msg, uint8_t *out);
  // whole signature (sig bytes only, no message)
  void sign(uint64_t idx, const uint8_t *m, ull mlen, uint8_t *out);
  void randomizer(uint64_t idx, uint8_t *R) const;
  std::map<std::pair<unsigned, uint64_t>, bytes> trees; // all nodes, level by level
  std::map<std::array<uint64_t, 3>, bytes> wcache;
};
// Algorithm 14/20: the root a signature leads to. returns false if too short
bool ref_root_from_sig(const P &p, int mode, const uint8_t *sm, ull smlen, const uint8_t *pk_root, const uint8_t *pub, uint8_t *root,
                       std::vector<bytes> *layer_roots = nullptr);
// index out of range for the key?
