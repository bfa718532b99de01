// Walks over a key's life: one engine, several properties' monitors.
#pragma once
#include "ref.hpp"
enum : unsigned {
  M_OPEN = 1,      // C01: the released message verifies and comes back exactly
  M_SHAPE = 2,     // C01: return code, length, message tail
  M_IDX = 4,       // C02: consecutive indices, everything else in the key as documented
  M_END = 8,       // C03: exhaustion behaviour at the end of the walk
  M_PEER = 16,     // C04: the other implementation produces the same bytes
  M_REF = 32,      // C05: the standard's bytes
  M_OTS = 64,      // C16: attribution of one-time signatures
  M_WORK = 128,    // C20: leaf computations per signature
};
struct Walk {
  P p; char impl = 'f'; int mode = W_MEMO; unsigned mask = 0; uint64_t count = ~0ull; // number of signatures from index 0
  uint64_t dense = 1; // heavy monitors (M_OPEN, M_PEER) run when idx % dense == 0 or within 2 of a subtree boundary
  ull mlen = 32; bool varlen = false; uint64_t seed = 7;
  uint64_t jump = 0; // start at this index; fast keys get the state they have there (synth_key), or, if this tree stores it differently,
                     // continue with a young state of which only the self-healed part is judged
  Ref *ref = nullptr; bool quiet = false; // shared model, for many short walks
};
void walk(const Walk &w);
bool synth_ok(unsigned k);   // is a fast key's stored state laid out as synth_key builds it?
Key synth_key(const P &p, Ref &ref, uint64_t idx); // a fast key in the state it has at this index (I == nullptr: size unexpected)
bool abstract_ok();          // are abstract one-time signatures exact on this tree?
std::vector<P> hash_combos(unsigned h, unsigned d, unsigned w = 16, unsigned k = 0);
bool near_boundary(const P &p, uint64_t idx);
// a naive-implementation key with the given seeds (nothing has to be computed)
Key naive_key(const P &p, const uint8_t *seed, const uint8_t *prf, const uint8_t *pub, const uint8_t *root, uint64_t idx);
void seeds_for(const P &p, uint64_t tag, bytes &seed, bytes &prf, bytes &pub);
std::string js(const char *f, ...) __attribute__((format(printf, 1, 2)));
// after a walk reached the end
void check_exhausted(Key &k, const bytes &old_seed, const bytes &old_prf, unsigned depth, bool expect_first_error);
