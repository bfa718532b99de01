#include "life.hpp"
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <algorithm>
#if HAVE_SEED_KEYPAIR
extern "C" decltype(xmssmt_core_seed_keypair) n_xmssmt_core_seed_keypair;
#endif
std::string js(const char *f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::vector<P> hash_combos(unsigned h, unsigned d, unsigned w, unsigned k) {
  return {custom(0,32,32,h,d,w,k), custom(0,64,64,h,d,w,k), custom(1,32,32,h,d,w,k), custom(2,64,64,h,d,w,k), custom(0,24,4,h,d,w,k), custom(2,32,32,h,d,w,k), custom(2,24,4,h,d,w,k)};
}
bool near_boundary(const P &p, uint64_t i) { uint64_t L = 1ull << p.th, r = i & (L - 1); return r < 2 || r >= L - 2; }
void seeds_for(const P &p, uint64_t tag, bytes &s, bytes &f, bytes &pb) {
  s.resize(p.n); f.resize(p.n); pb.resize(p.n); uint64_t x = tag * 1000003 + vseed * 7919;
  for (unsigned i = 0; i < p.n; i++) { s[i] = ent_byte(x + 1, i); f[i] = ent_byte(x + 2, i); pb[i] = ent_byte(x + 3, i); }
}
Key naive_key(const P &p, const uint8_t *seed, const uint8_t *prf, const uint8_t *pub, const uint8_t *root, uint64_t idx) {
  Key k(NAIVE, p);
  if (p.oid) { put_be(&k.pk[0], 4, p.oid); put_be(&k.sk[0], 4, p.oid); }
  unsigned o = k.off; memcpy(&k.pk[o], root, p.n); memcpy(&k.pk[o + p.n], pub, p.n);
  k.set_idx(idx); o += p.idxb; memcpy(&k.sk[o], seed, p.n); memcpy(&k.sk[o + p.n], prf, p.n); memcpy(&k.sk[o + 2 * p.n], root, p.n); memcpy(&k.sk[o + 3 * p.n], pub, p.n);
  return k;
}
static int count_n; static void cnt(int, const uint8_t *, uint64_t, uint8_t *, uint64_t, int ph) { count_n += ph; }
static bool abstract_probe() {
  bool res = true;
  // the leaf entry point takes and returns what its stand-in assumes
  wots_mode = W_CONCRETE; for (char t : {'n', 'f'}) { P p = custom(0, 32, 32, 4, 2); xmss_params rp = repo_params(impl_of(t), p); bytes s, f, pb; seeds_for(p, 12, s, f, pb); RWots w(p); bytes want(p.n), got(p.n), pk; uint32_t lt[8] = {1, 0, 1, 1, 2}, ot[8] = {1, 0, 1, 0, 2}, o5[5] = {1, 0, 1, 0, 2};
    impl_of(t).gen_leaf_wots(&rp, got.data(), s.data(), pb.data(), lt, ot); w.pkgen(s.data(), pb.data(), o5, pk); w.ltree(pk, pb.data(), 1, 1, 2, want.data()); if (want != got) res = false; }
  for (int mode : {W_AWOTS, W_ALEAF}) for (char t : {'n', 'f'}) {
    wots_mode = mode; memo_clear(); P p = custom(0, 32, 32, 6, 2); ent_reset(3); Key k(impl_of(t), p); c_hash = c_leaf = c_wsign = c_pkgen = 0;
    k.keygen(); uint64_t leaves = c_leaf, hk = c_hash; bytes sm, m(32), o; ull sl, ml; k.sign(m.data(), 32, sm, sl); o.resize(sl); uint64_t leaves2 = c_leaf - leaves, ws = c_wsign;
    hk = c_hash; do_open(*k.I, p, &k.rp, o.data(), &ml, sm.data(), sl, k.pk.data());
    // any one-time key handled concretely would cost at least 67 chains' worth of hashing
    uint64_t ltree = 66 * 4, budget = (mode == W_AWOTS ? (leaves + leaves2) * ltree : 0) + 2 * 16 * 4 + 2 * ltree + 400;
    if (c_hash > budget || leaves < 8 || ws < 1) res = false;
  }
  return res;
}
bool abstract_ok() { // asked in a process of its own: a tree arranged differently may not survive the question
  static int res = -1; if (res >= 0) return res;
  if (!shims_ok) return res = 0;
  int *r = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fflush(stdout); pid_t c = fork();
  if (c == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); op_limit(60); hash_hook = nullptr; point_hook = nullptr; *r = abstract_probe(); _exit(0); }
  int st; waitpid(c, &st, 0); res = *r; munmap(r, 4096); if (!res) note("one-time signatures of this tree cannot be replaced by abstract ones"); return res;
}
// ------------------------------------------------------------------------- fast keys at arbitrary indices
// A fast key's traversal state at index X, put together from the model's trees: what the state must hold before leaf
// j of a tree is used follows from the traversal algorithm alone. All due work is shown as done (an eager signer's
// state), except the next tree of the bottom layer, which gets exactly one leaf per signature.
static void put_state(const P &p, uint8_t *&q, Ref &ref, bool exists, bool next, unsigned layer, uint64_t tree, uint64_t j) {
  // current: j = leaf to be used next; next: j = leaves built so far
  unsigned n = p.n, th = p.th; uint64_t L = 1ull << th; auto node = [&](unsigned h, uint64_t i) { return ref.node(layer, tree, h, i); };
  uint8_t *stack = q, *so = stack + (th + 1) * n, *lev = so + 4, *auth = lev + th + 1, *keep = auth + th * n, *tr = keep + (th >> 1) * n, *ret = tr + (th - p.k) * (7 + n), *nl = ret + ((1u << p.k) - p.k - 1) * n; q = nl + 4;
  unsigned sp = 0;
  if (exists && next) for (unsigned h = th + 1; h-- > 0;) if ((j >> h) & 1) { memcpy(stack + sp * n, node(h, (j >> h) - 1), n); lev[sp++] = h; }
  put_be(so, 4, sp);
  for (unsigned h = 0; h < th && exists; h++) {
    uint64_t ai = next ? 1 : (j >> h) ^ 1; if (!next || (2ull << h) <= j) memcpy(auth + h * n, node(h, ai), n);
    if (!next && h + 1 < th && ((j >> h) & 1) && !((j >> (h + 1)) & 1)) memcpy(keep + (h >> 1) * n, node(h, j >> h), n);
    for (uint64_t i = 3; h >= th - p.k && i < (L >> h); i += 2) if (!next || ((i + 1) << h) <= j) memcpy(ret + ((1u << (th - 1 - h)) + h - th + ((i - 3) >> 1)) * n, node(h, i), n);
  }
  for (unsigned h = 0; h < th - p.k; h++, tr += 7 + n) {
    tr[0] = h; tr[6] = 1; if (!exists) continue;
    uint64_t i = next ? 3 : (((j >> (h + 1)) + 1) << 1) + 1; // the right node needed after the next change at this height
    if (i < (L >> h) && (!next || ((i + 1) << h) <= j)) memcpy(tr + 7, node(h, i), n);
  }
  put_be(nl, 4, next ? j : 0);
}
Key synth_key(const P &p, Ref &ref, uint64_t idx) {
  Key k(FAST, p); std::fill(k.sk.begin(), k.sk.end(), 0); Key q = naive_key(p, ref.seed.data(), ref.prf.data(), ref.pub.data(), ref.root.data(), idx); k.pk = q.pk;
  memcpy(&k.sk[0], &q.sk[0], k.off + p.idxb + 4 * p.n); uint8_t *c = &k.sk[k.off + p.idxb + 4 * p.n]; uint64_t M = (1ull << p.th) - 1;
  size_t want = (2 * p.d - 1) * ((p.th + 1) * p.n + 4 + p.th + 1 + p.th * p.n + (p.th >> 1) * p.n + (p.th - p.k) * (7 + p.n) + ((1u << p.k) - p.k - 1) * p.n + 4) + (p.d - 1) * p.len * p.n;
  if (k.sk.size() - (c - &k.sk[0]) != want) return Key();
  auto at = [&](unsigned b) { return b >= 64 ? 0 : idx >> b; };
  for (unsigned l = 0; l < p.d; l++) put_state(p, c, ref, true, false, l, at(p.th * (l + 1)), at(p.th * l) & M);
  for (unsigned l = 0; l + 1 < p.d; l++) {
    uint64_t t = at(p.th * (l + 1)) + 1; bool ex = t < 1ull << (p.h - p.th * (l + 1)); uint64_t age = l == 0 ? idx & M : (idx & ((1ull << p.th * (l + 1)) - 1)) ? M + 1 : 0;
    put_state(p, c, ref, ex, true, l, t, age);
  }
  for (unsigned l = 1; l < p.d; l++, c += p.len * p.n) memcpy(c, ref.wsig_upper(l, at(p.th * (l + 1)), at(p.th * l) & M), p.len * p.n);
  return k;
}
// Does this tree's code store its state as synth_key assumes? Decided at small indices only, where complete real lives
// are walked as well: every index of small lives, each continued over the next subtree boundaries.
static int synth_probe(unsigned bk) {
  int save = wots_mode; wots_mode = W_ALEAF; int ok = 1; std::vector<P> shapes = bk ? std::vector<P>{bk % 2 ? custom(0, 32, 32, 10, 2, 16, bk) : custom(0, 32, 32, 8, 2, 16, bk), custom(0, 32, 32, 4 + bk, 1, 16, bk)} : std::vector<P>{custom(0, 32, 32, 9, 3), custom(0, 32, 32, 8, 2), custom(0, 32, 32, 6, 1), custom(0, 32, 32, 8, 4)};
  for (auto &p : shapes) {
    if (p.th < p.k) continue; bytes s, f, pb; seeds_for(p, 55, s, f, pb); Ref ref(p, W_ALEAF, s.data(), f.data(), pb.data()); bytes m = message(3, 20), sm, rs(p.sig); ull sl;
    for (uint64_t x = 0; x < p.capacity() && ok; x++) {
      set_op("key state validation"); Key k = synth_key(p, ref, x); if (!k.I) { ok = 0; break; }
      for (uint64_t i = x; i < p.capacity() && i < x + (3u << p.th) && ok; i++) { if (k.sign(m.data(), 20, sm, sl)) ok = 0; else { ref.sign(i, m.data(), 20, rs.data()); if (memcmp(rs.data(), sm.data(), p.sig)) ok = 0; } }
    }
  }
  wots_mode = save; return ok;
}
bool synth_ok(unsigned bk) { // in a process of its own, too: code with another state format may do anything with such a state
  static std::map<unsigned, int> res; auto it = res.find(bk); if (it != res.end()) return it->second;
  if (!abstract_ok()) return res[bk] = 0;
  int *r = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); fflush(stdout); pid_t c = fork();
  if (c == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); op_limit(200); hash_hook = nullptr; point_hook = nullptr; *r = synth_probe(bk); _exit(0); }
  int st; waitpid(c, &st, 0); int ok = *r; munmap(r, 4096); return res[bk] = ok;
}
// ---------------------------------------------------------------------------------------- monitors
static bool contains(const bytes &hay, size_t from, const uint8_t *needle, size_t n) {
  for (size_t i = from; i + n <= hay.size(); i++) if (!memcmp(&hay[i], needle, n)) return true; return false;
}
void check_exhausted(Key &k, const bytes &s, const bytes &f, unsigned depth, bool first) {
  const P &p = k.p;
  auto wiped = [&](const char *when) {
    bytes z(8, 0);
    for (auto *x : {&s, &f}) for (size_t i = 0; i + 8 <= x->size(); i++) if (memcmp(&(*x)[i], z.data(), 8) && contains(k.sk, k.off, &(*x)[i], 8)) viol("%s %s: %s, secret seed bytes remain in the secret key", k.I->name, p.name.c_str(), when);
    for (size_t i = k.off + p.idxb; i < k.sk.size(); i++) if (k.sk[i] != k.sk[k.off + p.idxb]) viol("%s %s: %s, key byte %zu is not wiped", k.I->name, p.name.c_str(), when, i);
    if (k.off && be(&k.sk[0], 4) != p.oid) viol("%s %s: %s, identifier of the key was changed", k.I->name, p.name.c_str(), when);
    if (k.idx() <= p.last() && !(p.h == 8 * p.idxb && k.idx() == p.last())) viol("%s %s: %s, stored index %llu is still usable", k.I->name, p.name.c_str(), when, (ull)k.idx());
  };
  if (!first) wiped("after the last signature");
  bytes sk1;
  // every sequence of later calls over three message lengths
  unsigned total = 1; for (unsigned i = 0; i < depth; i++) total *= 3;
  bytes sk0 = k.sk;
  for (unsigned c = 0; c < total; c++) {
    k.sk = sk0; unsigned x = c;
    for (unsigned i = 0; i < depth; i++, x /= 3) {
      ull ml = x % 3 == 0 ? 0 : x % 3 == 1 ? 32 : 200; bytes m = message(c * 9 + i, ml), sm(k.rp.sig_bytes + ml, 0xC3); ull sl = 0;
      set_op("%s %s: signing call %u of history %u on the exhausted key (stored index %llu)", k.I->name, p.name.c_str(), i + 1, c, (ull)k.idx());
      int r = k.sign(m.data(), ml, sm, sl); stat_add("transitions", 1);
      if (r == 0) viol("%s %s: signing with an exhausted key succeeded (call %u after exhaustion)", k.I->name, p.name.c_str(), i + 1);
      bytes o(sm.size() + 16); ull ol = 0;
      if (do_open(*k.I, p, &k.rp, o.data(), &ol, sm.data(), sm.size(), k.pk.data()) == 0) viol("%s %s: a failed signing call on an exhausted key left a valid signature", k.I->name, p.name.c_str());
      wiped("after a refused signing call");
      if (contains(sm, 0, s.data(), 8) || contains(sm, 0, f.data(), 8)) viol("secret seed bytes in the output of a refused call");
    }
    stat_add("states", 1);
  }
}
static uint64_t h64(const uint8_t *p, size_t n) { uint64_t v; aw_mix("h", {{p, n}}, (uint8_t *)&v, 8); return v; }
void walk(const Walk &w) {
  const P &p = w.p; wots_mode = w.mode; const Impl &I = impl_of(w.impl); const Impl &J = impl_of(w.impl == 'n' ? 'f' : 'n');
  ent_reset(w.seed * 31 + vseed); op_limit(240);
  bytes s, f, pb; Ref *ref = w.ref; Key k, peer;
  bool abs = w.mode >= W_AWOTS, can_open = w.mode != W_ALEAF;
  bool synth = w.jump && w.impl == 'f' && synth_ok(p.k); bool partial = w.jump && w.impl == 'f' && !synth;
  if (partial && (w.mask & ~(unsigned)(M_REF | M_WORK))) { note("key state not as expected; job at a distant index skipped"); stat_add("skipped_jobs", 1); return; }
  if (w.impl == 'f' && !synth) {
    k = Key(FAST, p); int r = k.keygen(); if (r) viol("key generation returned %d", r);
    s.assign(k.sk_seed(), k.sk_seed() + p.n); f.assign(k.sk_prf(), k.sk_prf() + p.n); pb.assign(k.pk_seed(), k.pk_seed() + p.n);
  } else seeds_for(p, w.seed, s, f, pb);
  if ((w.mask & (M_REF | M_OTS)) || w.impl == 'n' || synth) { set_op("reference model"); op_limit(0); if (!ref) ref = new Ref(p, w.mode, s.data(), f.data(), pb.data()); op_limit(240); }
  if (w.impl == 'n') {
#if HAVE_SEED_KEYPAIR
    k = Key(NAIVE, p); bytes sd(s); sd.insert(sd.end(), f.begin(), f.end()); sd.insert(sd.end(), pb.begin(), pb.end()); if (k.off) { put_be(&k.pk[0], 4, p.oid); put_be(&k.sk[0], 4, p.oid); }
    set_op("naive seeded key generation %s", p.name.c_str());
    if (n_xmssmt_core_seed_keypair(&k.rp, &k.pk[k.off], &k.sk[k.off], sd.data())) viol("seeded key generation failed");
#else
    k = naive_key(p, s.data(), f.data(), pb.data(), ref->root.data(), 0);
#endif
  }
  if (synth) { set_op("state of a key at index %llu", (ull)w.jump); op_limit(0); k = synth_key(p, *ref, w.jump); op_limit(240); stat_add("distant_states", 1); }
  // the key as generated
  if (!synth && k.idx() != 0) viol("%s %s: a fresh key starts at index %llu", I.name, p.name.c_str(), (ull)k.idx());
  if (ref && (w.mask & M_REF)) {
    if (memcmp(k.pk_root(), ref->root.data(), p.n)) viol("%s %s: public key root differs from the standard's: %s vs %s", I.name, p.name.c_str(), hex(k.pk_root(), p.n).c_str(), hex(ref->root).c_str());
    if (memcmp(k.sk_root(), ref->root.data(), p.n)) viol("%s %s: secret key's root differs from the standard's", I.name, p.name.c_str());
    if (memcmp(k.pk_seed(), pb.data(), p.n) || memcmp(k.sk_pub(), pb.data(), p.n) || memcmp(k.sk_seed(), s.data(), p.n) || memcmp(k.sk_prf(), f.data(), p.n)) viol("%s %s: seeds misplaced in the key", I.name, p.name.c_str());
    if (k.off && (be(&k.pk[0], 4) != p.oid || be(&k.sk[0], 4) != p.oid)) viol("%s %s: identifier missing from the key", I.name, p.name.c_str());
  }
  if (w.mask & M_PEER) {
    peer = J.tag == 'n' ? naive_key(p, s.data(), f.data(), pb.data(), k.sk_root(), 0) : Key();
    if (J.tag != 'n') { fprintf(stderr, "peer must be naive\n"); exit(3); }
#if HAVE_SEED_KEYPAIR
    if (!synth) {
    Key q(NAIVE, p); bytes sd(s); sd.insert(sd.end(), f.begin(), f.end()); sd.insert(sd.end(), pb.begin(), pb.end());
    set_op("naive key from the fast key's seeds");
    n_xmssmt_core_seed_keypair(&q.rp, &q.pk[q.off], &q.sk[q.off], sd.data());
    if (memcmp(q.pk_root(), k.pk_root(), 2 * p.n)) viol("%s: the two implementations derive different public keys from the same seeds: fast %s naive %s", p.name.c_str(), hex(k.pk_root(), 2 * p.n, 64).c_str(), hex(q.pk_root(), 2 * p.n, 64).c_str());
    if (memcmp(&q.sk[q.off], &k.sk[k.off], p.idxb + 4 * p.n)) viol("%s: the common part of the secret keys differs between implementations", p.name.c_str());
    }
#endif
    if (J.xmss_xmssmt_initialize_params == nullptr) return;
    // public part accepted by the other implementation's parameters
    if (peer.rp.sig_bytes != k.rp.sig_bytes || peer.rp.pk_bytes != k.rp.pk_bytes) viol("%s: sizes differ between implementations", p.name.c_str());
  }
  uint64_t cap = p.capacity(), i = 0, done = 0;
  if (w.jump) { i = w.jump; k.set_idx(i); }
  bytes sm, sm2, rs(p.sig), o; ull sl, sl2, ol; unsigned maxleaf = 0; uint64_t boundary = 0, opened = 0, peered = 0;
  uint64_t worst_idx = 0;
  std::unordered_map<uint64_t, uint64_t> ots; // (layer, tree, leaf) -> value signed
  std::unordered_map<uint64_t, uint64_t> owner; // one-time secret -> address
  std::set<unsigned> layers_crossed;
  bytes prev;
  for (; i < cap && done < w.count; i++, done++) {
    ull ml = w.varlen ? (done * 7) % 300 : w.mlen; bytes m = message(i ^ (w.seed << 20), ml); prev.assign(k.sk.begin(), k.sk.begin() + k.off + p.idxb + 4 * p.n);
    c_leaf = c_wsign = c_pkgen = 0; uint64_t h0 = c_hash;
    set_op("%s %s: signing at index %llu, message of %llu bytes", I.name, p.name.c_str(), (ull)i, ml);
    if (w.mask & (M_SHAPE | M_OPEN)) { sm.assign(p.sig + ml, 0x77); }
    int r = k.sign(m.data(), ml, sm, sl); uint64_t leafs = c_leaf, ws = c_wsign, hs = c_hash - h0;
    stat_add("transitions", 1); stat_add("states", 1);
    bool last = i + 1 == cap, bd = near_boundary(p, i) || last; boundary += bd;
    if (r) viol("%s %s: signing failed with %d at index %llu of %llu", I.name, p.name.c_str(), r, (ull)i, (ull)cap);
    if (sl != p.sig + ml) viol("%s %s: signed message at index %llu has length %llu, expected %llu", I.name, p.name.c_str(), (ull)i, sl, p.sig + ml);
    if (ml && memcmp(&sm[p.sig], m.data(), ml)) viol("%s %s: output at index %llu does not end in the message", I.name, p.name.c_str(), (ull)i);
    if (w.mask & M_IDX) {
      if (be(sm.data(), p.idxb) != i) viol("%s %s: signature carries index %llu, the key stored %llu", I.name, p.name.c_str(), (ull)be(sm.data(), p.idxb), (ull)i);
      if (!last || p.h == 8 * p.idxb) { if (k.idx() != i + 1) viol("%s %s: index in the key is %llu after signing at %llu", I.name, p.name.c_str(), (ull)k.idx(), (ull)i); }
      if (!last) { bytes a(k.sk.begin(), k.sk.begin() + prev.size()); put_be(&prev[k.off], p.idxb, i + 1); if (a != prev) viol("%s %s: signing at index %llu changed seeds, root or identifier of the key", I.name, p.name.c_str(), (ull)i); }
    }
    if (w.mask & M_REF) {
      ref->sign(i, m.data(), ml, rs.data());
      if (memcmp(rs.data(), sm.data(), p.sig)) {
        bool bad = true;
        if (partial) { // only layers that have been rebuilt since the jump are judged
          bad = memcmp(rs.data(), sm.data(), p.idxb + p.n) != 0; unsigned judged = 0;
          size_t q = p.idxb + p.n; uint64_t age = i - w.jump;
          // root differs from the jumped key's top tree only through layers above; compare layer by layer
          for (unsigned l = 0; l < p.d && !bad; l++) {
            bool wots_ok = l == 0 || (l * p.th < 60 && age >= 1ull << (l * p.th)), auth_ok = (l + 1) * p.th < 60 && age >= 1ull << ((l + 1) * p.th);
            if (wots_ok) { judged++; if (memcmp(&rs[q], &sm[q], p.len * p.n)) bad = true; } q += p.len * p.n;
            if (auth_ok) { judged++; if (memcmp(&rs[q], &sm[q], p.th * p.n)) bad = true; } q += p.th * p.n;
          }
        }
        if (bad) {
          size_t q = 0; while (rs[q] == sm[q]) q++; std::string where;
          if (q < p.idxb) where = "index"; else if (q < p.idxb + p.n) where = "randomiser"; else { size_t z = q - p.idxb - p.n, per = p.len * p.n + p.th * p.n; where = js("layer %zu %s", z / per, z % per < p.len * p.n ? "one-time signature" : "authentication path"); }
          viol("%s %s: signature at index %llu differs from the standard's at byte %zu (%s), message of %llu bytes", I.name, p.name.c_str(), (ull)i, q, where.c_str(), ml);
        }
      }
    }
    bool heavy = w.dense == 1 || i % w.dense == 0 || (bd && (w.dense < 1000 || ((i >> p.th) % (w.dense / 16 + 1)) == 0)) || done + 3 > cap;
    if ((w.mask & M_OPEN) && can_open && heavy) {
      opened++; o.assign(sl, 0x3C); ol = 0; set_op("%s %s: verifying the signature made at index %llu, message of %llu bytes", I.name, p.name.c_str(), (ull)i, ml);
      int v = do_open(I, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data());
      if (v) viol("%s %s: the signature made at index %llu over %llu bytes does not verify (%d)", I.name, p.name.c_str(), (ull)i, ml, v);
      if (ol != ml || (ml && memcmp(o.data(), m.data(), ml))) viol("%s %s: verification at index %llu returns a different message (length %llu for %llu)", I.name, p.name.c_str(), (ull)i, ol, ml);
    }
    if ((w.mask & M_PEER) && heavy) {
      peered++; peer.set_idx(i); set_op("%s %s: signing at index %llu", J.name, p.name.c_str(), (ull)i);
      if (last) peer = naive_key(p, s.data(), f.data(), pb.data(), k.pk_root(), i);
      int r2 = peer.sign(m.data(), ml, sm2, sl2);
      if (r2 != r || sl2 != sl || sm2 != sm) { size_t q = 0; while (q < sm.size() && sm[q] == sm2[q]) q++; viol("%s: implementations disagree at index %llu (returns %d/%d, lengths %llu/%llu, first difference at byte %zu)", p.name.c_str(), (ull)i, r, r2, sl, sl2, q); }
      if (memcmp(&peer.sk[0], &k.sk[0], peer.sk.size())) viol("%s: common part of the secret key differs between implementations after signing at index %llu", p.name.c_str(), (ull)i);
      if (can_open && (bd || w.dense == 1)) for (auto *X : {&NAIVE, &FAST}) { xmss_params xp = repo_params(*X, p); o.assign(sl, 0); ol = 0; if (do_open(*X, p, &xp, o.data(), &ol, sm.data(), sl, k.pk.data()) || ol != ml) viol("%s: %s verification rejects the common signature at index %llu", p.name.c_str(), X->name, (ull)i); }
    }
    if (w.mask & M_OTS) {
      // attribute every embedded one-time signature to the one-time key it was made with
      size_t q = p.idxb + p.n; uint64_t t = be(sm.data(), p.idxb); if (t != i) viol("%s %s: index %llu released with the signature made at %llu", I.name, p.name.c_str(), (ull)t, (ull)i);
      uint32_t lf = t & ((1ull << p.th) - 1); uint64_t tree = t >> p.th; uint8_t mh[64]; RHash H(p); H.hmsg(&sm[p.idxb], k.pk_root(), t, m.data(), ml, mh); const uint8_t *val = mh;
      for (unsigned l = 0; l < p.d; l++) {
        uint32_t a[5] = {l, (uint32_t)(tree >> 32), (uint32_t)tree, 0, lf}; uint64_t addr = h64((uint8_t *)a, 20);
        uint64_t sigd = h64(&sm[q], (size_t)p.len * p.n);
        auto it = ots.emplace(addr, sigd);
        if (!it.second && it.first->second != sigd) viol("%s %s: the one-time key at layer %u, tree %llu, leaf %u has signed two different values (seen at index %llu)", I.name, p.name.c_str(), l, (ull)tree, lf, (ull)i);
        if (abs) { // the abstract signature names its key and value
          uint8_t want[64]; aw_secret(p.n, s.data(), pb.data(), a, want); uint64_t own = h64(&sm[q], p.n);
          if (memcmp(want, &sm[q], p.n)) { auto w2 = owner.find(own); viol("%s %s: index %llu, layer %u: the one-time signature was made with a different one-time key than the one at (tree %llu, leaf %u)%s", I.name, p.name.c_str(), (ull)i, l, (ull)tree, lf, w2 != owner.end() ? ", one that has already signed" : ""); }
          auto ow = owner.emplace(own, h64(&sm[q + p.n], p.n)); if (!ow.second && ow.first->second != h64(&sm[q + p.n], p.n)) viol("%s %s: a one-time key signed two values (index %llu layer %u)", I.name, p.name.c_str(), (ull)i, l);
          if (memcmp(val, &sm[q + p.n], p.n)) viol("%s %s: index %llu, layer %u: the one-time key at (tree %llu, leaf %u) signed %s instead of %s %s", I.name, p.name.c_str(), (ull)i, l, (ull)tree, lf, hex(&sm[q + p.n], p.n).c_str(), l ? "the root below," : "the message hash,", hex(val, p.n).c_str());
        } else { bytes ws2(p.len * p.n); ref->wsig(l, tree, lf, val, ws2.data()); if (memcmp(ws2.data(), &sm[q], ws2.size())) viol("%s %s: index %llu, layer %u: the one-time signature is not the one-time key's (tree %llu, leaf %u) signature of %s", I.name, p.name.c_str(), (ull)i, l, (ull)tree, lf, l ? "the root below" : "the message hash"); }
        q += p.len * p.n + p.th * p.n; val = ref->troot(l, tree); lf = tree & ((1ull << p.th) - 1); tree >>= p.th;
      }
      if (ots.size() > 4000000) { ots.clear(); owner.clear(); note("attribution table trimmed"); }
    }
    if (w.mask & M_WORK) {
      unsigned ends = 0; while (ends + 1 < p.d && ((i + 1) & ((1ull << ((ends + 1) * p.th)) - 1)) == 0) ends++;
      uint64_t lb = (p.th - p.k) / 2 + 2, wb = 1 + ends;
      if (abs || shims_ok) {
        if (leafs > lb) viol("%s %s: signing at index %llu cost %llu leaf computations; the budget is %llu", I.name, p.name.c_str(), (ull)i, (ull)leafs, (ull)lb);
        if (ws > wb) viol("%s %s: signing at index %llu cost %llu one-time signatures; at most %llu are due (%u subtrees end here)", I.name, p.name.c_str(), (ull)i, (ull)ws, (ull)wb, ends);
      }
      if (w.mode == W_CONCRETE) { // at the hash level
        uint64_t leafh = p.len + (uint64_t)p.len * (p.w - 1) * 3 + (p.len - 1) * 4, wsh = p.len + (uint64_t)p.len * (p.w - 1) * 3; // whole one-time signature at most
        uint64_t bound = lb * (leafh + 4 * p.th) + wb * wsh + 4 * p.th * p.d + 16;
        if (hs > bound) viol("%s %s: signing at index %llu made %llu hash calls; the budget allows at most %llu", I.name, p.name.c_str(), (ull)i, (ull)hs, (ull)bound);
      }
      if (leafs > maxleaf) { maxleaf = leafs; worst_idx = i; }
    }
  }
  stat_add("boundary_indices", boundary); if (opened) stat_add("verified", opened); if (peered) stat_add("peer_compared", peered);
  stat_add("signatures", done); if (w.mask & M_REF) stat_add("ref_compared", done); if (w.mask & M_OTS) stat_add("ots_keys_attributed", ots.size());
  if ((w.mask & M_WORK) && !w.quiet) sample("%s %s: worst signature costs %u leaf computations (index %llu of %llu)", I.name, p.name.c_str(), maxleaf, (ull)worst_idx, (ull)done);
  if ((w.mask & M_END) && i == cap) {
    if (p.h == 8 * p.idxb) { // one index is deliberately left unused; the next call must refuse
      check_exhausted(k, s, f, 3, true);
    } else check_exhausted(k, s, f, 3, false);
  }
  if (w.quiet) return;
  sample("%s %s mode %d: %llu signatures from index %llu, last one at index %llu (%llu near subtree boundaries)", I.name, p.name.c_str(), w.mode, (ull)done, (ull)w.jump, (ull)(i - 1), (ull)boundary);
}
