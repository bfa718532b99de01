// C06, C07: the verifier against the model, on fabricated hypertrees (any index, arbitrary siblings) of every parameter set.
#include "guard.hpp"
#include <algorithm>
typedef std::function<void(double, const std::string &)> Out;
static unsigned adrw(uint64_t t, bool hi) { return hi ? t >> 32 : (uint32_t)t; }
// One path of a hypertree: random one-time keys and random siblings on every layer. The holder of these one-time keys
// can sign any digest at this index; the root follows from the public values alone.
struct Fab {
  P p; int mode; uint64_t idx; RWots w; bytes pub, root, R; std::vector<bytes> ots, auth, roots; std::vector<bytes> upper; // upper: finished one-time signatures of layers > 0
  Fab(const P &p, int mode, uint64_t idx, uint64_t tag, bool finish = true) : p(p), mode(mode), idx(idx), w(p) {
    auto rnd = [&](uint64_t t, size_t n) { bytes b(n); for (size_t i = 0; i < n; i++) b[i] = ent_byte(tag * 4099 + t * 17 + vseed * 1000003, i); return b; };
    pub = rnd(1, p.n); R = rnd(2, p.n);
    for (unsigned l = 0; l < p.d; l++) { ots.push_back(rnd(10 + 2 * l, mode >= W_AWOTS ? p.n : p.n * p.len)); auth.push_back(rnd(11 + 2 * l, p.n * p.th)); }
    climb(0); if (finish) for (unsigned l = 1; l < p.d; l++) { upper.push_back(bytes(p.len * p.n)); osign(l, roots[l - 1].data(), upper.back().data()); }
  }
  uint64_t tree(unsigned l) const { unsigned s = p.th * (l + 1); return s >= 64 ? 0 : idx >> s; }
  uint32_t lf(unsigned l) const { return (idx >> (p.th * l)) & ((1ull << p.th) - 1); }
  void osign(unsigned l, const uint8_t *msg, uint8_t *out) {
    if (mode >= W_AWOTS) { aw_sig(p.n, p.len, ots[l].data(), msg, out); return; }
    uint32_t a[8] = {l, adrw(tree(l), 1), adrw(tree(l), 0), 0, lf(l), 0, 0, 0}; auto d = ref_digits(p, msg); memcpy(out, ots[l].data(), p.len * p.n);
    for (unsigned i = 0; i < p.len; i++) { a[5] = i; w.chain(out + i * p.n, 0, d[i], pub.data(), a); }
  }
  std::vector<bytes> leaves;
  void climb(unsigned from) {
    roots.resize(p.d); leaves.resize(p.d);
    for (unsigned l = from; l < p.d; l++) {
      uint32_t a[8] = {l, adrw(tree(l), 1), adrw(tree(l), 0), 0, lf(l), 0, 0, 0};
      if (leaves[l].empty()) {
        bytes pk(ots[l]); leaves[l].resize(p.n);
        if (mode >= W_AWOTS) { pk.resize(p.len * p.n); aw_pk(p.n, p.len, ots[l].data(), pub.data(), a, pk.data()); }
        else for (unsigned i = 0; i < p.len; i++) { a[5] = i; w.chain(&pk[i * p.n], 0, p.w - 1, pub.data(), a); }
        w.ltree(pk, pub.data(), l, tree(l), lf(l), leaves[l].data());
      }
      bytes nd(leaves[l]); uint32_t b[8] = {l, a[1], a[2], 2, 0, 0, 0, 0};
      for (unsigned j = 0; j < p.th; j++) { b[5] = j; b[6] = lf(l) >> (j + 1); uint8_t *s = &auth[l][j * p.n]; if ((lf(l) >> j) & 1) w.h.HH(pub.data(), b, s, nd.data(), nd.data()); else w.h.HH(pub.data(), b, nd.data(), s, nd.data()); }
      roots[l] = nd;
    }
    root = roots[p.d - 1];
  }
  // a signed message that leads to `root` when the verifier hashes the message with `hroot`
  bytes make(const bytes &m, const bytes &hroot) {
    bytes o(p.sig); uint8_t mh[64]; put_be(&o[0], p.idxb, idx); memcpy(&o[p.idxb], R.data(), p.n); w.h.hmsg(R.data(), hroot.data(), idx, m.data(), m.size(), mh);
    uint8_t *q = &o[p.idxb + p.n]; for (unsigned l = 0; l < p.d; l++) { if (l == 0) osign(0, mh, q); else memcpy(q, upper[l - 1].data(), p.len * p.n); q += p.len * p.n; memcpy(q, auth[l].data(), p.th * p.n); q += p.th * p.n; }
    o.insert(o.end(), m.begin(), m.end()); return o;
  }
};
struct Ver { // calls the verifier, checks the interface of both outcomes
  const Impl &I; P p; xmss_params rp; bytes pk; bytes buf; uint64_t n = 0;
  Ver(const Impl &I, const P &p, const bytes &root, const bytes &pub) : I(I), p(p) { rp = repo_params(I, p); setpk(root, pub); }
  void setpk(const bytes &root, const bytes &pub) { pk.assign(p.oid ? 4 : 0, 0); if (p.oid) put_be(&pk[0], 4, p.oid); pk.insert(pk.end(), root.begin(), root.end()); pk.insert(pk.end(), pub.begin(), pub.end()); }
  // what: description of the input (built only on failure)
  template <class F> void expect(bool accept, const bytes &sm, F what) {
    uint8_t fill = (n & 1) ? 0xA5 : 0x3C; buf.assign(sm.size() + 1, fill); ull ml = 0x1122334455667788ull; n++;
    set_op("%s %s: verifying, %s", I.name, p.name.c_str(), n % 64 == 1 ? what().c_str() : "(one of the next 64 inputs)");
    int r = do_open(I, p, &rp, buf.data(), &ml, sm.data(), sm.size(), pk.data()); stat_add("states", 1); stat_add("transitions", 1);
    ull msg = sm.size() >= p.sig ? sm.size() - p.sig : 0;
    if (accept) {
      stat_add("accepted", 1);
      if (r) viol("%s %s: a signature the standard accepts is rejected: %s", I.name, p.name.c_str(), what().c_str());
      if (ml != msg || (msg && memcmp(buf.data(), &sm[p.sig], msg))) viol("%s %s: accepted, but the recovered message (length %llu) is not the signed one (length %llu): %s", I.name, p.name.c_str(), ml, msg, what().c_str());
    } else {
      stat_add("rejected", 1);
      if (r == 0) viol("%s %s: accepted although it must be rejected: %s", I.name, p.name.c_str(), what().c_str());
      if (ml) viol("%s %s: rejected, but a message length of %llu is reported: %s", I.name, p.name.c_str(), ml, what().c_str());
      for (ull i = 0; i < msg; i++) if (buf[i] && buf[i] != fill) viol("%s %s: rejected, but byte %llu of the message space holds 0x%02x: %s", I.name, p.name.c_str(), i, buf[i], what().c_str());
      if (msg && fill == sm[p.sig]) {} // (a message byte may coincide with the fill pattern; the next input uses the other pattern)
    }
  }
};
static bool mode_ok(int m) { if (m >= W_AWOTS && !abstract_ok()) { stat_add("skipped_jobs", 1); return false; } return true; }
static std::string rname(const P &p, size_t i) { // which part of a signed message byte i is in
  if (i < p.idxb) return js("index byte %zu", i); i -= p.idxb; if (i < p.n) return js("randomiser byte %zu", i); i -= p.n; size_t per = (p.len + p.th) * p.n;
  if (i < p.d * per) { size_t l = i / per, r = i % per; if (r < p.len * p.n) return js("layer %zu one-time signature chain %zu byte %zu", l, r / p.n, r % p.n); r -= p.len * p.n; return js("layer %zu authentication node %zu byte %zu", l, r / p.n, r % p.n); }
  return js("message byte %zu", i - p.d * per);
}
static std::vector<uint64_t> idxs(const P &p, bool all) {
  std::set<uint64_t> s = {0, 1, 2, 3, p.last(), p.last() - 1, p.last() / 2, p.last() / 2 + 1};
  for (unsigned b = 1; b < p.h; b++) if (all || b % p.th == 0 || (b >= 31 && b <= 33) || b % 8 == 0) { s.insert(1ull << b); s.insert((1ull << b) - 1); s.insert(p.last() & ~((1ull << b) - 1)); s.insert(p.last() ^ (1ull << b)); }
  uint64_t alt = 0xAAAAAAAAAAAAAAAAull & p.last(); s.insert(alt); s.insert(alt >> 1);
  std::vector<uint64_t> v(s.begin(), s.end()); return v;
}
// ------------------------------------------------------------------------------------------------ C07
static void thin(std::vector<uint64_t> &v, const P &p) { // the few indices that differ in every layer and in the upper half of the tree index
  std::vector<uint64_t> k = {0, 1, p.last(), p.last() / 2 + 1, p.last() & ~((1ull << p.th) - 1), 0xAAAAAAAAAAAAAAAAull & p.last()}; if (p.h > 34) { k.push_back(1ull << 33); k.push_back(1ull << (32 + p.th < p.h ? 32 + p.th : p.h - 1)); }
  std::vector<uint64_t> r; for (auto x : v) if (std::count(k.begin(), k.end(), x)) r.push_back(x); for (auto x : k) if (!std::count(r.begin(), r.end(), x)) r.push_back(x); v = r;
}
static void c07_accept(const Args &a) { // A spec impl mode all
  P p = parse_spec(a[1]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(240); const Impl &I = impl_of(a[2][0]); auto v = idxs(p, a[4] == "1"); unsigned k = 0; if (a[4] == "0") thin(v, p);
  if (a[4] == "2") { v.clear(); for (uint64_t i = 0; i <= p.last(); i++) v.push_back(i); }
  for (uint64_t i : v) {
    Fab f(p, wots_mode, i, i * 3 + 1); Ver V(I, p, f.root, f.pub); ull ml = (k * 37) % 300; k++; bytes m = message(i + 3, ml), sm = f.make(m, f.root), rr(p.n);
    if (wots_mode < W_AWOTS) { ref_root_from_sig(p, wots_mode, sm.data(), sm.size(), f.root.data(), f.pub.data(), rr.data()); if (rr != f.root) { fprintf(stderr, "model inconsistent\n"); exit(3); } }
    auto d = [&] { return js("index %llu, message of %llu bytes, all one-time keys and siblings arbitrary", (ull)i, ml); };
    V.expect(true, sm, d);
    // neighbours the standard rejects: the same values claimed for an index that differs in one bit, per layer
    for (unsigned b = 0; b < p.h; b += a[4] == "0" ? p.th : p.h > 24 ? 3 : 1) { bytes x(sm); put_be(&x[0], p.idxb, i ^ (1ull << b)); V.expect(false, x, [&] { return js("signature for index %llu presented with index %llu", (ull)i, (ull)(i ^ (1ull << b))); }); }
    V.expect(true, sm, d);
  }
  sample("%s %s mode %d: accepted at %zu indices from %llu to %llu", I.name, p.name.c_str(), wots_mode, v.size(), (ull)v[0], (ull)v.back());
}
// the index is bound at two places (message hash, addresses): a signature made for index j by one-time keys at position i
static void c07_idxbind(const Args &a) { // B spec impl
  P p = parse_spec(a[1]); wots_mode = W_CONCRETE; op_limit(240); const Impl &I = impl_of(a[2][0]);
  for (uint64_t i : idxs(p, false)) for (unsigned b = 0; b < p.h; b += p.h > 24 ? 5 : 1) {
    // everything fits index i, except that the digest is that of index i^bit; and the other way round
    Fab f(p, W_CONCRETE, i, i + 9); Ver V(I, p, f.root, f.pub); bytes m = message(b, 40); uint8_t mh[64]; uint64_t j = i ^ (1ull << b);
    f.w.h.hmsg(f.R.data(), f.root.data(), j, m.data(), m.size(), mh); bytes sm = f.make(m, f.root); f.osign(0, mh, &sm[p.idxb + p.n]);
    V.expect(false, sm, [&] { return js("index %llu, but the message was hashed with index %llu", (ull)i, (ull)j); });
    put_be(&sm[0], p.idxb, j); V.expect(false, sm, [&] { return js("index %llu, one-time keys at the position of index %llu", (ull)j, (ull)i); });
  }
  sample("%s %s: index bound in digest and in addresses", I.name, p.name.c_str());
}
// pairs of roots: the computed root and the public one differ in a chosen way
static void c07_roots(const Args &a) { // R spec impl mode part
  P p = parse_spec(a[1]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(240); const Impl &I = impl_of(a[2][0]); unsigned part = arg_u(a, 4), parts = arg_u(a, 5, 1); unsigned n = p.n, N = 8 * n;
  bytes m = message(4, 21); Fab f(p, wots_mode, p.last() / 3, 77); Ver V(I, p, f.root, f.pub);
  auto tryroot = [&](Fab &f, const bytes &pkroot, const std::string &what) {
    V.setpk(pkroot, f.pub); bytes sm = f.make(m, pkroot); bool eq = pkroot == f.root;
    V.expect(eq, sm, [&] { return js("the signature leads to root %s, the public key holds %s (%s)", hex(f.root).c_str(), hex(pkroot).c_str(), what.c_str()); });
  };
  unsigned c = 0; bytes r;
  if (part == 0) {
    tryroot(f, f.root, "equal");
    for (unsigned b = 0; b < N; b++) { r = f.root; r[b / 8] ^= 1 << (b % 8); tryroot(f, r, "one bit"); }
    for (unsigned i = 0; i < n; i++) for (unsigned v = 0; v < 256; v++) if (v != f.root[i] && (n == 32 || v % 16 == 3 || v == 0)) { r = f.root; r[i] = v; tryroot(f, r, "one byte"); }
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) if (i != j) {
      r = f.root; if (r[i] != r[j]) { std::swap(r[i], r[j]); tryroot(f, r, "two bytes swapped"); }
      r = f.root; r[i]++; r[j]--; tryroot(f, r, "sum preserved"); r = f.root; r[i] ^= 0x40; r[j] ^= 0x40; tryroot(f, r, "xor preserved"); r = f.root; r[i] ^= 0xFF; r[j] ^= 0xFF; tryroot(f, r, "xor preserved");
    }
    for (unsigned k = 1; k < n; k++) { // only a prefix, a suffix, or one aligned block agrees
      r = f.root; for (unsigned i = k; i < n; i++) r[i] ^= 0x5A; tryroot(f, r, "only a prefix agrees"); r = f.root; for (unsigned i = 0; i < k; i++) r[i] ^= 0xA5; tryroot(f, r, "only a suffix agrees");
      r = f.root; std::rotate(r.begin(), r.begin() + k, r.end()); if (r != f.root) tryroot(f, r, "rotated");
      for (unsigned w : {2u, 4u, 8u, 16u, 32u}) if (k % w == 0) { r = f.root; for (unsigned i = 0; i < n; i++) if (i / w != k / w) r[i] ^= 0x11; tryroot(f, r, "one block agrees"); }
    }
    r = f.root; std::reverse(r.begin(), r.end()); tryroot(f, r, "reversed"); for (unsigned w : {2u, 4u, 8u}) { r = f.root; for (unsigned i = 0; i + w <= n; i += w) std::reverse(r.begin() + i, r.begin() + i + w); tryroot(f, r, "words byte-swapped"); }
    r.assign(n, 0); tryroot(f, r, "zero"); r.assign(n, 0xFF); tryroot(f, r, "ones"); tryroot(f, f.pub, "public seed"); tryroot(f, f.R, "randomiser");
    for (unsigned l = 0; l + 1 < p.d; l++) tryroot(f, f.roots[l], "root of a lower layer");
    for (auto &x : f.leaves) tryroot(f, x, "a leaf");
  } else if (part == 1) { // roots with a zero byte (or 0xFF, 0x80) at every position
    for (unsigned j = 0; j < n; j++) for (unsigned z : {0x00u, 0x0Au, 0xFFu, 0x80u}) {
      Fab g(p, wots_mode, (p.last() / 3) & ~0ull, 100 + j, false); uint8_t *top = &g.auth[p.d - 1][(p.th - 1) * n];
      for (unsigned t = 0; t < 20000; t++) { put_be(top, 4, t); g.climb(p.d - 1); if (g.root[j] == z) break; }
      if (g.root[j] != z) continue;
      for (unsigned l = 1; l < p.d; l++) { g.upper.push_back(bytes(p.len * n)); g.osign(l, g.roots[l - 1].data(), g.upper.back().data()); }
      tryroot(g, g.root, "equal");
      for (unsigned k : {0u, j ? j - 1 : 0, j, j + 1, n / 2, n - 1}) if (k < n) { r = g.root; r[k] ^= 0x21; tryroot(g, r, js("byte %u is 0x%02x, byte %u differs", j, z, k)); }
      r = g.root; for (unsigned k = j + 1; k < n; k++) r[k] ^= 0x77; if (j + 1 < n) tryroot(g, r, js("byte %u is 0x%02x, all later bytes differ", j, z));
    }
  } else { // all pairs of bits
    for (unsigned i = 0; i < N; i++) for (unsigned j = i + 1; j < N; j++) if (c++ % parts == part - 2) { r = f.root; r[i / 8] ^= 1 << (i % 8); r[j / 8] ^= 1 << (j % 8); tryroot(f, r, "two bits"); }
  }
  sample("%s %s mode %d: %llu pairs of computed and public root, part %u", I.name, p.name.c_str(), wots_mode, (ull)V.n, part);
}
// ------------------------------------------------------------------------------------------------ C06
struct Signed { Fab f; bytes m, sm; Signed(const P &p, int mode, uint64_t idx, uint64_t tag, ull ml) : f(p, mode, idx, tag), m(message(tag, ml)), sm(f.make(m, f.root)) {} };
static void c06_flip(const Args &a) { // F spec impl mode mlen unit(0 bits, 1 one bit per byte, 2 one bit per node, 3 all byte values of a byte per node) part parts
  P p = parse_spec(a[1]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(240); const Impl &I = impl_of(a[2][0]); ull ml = arg_u(a, 4); unsigned unit = arg_u(a, 5), part = arg_u(a, 6), parts = arg_u(a, 7, 1);
  // index with many carries and both child sides
  Signed s(p, wots_mode, 0x5A5A5A5A5A5A5A5Aull & p.last(), 5, ml); Ver V(I, p, s.f.root, s.f.pub); auto ok = [&] { V.expect(true, s.sm, [] { return std::string("unaltered"); }); }; ok();
  uint64_t c = 0; bytes x = s.sm;
  for (size_t i = 0; i < s.sm.size(); i++) {
    bool head = i < p.idxb + p.n || i >= p.sig; size_t q = i < p.idxb ? 0 : (i - p.idxb) % p.n;
    for (unsigned b = 0; b < 8; b++) {
      if (unit == 1 && !head && b != i % 8) continue; if ((unit == 2 || unit == 3) && !head && !(q == (i / p.n) % p.n && b == (i / p.n) % 8)) continue;
      if (c++ % parts != part) continue;
      x[i] ^= 1 << b; V.expect(false, x, [&] { return js("bit %u of %s flipped", b, rname(p, i).c_str()); }); x[i] = s.sm[i];
      if (unit == 3) for (unsigned v = 0; v < 256; v++) if (v != s.sm[i]) { x[i] = v; V.expect(false, x, [&] { return js("%s replaced by 0x%02x", rname(p, i).c_str(), v); }); } x[i] = s.sm[i];
    }
  }
  auto mine = [&] { return c++ % parts == part; };
  {
    bytes pk = V.pk; for (size_t i = p.oid ? 4 : 0; i < pk.size(); i++) for (unsigned b = 0; b < 8; b++) if (mine()) { V.pk = pk; V.pk[i] ^= 1 << b; V.expect(false, s.sm, [&] { return js("bit %u of public key byte %zu flipped", b, i); }); } V.pk = pk;
    for (unsigned i = 0; i < p.idxb; i++) for (unsigned v = 0; v < 256; v++) if (v != s.sm[i] && mine()) { x[i] = v; V.expect(false, x, [&] { return js("index byte %u replaced by 0x%02x", i, v); }); x[i] = s.sm[i]; }
    // whole elements: zeroed, replaced by a neighbour, two swapped
    std::vector<std::pair<size_t, size_t>> el; for (size_t o = p.idxb; o < p.sig; o += p.n) el.push_back({o, p.n});
    for (auto &e : el) if (mine()) { std::fill(x.begin() + e.first, x.begin() + e.first + e.second, 0); if (x != s.sm) V.expect(false, x, [&] { return js("element at %s zeroed", rname(p, e.first).c_str()); }); x = s.sm; }
    for (size_t i = 0; i + 1 < el.size(); i++) if (mine()) { std::swap_ranges(x.begin() + el[i].first, x.begin() + el[i].first + p.n, x.begin() + el[i + 1].first); if (x != s.sm) V.expect(false, x, [&] { return js("elements at %s and after it swapped", rname(p, el[i].first).c_str()); }); x = s.sm; }
  }
  ok(); sample("%s %s mode %d unit %u, %zu-byte signed message: %llu alterations", I.name, p.name.c_str(), wots_mode, unit, s.sm.size(), (ull)V.n);
}
static void c06_len(const Args &a) { // T spec impl mode mlen
  P p = parse_spec(a[1]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(240); const Impl &I = impl_of(a[2][0]); ull ml = arg_u(a, 4);
  Signed s(p, wots_mode, p.last() / 5 * 2, 6, ml); Ver V(I, p, s.f.root, s.f.pub); auto ok = [&] { V.expect(true, s.sm, [] { return std::string("unaltered"); }); }; ok();
  for (size_t l = 0; l < s.sm.size(); l++) { bytes x(s.sm.begin(), s.sm.begin() + l); V.expect(false, x, [&] { return js("cut to %zu of %zu bytes", l, s.sm.size()); }); }
  for (size_t l = 1; l <= 130; l++) for (unsigned v : {0u, 0xFFu, 0x80u}) { bytes x(s.sm); x.resize(x.size() + l, v); V.expect(false, x, [&] { return js("extended by %zu bytes of 0x%02x", l, v); }); }
  for (size_t l : {(size_t)p.sig, (size_t)1000, (size_t)5000, (size_t)70000}) { bytes x(s.sm); x.resize(x.size() + l, 0); V.expect(false, x, [&] { return js("extended by %zu zero bytes", l); }); }
  bool allpos = p.sig < 4000; std::vector<size_t> pos; for (size_t i = 0; i <= s.sm.size(); i++) if (allpos || i < p.idxb + p.n || i >= p.sig - 1 || (i - p.idxb) % p.n == 0) pos.push_back(i);
  for (size_t i : pos) {
    for (unsigned v : {0u, 0x5Au}) { bytes x(s.sm); x.insert(x.begin() + i, v); V.expect(false, x, [&] { return js("byte 0x%02x inserted before %s", v, i < s.sm.size() ? rname(p, i).c_str() : "the end"); }); }
    if (i < s.sm.size()) { bytes x(s.sm); x.erase(x.begin() + i); V.expect(false, x, [&] { return js("%s removed", rname(p, i).c_str()); }); }
    if (i + p.n <= s.sm.size()) { bytes x(s.sm); x.erase(x.begin() + i, x.begin() + i + p.n); V.expect(false, x, [&] { return js("%u bytes from %s on removed", p.n, rname(p, i).c_str()); });
      bytes y(s.sm); y.insert(y.begin() + i, s.sm.begin() + i, s.sm.begin() + i + p.n); V.expect(false, y, [&] { return js("%u bytes from %s on duplicated", p.n, rname(p, i).c_str()); }); }
  }
  ok(); sample("%s %s: every length below %zu, extensions, insertions and removals", I.name, p.name.c_str(), s.sm.size());
}
static void c06_splice(const Args &a) { // S spec impl: all component-wise mixtures of two valid signed messages
  P p = parse_spec(a[1]); wots_mode = W_CONCRETE; op_limit(240); const Impl &I = impl_of(a[2][0]); bytes sd, pf, pb; seeds_for(p, 17, sd, pf, pb); Ref ref(p, W_CONCRETE, sd.data(), pf.data(), pb.data()); Ver V(I, p, ref.root, pb);
  uint64_t L = 1ull << p.th; std::vector<uint64_t> ix = {0, 1, 2, L - 1, L, L + 1, 2 * L, p.last()}; std::vector<bytes> sms;
  auto mk = [&](uint64_t i, uint64_t tag) { bytes o(p.sig), m = message(tag, 24); ref.sign(i, m.data(), 24, o.data()); o.insert(o.end(), m.begin(), m.end()); return o; };
  for (auto i : ix) if (i <= p.last()) sms.push_back(mk(i, i + 2)); sms.push_back(mk(1, 999)); sms.push_back(mk(std::min<uint64_t>(L, p.last() - 1), 998)); // the same index twice, different messages
  std::vector<std::pair<size_t, size_t>> comp = {{0, p.idxb}, {p.idxb, p.n}}; size_t o = p.idxb + p.n; for (unsigned l = 0; l < p.d; l++) { comp.push_back({o, p.len * p.n}); o += p.len * p.n; comp.push_back({o, p.th * p.n}); o += p.th * p.n; } comp.push_back({p.sig, 24});
  for (auto &A : sms) for (auto &B : sms) for (unsigned c = 0; c < (1u << comp.size()); c++) {
    bytes x(A); for (unsigned i = 0; i < comp.size(); i++) if (c >> i & 1) memcpy(&x[comp[i].first], &B[comp[i].first], comp[i].second);
    bool same = false; for (auto &s : sms) same |= s == x;
    V.expect(same, x, [&] { return js("parts %#x of the signed message at index %llu replaced by those of index %llu", c, (ull)be(&A[0], p.idxb), (ull)be(&B[0], p.idxb)); });
  }
  // signatures under other keys
  for (unsigned t = 0; t < 3; t++) { bytes s2, f2, p2; seeds_for(p, 18, s2, f2, p2); if (t == 1) p2 = pb; if (t == 2) { s2 = sd; p2 = pb; f2 = pf; p2[p.n - 1] ^= 1; } Ref r2(p, W_CONCRETE, s2.data(), f2.data(), p2.data()); bytes q(p.sig), m = message(3, 24); r2.sign(5, m.data(), 24, q.data()); q.insert(q.end(), m.begin(), m.end()); V.expect(false, q, [&] { return std::string("signature of another key"); }); }
  sample("%s %s: %zu signed messages, all component mixtures", I.name, p.name.c_str(), sms.size());
}
static void c06_huge(const Args &a) { // H spec impl delta accept: message lengths that agree modulo a power of two
  P p = parse_spec(a[1]); wots_mode = W_CONCRETE; op_limit(600); const Impl &I = impl_of(a[2][0]); ull delta = arg_u(a, 3), ml = 100, big = ml + delta; xmss_params rp = repo_params(I, p);
  Fab f(p, W_CONCRETE, p.last() / 3, 41); bytes pk(p.oid ? 4 : 0); if (p.oid) put_be(&pk[0], 4, p.oid); pk.insert(pk.end(), f.root.begin(), f.root.end()); pk.insert(pk.end(), f.pub.begin(), f.pub.end());
  Alias x(p.sig + 512, big), o(p.sig, big); for (size_t i = 0; i < x.per; i++) x.at(0)[i] = ent_byte(6, i); bytes m(x.at(0), x.at(0) + ml), small = f.make(m, f.root);
  auto call = [&](ull len, bool accept, const char *what) {
    ull ol = 0x1122334455667788ull; memset(o.at(p.sig), 0x3C, p.sig + o.per); set_op("%s %s: verifying %s", I.name, p.name.c_str(), what); stat_add("states", 1); stat_add("transitions", 1);
    size_t tot = len + p.sig + 4096; uint8_t *ob = accept ? (uint8_t *)mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : o.at(p.sig);
    int r = do_open(I, p, &rp, ob, &ol, x.at(p.sig), p.sig + len, pk.data());
    if (accept) { stat_add("accepted", 1); if (r || ol != len) viol("%s %s: rejected or wrong length %llu (result %d): %s", I.name, p.name.c_str(), ol, r, what); for (ull q = 0; q < len; q += x.per) if (memcmp(ob + q, x.at(0), std::min<ull>(x.per, len - q))) viol("%s %s: recovered message differs: %s", I.name, p.name.c_str(), what); munmap(ob, tot); return; }
    stat_add("rejected", 1); if (!r) viol("%s %s: accepted although it must be rejected: %s", I.name, p.name.c_str(), what); if (ol) viol("%s %s: rejected, but a message length of %llu is reported: %s", I.name, p.name.c_str(), ol, what);
    for (ull i = 0; i < std::min<ull>(len, p.sig + o.per); i++) if (ob[i] && ob[i] != 0x3C) viol("%s %s: rejected, but byte %llu of the message space holds 0x%02x: %s", I.name, p.name.c_str(), i, ob[i], what);
  };
  memcpy(x.at(p.sig), small.data(), p.sig); call(ml, true, "an unaltered message of 100 bytes"); call(big, false, js("the signature of the first 100 bytes with %llu bytes appended to the message", delta).c_str());
  bytes head(p.pad + 3 * p.n); uint8_t mh[64]; put_be(&head[0], p.pad, 2); memcpy(&head[p.pad], f.R.data(), p.n); memcpy(&head[p.pad + p.n], f.root.data(), p.n); put_be(&head[p.pad + 2 * p.n], p.n, f.idx);
  memcpy(x.at(head.size()), head.data(), head.size()); set_op("model hash"); f.w.h.H(x.at(head.size()), head.size() + big, mh); f.osign(0, mh, &small[p.idxb + p.n]); memcpy(x.at(p.sig), small.data(), p.sig);
  call(ml, false, js("the signature of a message of 100 + %llu bytes with all but the first 100 bytes cut off", delta).c_str()); call(ml + 1, false, "the same cut to 101 bytes"); if (a[4] == "1") call(big, true, "the whole of it");
  sample("%s %s: messages of 100 and 100 + %llu bytes", I.name, p.name.c_str(), delta);
}
static void run(const Args &a) {
  if (a[0] == "A") c07_accept(a); else if (a[0] == "B") c07_idxbind(a); else if (a[0] == "R") c07_roots(a); else if (a[0] == "F") c06_flip(a); else if (a[0] == "T") c06_len(a); else if (a[0] == "S") c06_splice(a); else if (a[0] == "H") c06_huge(a);
}
static double vcost(const P &p) { return (p.func == 0 ? (p.n == 64 ? 3.5e-3 : .55e-3) : p.n == 64 ? 7e-3 : 1.7e-3) * p.d; } // one concrete verification
static double acost(const P &p) { return vcost(p) * (abstract_ok() ? .13 : 1); }
static Reg c06("C06", {[](bool th, Out out) {
  bool ab = abstract_ok(); int A = ab ? W_AWOTS : W_CONCRETE;
  auto J = [&](const P &p, char t, int mode, ull ml, unsigned unit) {
    double n = (unit == 0 ? 8.0 * p.sig : unit == 1 ? p.sig : unit == 3 ? 256. * p.sig / p.n : p.sig / p.n) + 8. * (p.n + ml + p.n * 2 + p.idxb * 32) + 2. * p.sig / p.n, c = n * (mode >= W_AWOTS ? acost(p) : vcost(p)); unsigned parts = 1 + c / 12;
    for (unsigned i = 0; i < parts; i++) out(c / parts, js("F %s %c %d %llu %u %u %u", p.str().c_str(), t, mode, ml, unit, i, parts)); };
  auto cheap = [](const P &p) { return p.func == 0 && p.n < 64; };
  for (auto &p : hash_combos(3, 1)) { J(p, 'f', W_CONCRETE, 9, th || cheap(p) ? 0 : 2); }
  for (auto &p : hash_combos(4, 2)) {
    J(p, 'n', W_CONCRETE, 50, th || cheap(p) ? 1 : 2); J(p, 'f', A, 50, th || p.n < 64 ? 0 : 1);
    out(p.sig * 1.2 * acost(p), js("T %s f %d 40", p.str().c_str(), A)); if (cheap(p)) out(10, js("T %s n %d 0", p.str().c_str(), A));
    if (cheap(p)) out(8, js("T %s n %d 23", custom(p.func, p.n, p.pad, 3, 1).str().c_str(), W_CONCRETE));
  }
  for (unsigned w : {4u, 256u}) J(custom(0, 32, 32, 4, 2, w), 'f', W_CONCRETE, 20, th ? 0 : 2);
  for (char t : {'n', 'f'}) { out(8, js("S %s %c", custom(0, 32, 32, 4, 2).str().c_str(), t)); out(8, js("S %s %c", custom(0, 24, 4, 3, 1).str().c_str(), t)); }
  for (char t : {'n', 'f'}) { for (unsigned b : {8u, 16u, 29u, 31u, 32u}) for (auto &p : b < 20 ? hash_combos(4, 2) : std::vector<P>{custom(0, 32, 32, 4, 2)}) out(b < 30 ? 1 : b * .3, js("H %s %c %llu %d", p.str().c_str(), t, 1ull << b, b < 30 || th)); out(24, js("H %s %c %llu 0", t == 'n' ? "x:1" : "m:1", t, 1ull << 32)); out(14, js("H %s %c %llu 0", custom(2, 32, 32, 4, 2).str().c_str(), t, 1ull << (th ? 32 : 31))); if (th) for (auto &p : hash_combos(4, 1)) out(40, js("H %s %c %llu 0", p.str().c_str(), t, 1ull << 32)); }
  for (auto &p : official()) { char t = p.oid % 2 ? 'f' : 'n'; bool c = cheap(p);
    if (!th && p.n == 64 && p.d >= 6) continue;
    J(p, t, A, 33, th ? (c ? 0 : 1) : (c && p.d <= 2) ? 1 : 2); if (th || (c && p.h <= 20 && p.d <= 2)) J(p, t == 'n' ? 'f' : 'n', W_CONCRETE, 300, th && c ? 1 : 2);
    if (th || (c && p.h == 10)) out(10, js("T %s %c %d 10", p.str().c_str(), t, A)); }
}, run});
static Reg c07("C07", {[](bool th, Out out) {
  bool ab = abstract_ok(); int A = ab ? W_AWOTS : W_CONCRETE; auto cheap = [](const P &p) { return p.func == 0 && p.n < 64; };
  for (auto &p : official()) for (char t : {'n', 'f'}) {
    if (th || (p.oid % 2 ? 'f' : 'n') == t) out(vcost(p) * 60, js("A %s %c %d %d", p.str().c_str(), t, W_CONCRETE, th ? 3 : 0));
    if (ab) { int all = cheap(p) || th ? 1 : 0; if (all || t == 'f') out(acost(p) * (all ? 1500 : 60), js("A %s %c %d %d", p.str().c_str(), t, A, all)); }
  }
  for (auto &p : hash_combos(4, 2)) for (char t : {'n', 'f'}) { out(vcost(p) * 100, js("A %s %c 0 2", p.str().c_str(), t)); if (cheap(p) || th) out(vcost(p) * 120, js("B %s %c", p.str().c_str(), t)); }
  for (auto &p : {custom(0, 32, 32, 10, 1), custom(0, 24, 4, 12, 3), custom(0, 32, 32, 9, 3)}) out(8, js("A %s f %d 2", p.str().c_str(), A));
  for (auto &p : {custom(0, 32, 32, 62, 31), custom(0, 32, 32, 63, 21), custom(0, 32, 32, 64, 16), custom(0, 32, 32, 4, 2, 4), custom(0, 32, 32, 4, 2, 256), custom(0, 64, 64, 4, 2, 256), custom(0, 24, 4, 4, 2, 4)}) for (char t : {'n', 'f'}) out(5, js("A %s %c %d %d", p.str().c_str(), t, p.w == 16 ? A : 0, p.w == 16 ? 3 : 2));
  for (auto &p : hash_combos(4, 1)) { if (th || p.func == 0 || p.n < 64) out(10, js("R %s f %d 0", p.str().c_str(), A)); out(10, js("R %s f %d 1", p.str().c_str(), A)); if (cheap(p)) for (unsigned i = 0; i < 4; i++) out(8, js("R %s f %d %u 4", p.str().c_str(), A, i + 2)); else if (th) for (unsigned i = 0; i < 8; i++) out(30, js("R %s f %d %u 8", p.str().c_str(), A, i + 2)); }
  for (unsigned part : {0u, 1u}) out(10, js("R %s n %d %u", custom(0, 32, 32, 4, 2).str().c_str(), W_CONCRETE, part));
  for (auto &p : official()) if (th || (p.mt && p.oid <= 8 && p.d <= 4)) out(vcost(p) * 400, js("B %s f", p.str().c_str()));
}, run});
