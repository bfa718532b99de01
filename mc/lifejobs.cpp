// Jobs of the checks that walk key lives: C01 C02 C03 C04 C05 C16 C20
#include "guard.hpp"
#include <algorithm>
// walk job arguments: W spec impl mode count dense varlen(-1: no)|mlen jump
static std::string wj(const P &p, char impl, int mode, uint64_t count = ~0ull, uint64_t dense = 1, int var = 0, uint64_t jump = 0) {
  return js("W %s %c %d %llu %llu %d %llu", p.str().c_str(), impl, mode, (ull)count, (ull)dense, var, (ull)jump);
}
static void run_walk(const Args &a, unsigned mask) {
  Walk w; w.p = parse_spec(a[1]); w.impl = a[2][0]; w.mode = atoi(a[3].c_str()); w.count = arg_u(a, 4); w.dense = arg_u(a, 5); w.varlen = atoi(a[6].c_str()); w.jump = arg_u(a, 7); w.mask = mask;
  if (w.mode >= W_AWOTS && !abstract_ok()) { note("abstract one-time signatures not available on this tree; job skipped"); stat_add("skipped_jobs", 1); return; }
  if (w.jump > 64 && (w.impl == 'n' || synth_ok(w.p.k))) w.jump -= 40; // start before the boundary
  walk(w);
}
// D spec impl mode alphabet from to: every index whose base-2^th digits all belong to the alphabet (a set of leaf positions;
// negative: counted from the end), each continued over `reps` signatures
static std::vector<uint32_t> digit_alphabet(const P &p, const std::string &s) { std::set<uint32_t> v; uint32_t L = 1u << p.th; size_t q = 0; while (q < s.size()) { size_t e = s.find(',', q); if (e == std::string::npos) e = s.size(); long x = atol(s.substr(q, e - q).c_str()); v.insert((x < 0 ? L + x : x) & (L - 1)); q = e + 1; } return {v.begin(), v.end()}; }
static void run_digits(const Args &a, unsigned mask) {
  Walk w; w.p = parse_spec(a[1]); w.impl = a[2][0]; w.mode = atoi(a[3].c_str()); w.mask = mask & ~(unsigned)M_END; w.quiet = true; auto al = digit_alphabet(w.p, a[4]); uint64_t from = arg_u(a, 5), to = arg_u(a, 6); w.count = arg_u(a, 7, 2);
  if (w.mode >= W_AWOTS && !abstract_ok()) { note("abstract one-time signatures not available on this tree; job skipped"); stat_add("skipped_jobs", 1); return; }
  if (w.impl == 'f' && !synth_ok(w.p.k)) { note("key state not as expected; job at distant indices skipped"); stat_add("skipped_jobs", 1); return; }
  wots_mode = w.mode; bytes s, f, pb; seeds_for(w.p, w.seed, s, f, pb); op_limit(0); w.ref = new Ref(w.p, w.mode, s.data(), f.data(), pb.data()); uint64_t n = 0;
  for (uint64_t c = from; c < to; c++) {
    uint64_t x = c, i = 0; for (unsigned l = 0; l < w.p.d; l++, x /= al.size()) i |= (uint64_t)al[x % al.size()] << (l * w.p.th);
    if (!i) continue; if (i >= w.p.capacity()) continue; w.jump = i; walk(w); n++;
  }
  stat_add("digit_vectors", n);
  sample("%s %s mode %d: %llu indices with all digits in {%s}, %llu signatures from each", w.impl == 'n' ? "naive" : "fast", w.p.name.c_str(), w.mode, (ull)n, a[4].c_str(), (ull)w.count);
}
static P off_by_name(const char *n) { for (auto &p : official()) if (p.name == n) return p; fprintf(stderr, "? %s\n", n); exit(3); }
typedef std::function<void(double, const std::string &)> Out;
static double leafcost(const P &p) { return p.func == 0 ? (p.n == 64 ? 6e-3 : .5e-3) : p.n == 64 ? 14e-3 : 4e-3; }
// complete lives of scaled shapes under every hash function, one-time signatures concrete
static void small_lives(Out out, bool th, char impls, bool concrete_only_cheap) {
  struct S { unsigned h, d, k; };
  std::vector<S> v = {{4, 1, 0}, {5, 1, 0}, {6, 2, 0}, {6, 3, 0}, {8, 2, 0}, {9, 3, 0}, {8, 4, 0}, {8, 2, 2}, {6, 1, 4}, {4, 1, 4}, {3, 1, 3}, {6, 2, 3}};
  for (auto &s : v) for (auto &p : hash_combos(s.h, s.d, 16, s.k)) for (char t : {'n', 'f'}) {
    if (impls != 'b' && impls != t) continue; if (t == 'n' && s.k) continue;
    if (s.h >= 8 && p.func != 0 && !th) continue; // larger concrete lives: SHA-2 only in the quick tier
    if (s.h >= 8 && p.n == 64 && !th) continue;
    out(leafcost(p) * (1 << s.h) * (2 + s.d), wj(p, t, W_MEMO, ~0ull, 1, 1));
  }
}
// complete lives of many shapes with abstract one-time signatures
static std::vector<P> abstract_shapes(bool th) {
  std::vector<P> v; auto add = [&](unsigned h, unsigned d, unsigned k = 0) { v.push_back(custom(0, 32, 32, h, d, 16, k)); };
  add(6, 1); add(7, 1); add(8, 1); add(9, 1); add(4, 2); add(6, 3); add(8, 4); add(10, 5); add(12, 6); add(16, 8); add(6, 2); add(9, 3); add(12, 4); add(15, 5); add(8, 2); add(12, 3); add(16, 4);
  add(10, 2); add(15, 3); add(12, 2); add(14, 2); add(8, 1, 2); add(8, 1, 4); add(9, 1, 3); add(12, 2, 2); add(12, 3, 2); add(10, 2, 3); add(16, 4, 2);
  if (th) { add(18, 6); add(20, 5); add(20, 10); add(18, 3); add(16, 2); add(18, 9); add(21, 7); add(18, 3, 2); add(16, 2, 4); add(20, 4, 3); }
  return v;
}
static std::vector<uint64_t> jump_points(const P &p, unsigned below, bool all) { // multiples of the lower layers' span
  std::vector<uint64_t> v; unsigned lo = below * p.th;
  for (unsigned b = lo; b < p.h; b++) if (all || (b - lo) % 3 == 0 || b == 31 || b == 32 || b == 33 || b + 1 == p.h) v.push_back(1ull << b);
  uint64_t top = (p.h >= 64 ? 0 : (1ull << p.h)); v.push_back(top - (1ull << lo)); v.push_back(top / 2 - (1ull << lo)); // all-ones above: carries through every layer
  if (p.h > 33) { v.push_back((1ull << 32) - (1ull << lo)); v.push_back((1ull << 35) - (1ull << lo)); }
  std::vector<uint64_t> r; for (auto x : v) if (x && x < top) r.push_back(x); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static void jump_jobs(Out out, bool th, const char *impls = "f", int mode = W_ALEAF, double cost = 1, unsigned every = 1) {
  double c = mode == W_ALEAF ? cost : 4 * cost; unsigned q = mode == W_ALEAF ? 1 : 4;
  for (const char *t = impls; *t; t++) {
    for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 32, 32, 63, 21), custom(0, 32, 32, 40, 20)}) { auto v = jump_points(p, 3, th); for (size_t i = 0; i < v.size(); i += every) out(.4 * c, wj(p, *t, mode, (p.th == 2 ? 200 : 1100) / q, 1, 0, v[i])); }
    for (const char *n : {"XMSSMT-SHA2_60/12_256", "XMSSMT-SHA2_40/8_256"}) { P p = off_by_name(n); auto v = jump_points(p, 2, th); for (size_t i = 0; i < v.size(); i += every) out(.6 * c, wj(p, *t, mode, 2200 / q, 1, 0, v[i])); out(.6 * c, wj(p, *t, mode, 2200 / q, 1, 0, p.capacity() - 200)); }
    for (const char *n : {"XMSSMT-SHA2_40/8_512", "XMSSMT-SHA2_40/8_192"}) { P p = off_by_name(n); auto v = jump_points(p, 2, false); for (size_t i = 0; i < v.size(); i += 3 * every) out(.6 * c, wj(p, *t, mode, 1100 / q, 1, 0, v[i])); }
  }
}
// every official set: the last signatures of a key's life (in quick, sets with moderate trees), and digit vectors
static void distant_jobs(Out out, bool th, const char *impls, int mode, double cost = 1) {
  for (const char *t = impls; *t; t++) {
    auto D = [&](const P &p, const char *al, unsigned asz, unsigned reps, unsigned parts) {
      uint64_t tot = 1; for (unsigned l = 0; l < p.d; l++) tot *= asz; double per = (*t == 'f' ? 3e-4 : 6e-4) * reps * cost * (mode == W_AWOTS ? 12 : 1) * (p.th > 5 ? 1u << (p.th - 5) : 1);
      for (unsigned i = 0; i < parts; i++) if (tot * i / parts < tot * (i + 1) / parts) out(per * tot / parts, js("D %s %c %d %s %llu %llu %u", p.str().c_str(), *t, mode, al, (ull)(tot * i / parts), (ull)(tot * (i + 1) / parts), reps));
    };
    bool big = th && mode == W_ALEAF;
    D(off_by_name("XMSSMT-SHA2_60/12_256"), big ? "0,1,-1" : "0,-1", big ? 3 : 2, 2, big ? 60 : 4);
    D(off_by_name("XMSSMT-SHA2_40/8_256"), big ? "0,1,2,15,-2,-1" : "0,1,-1", big ? 6 : 3, 2, big ? 100 : 6);
    D(off_by_name("XMSSMT-SHAKE_60/12_256"), "0,-1", 2, 1, 2);
    D(off_by_name("XMSSMT-SHA2_20/4_256"), "0,1,7,15,16,-2,-1", 7, 2, 2);
    if (big) { D(custom(0, 32, 32, 60, 20), "0,-1", 2, 1, 60); D(custom(0, 24, 4, 24, 8), "0,1,3,-1", 4, 2, 20); }
    D(custom(0, 32, 32, 42, 14), "0,-1", 2, 1, 8); D(custom(0, 64, 64, 36, 12), "0,-1", 2, 1, 4);
    if (*t == 'f') { D(custom(0, 32, 32, 40, 10, 16, 2), "0,-1", 2, 2, 2); D(custom(0, 32, 32, 44, 11, 16, 4), "0,-1", 2, 2, 2); D(custom(0, 32, 32, 50, 10, 16, 3), "0,1,-1", big ? 3 : 2, 2, 4); }
    for (auto &p : official()) if (p.th <= 10 && p.oid != 1) { if (th || *t == 'f' || p.d < 12 || p.n < 64) { bool dear = p.d == 12 && mode == W_AWOTS && (p.func || p.n == 64); if (!dear) D(p, "0,-1", 2, p.th <= 5 ? 2 : 1, 1); else if (th) D(p, "0,-1", 2, 2, 16); else for (unsigned f : {0u, 1920u, 3968u}) out(8, js("D %s %c %d 0,-1 %u %u 1", p.str().c_str(), *t, mode, f, f + 128)); } if (mode == W_ALEAF) out(p.th <= 5 ? .3 : 1, wj(p, *t, mode, 60, 1, 0, p.capacity() - 17)); }
    if (th && mode == W_ALEAF) for (auto &p : official()) if (p.th == 20 && p.mt) out(30, js("D %s %c %d 0,-1 0 %u 1", p.str().c_str(), *t, mode, 1u << p.d));
  }
}
static void xmss10(Out out, char t) { for (auto &p : official()) if (!p.mt && p.h == 10) out(leafcost(p) * 1024 * 4, wj(p, t, W_MEMO, ~0ull, 1, 1)); }
static void xmss10_cheap(Out out, char t) { for (auto &p : official()) if (!p.mt && p.h == 10 && p.func == 0 && p.n < 64) out(leafcost(p) * 1024 * 4, wj(p, t, W_MEMO, ~0ull, 1, 1)); }
// every official set: naive keys placed at an alphabet of indices
static std::vector<uint64_t> idx_alphabet(const P &p, bool all) {
  std::set<uint64_t> s = {0, 1, 2, 3, p.capacity() - 1, p.capacity() - 2, p.capacity() / 2, p.capacity() / 2 - 1};
  for (unsigned b = 1; b < p.h; b++) if (all || b % p.th == 0 || b % 8 == 0 || b == p.h - 1 || (b >= 31 && b <= 33)) { s.insert(1ull << b); s.insert((1ull << b) - 1); s.insert(((1ull << b) - 1) << (p.h - b)); }
  uint64_t alt = 0xAAAAAAAAAAAAAAAAull & ((p.h == 64 ? 0 : 1ull << p.h) - 1); s.insert(alt); s.insert(alt >> 1);
  std::vector<uint64_t> v; for (auto x : s) if (x < p.capacity()) v.push_back(x); return v;
}
static void run_index_set(const Args &a, unsigned mask) { // I spec impl mode all maxn
  P p = parse_spec(a[1]); char t = a[2][0]; wots_mode = atoi(a[3].c_str()); size_t maxn = arg_u(a, 5, 1000);
  if (wots_mode >= W_AWOTS && !abstract_ok()) { stat_add("skipped_jobs", 1); return; }
  op_limit(240); auto v = idx_alphabet(p, a[4] == "1"); bytes s, f, pb; seeds_for(p, 91, s, f, pb);
  Ref *ref = nullptr; bytes root(p.n, 0x42); if ((mask & M_REF) || wots_mode != W_ALEAF) { op_limit(0); ref = new Ref(p, wots_mode, s.data(), f.data(), pb.data()); root = ref->root; op_limit(240); }
  size_t step = v.size() > maxn ? (v.size() + maxn - 1) / maxn : 1;
  Key fk; if (t == 'f') { fk = Key(FAST, p); ent_reset(5); fk.keygen(); }
  for (size_t j = 0; j < v.size(); j += step) {
    uint64_t i = v[j]; Key k = t == 'n' ? naive_key(p, s.data(), f.data(), pb.data(), root.data(), i) : fk; if (t == 'f') k.set_idx(i);
    for (int rep = 0; rep < 2 && i + rep < p.capacity(); rep++) {
      ull ml = 33 + rep * 100; bytes m = message(i, ml), sm, rs(p.sig), before = k.sk; ull sl; set_op("%s %s: signing at index %llu", k.I->name, p.name.c_str(), (ull)(i + rep));
      int r = k.sign(m.data(), ml, sm, sl); stat_add("states", 1); stat_add("transitions", 1);
      if (r) viol("%s %s: signing failed with %d at index %llu", k.I->name, p.name.c_str(), r, (ull)(i + rep));
      if (sl != p.sig + ml || memcmp(&sm[p.sig], m.data(), ml)) viol("%s %s: wrong length or message tail at index %llu", k.I->name, p.name.c_str(), (ull)(i + rep));
      if (mask & M_IDX) {
        if (be(sm.data(), p.idxb) != i + rep) viol("%s %s: the key stores index %llu, the signature carries %llu", k.I->name, p.name.c_str(), (ull)(i + rep), (ull)be(sm.data(), p.idxb));
        bool wiped = i + rep == p.last() && p.h < 8 * p.idxb;
        if (!wiped) { size_t fix = k.off + p.idxb + 4 * p.n; put_be(&before[k.off], p.idxb, i + rep + 1); if (memcmp(before.data(), k.sk.data(), fix)) viol("%s %s: signing at index %llu left index %llu in the key, or changed its fixed part", k.I->name, p.name.c_str(), (ull)(i + rep), (ull)k.idx()); }
      }
      if ((mask & M_REF) && t == 'n') { ref->sign(i + rep, m.data(), ml, rs.data()); stat_add("ref_compared", 1); if (memcmp(rs.data(), sm.data(), p.sig)) { size_t q = 0; while (rs[q] == sm[q]) q++; viol("%s %s: signature at index %llu differs from the standard's at byte %zu", k.I->name, p.name.c_str(), (ull)(i + rep), q); } }
      if ((mask & M_OPEN) && t == 'n' && wots_mode != W_ALEAF) { bytes o(sl); ull ol = 0; stat_add("verified", 1); if (do_open(*k.I, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data()) || ol != ml || memcmp(o.data(), m.data(), ml)) viol("%s %s: the signature made at index %llu does not verify", k.I->name, p.name.c_str(), (ull)(i + rep)); }
    }
  }
  sample("%s %s mode %d: indices %llu %llu ... %llu (%zu of them)", t == 'n' ? "naive" : "fast", p.name.c_str(), wots_mode, (ull)v[0], (ull)v[1], (ull)v.back(), v.size());
}
static double treecost(const P &p, int mode) { return (mode == W_ALEAF ? 3e-6 : mode == W_AWOTS ? 1e-4 : 4 * leafcost(p)) * p.d * (double)(1u << p.th); }
// -------------------------------------------------------------------------------------- message lengths
static void run_lengths(const Args &a, unsigned mask) { // L spec impl from to
  P p = parse_spec(a[1]); wots_mode = W_MEMO; op_limit(240); ent_reset(11); char t = a[2][0]; Key k(impl_of(t), p); if (k.keygen()) viol("key generation failed");
  Ref *ref = (mask & M_REF) ? new Ref(p, W_CONCRETE, k.sk_seed(), k.sk_prf(), k.sk_pub()) : nullptr; Key fresh = k;
  uint64_t step = arg_u(a, 5, 1); std::vector<ull> lens;
  if (step) for (ull ml = arg_u(a, 3); ml <= arg_u(a, 4); ml += step) lens.push_back(ml);
  else { std::set<ull> v; for (unsigned b = arg_u(a, 3); b <= arg_u(a, 4); b++) for (ull q : {1ull << b, (1ull << b) - p.pad - 3 * p.n, (1ull << b) - p.sig}) for (int e = -1; e < 2; e++) v.insert(q + e); for (ull x : v) if (x < 1ull << 40) lens.push_back(x); } // around powers of two: of the message, of what is hashed, of the signed message
  for (ull ml : lens) {
    if (k.idx() + 1 >= p.capacity()) k = fresh; uint64_t i = k.idx();
    bytes m = message(ml, ml), sm, o(p.sig + ml), rs(p.sig); ull sl, ol = ~0ull; set_op("%s %s: signing %llu bytes", k.I->name, p.name.c_str(), ml);
    int r = k.sign(m.data(), ml, sm, sl); stat_add("states", 1); stat_add("transitions", 2);
    if (r || sl != p.sig + ml || (ml && memcmp(&sm[p.sig], m.data(), ml))) viol("%s %s: signing a message of %llu bytes returned %d, length %llu", k.I->name, p.name.c_str(), ml, r, sl);
    if (ref) { ref->sign(i, m.data(), ml, rs.data()); stat_add("ref_compared", 1); if (memcmp(rs.data(), sm.data(), p.sig)) viol("%s %s: signature of a message of %llu bytes differs from the standard's", k.I->name, p.name.c_str(), ml); }
    if (mask & M_OPEN) { set_op("%s %s: verifying a message of %llu bytes", k.I->name, p.name.c_str(), ml); stat_add("verified", 1); int v = do_open(*k.I, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data()); if (v || ol != ml || (ml && memcmp(o.data(), m.data(), ml))) viol("%s %s: signed message of %llu bytes: verification returns %d, length %llu", k.I->name, p.name.c_str(), ml, v, ol); }
  }
  sample("%s %s: message lengths %s..%s", k.I->name, p.name.c_str(), a[3].c_str(), a[4].c_str());
}
static void run_huge(const Args &a, unsigned mask) { // G spec impl len
  P p = parse_spec(a[1]); wots_mode = W_MEMO; op_limit(600); ent_reset(12); char t = a[2][0]; Key k(impl_of(t), p); if (k.keygen()) viol("key generation failed"); ull ml = arg_u(a, 3);
  Alias m(0, ml), sm(p.sig, ml), o(p.sig, ml); for (size_t i = 0; i < m.per; i++) m.at(0)[i] = ent_byte(5, i); ull sl = 0, ol = 0;
  Ref ref(p, W_CONCRETE, k.sk_seed(), k.sk_prf(), k.sk_pub());
  set_op("%s %s: signing a message of %llu bytes", k.I->name, p.name.c_str(), ml); stat_add("states", 1); stat_add("transitions", 2);
  int r = p.oid ? (p.mt ? k.I->xmssmt_sign : k.I->xmss_sign)(&k.sk[0], sm.at(p.sig), &sl, m.at(0), ml) : (p.d > 1 ? k.I->xmssmt_core_sign : k.I->xmss_core_sign)(&k.rp, &k.sk[0], sm.at(p.sig), &sl, m.at(0), ml);
  if (r || sl != p.sig + ml) viol("%s %s: signing %llu bytes returned %d and length %llu", k.I->name, p.name.c_str(), ml, r, sl);
  if (memcmp(sm.at(0), m.at(0), m.per)) viol("message not copied");
  if (mask & M_OPEN) {
    set_op("%s %s: verifying a message of %llu bytes", k.I->name, p.name.c_str(), ml);
    uint8_t *ob = o.at(p.sig); // the recovered message starts at ob and is written with period-preserving alignment only in part: map a separate view
    // verification moves the message to m[0..]: with aliased pages that shifts the period, so use a private window for the result
    size_t tot = ml + p.sig + 4096; uint8_t *priv = (uint8_t *)mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); (void)ob;
    int v = do_open(*k.I, p, &k.rp, priv, &ol, sm.at(p.sig), sl, &k.pk[0]);
    if (v || ol != ml) viol("%s %s: verification of a %llu-byte signed message returns %d, length %llu", k.I->name, p.name.c_str(), ml, v, ol);
    for (ull q = 0; q < ml; q += m.per) if (memcmp(priv + q, m.at(0), std::min<ull>(m.per, ml - q))) viol("%s %s: recovered message of %llu bytes differs near byte %llu", k.I->name, p.name.c_str(), ml, q);
    munmap(priv, tot); stat_add("verified", 1);
  }
  if (mask & M_REF) {
    // the standard's signature, message hash over the virtual concatenation
    bytes head(p.pad + 3 * p.n); uint8_t R[64]; ref.randomizer(0, R); put_be(&head[0], p.pad, 2); memcpy(&head[p.pad], R, p.n); memcpy(&head[p.pad + p.n], ref.root.data(), p.n); put_be(&head[p.pad + 2 * p.n], p.n, 0);
    uint8_t mh[64]; Alias w(head.size(), ml); memcpy(w.at(head.size()), head.data(), head.size()); memcpy(w.at(0), m.at(0), m.per); set_op("reference hash of %llu bytes", ml); ref.w.h.H(w.at(head.size()), head.size() + ml, mh);
    bytes ws(p.len * p.n); ref.wsig(0, 0, 0, mh, ws.data()); if (memcmp(sm.at(p.sig) + p.idxb, R, p.n) || memcmp(sm.at(p.sig) + p.idxb + p.n, ws.data(), ws.size())) viol("%s %s: the signature of a %llu-byte message is not the standard's", k.I->name, p.name.c_str(), ml);
    stat_add("ref_compared", 1);
  }
  sample("%s %s: message of %llu bytes", k.I->name, p.name.c_str(), ml);
}
// --------------------------------------------------------------------------------- C02: call histories
static void run_hist(const Args &a) { // H spec impl depth
  P p = parse_spec(a[1]); char t = a[2][0]; unsigned depth = arg_u(a, 3); wots_mode = abstract_ok() ? W_AWOTS : W_MEMO; op_limit(240); ent_reset(21);
  const Impl &I = impl_of(t);
  Key A(I, p), B(I, p); if (A.keygen() || B.keygen()) viol("key generation failed");
  // two starting positions: fresh, and some way into the life
  std::vector<std::pair<Key, bytes>> starts; bytes sm0; { Key k = A; bytes m = message(1, 9); ull sl; starts.push_back({k, bytes()}); for (unsigned i = 0; i < (1u << p.th) - 1; i++) k.sign(m.data(), 9, sm0, sl); starts.push_back({k, bytes()}); while (k.idx() + 2 < p.capacity()) k.sign(m.data(), 9, sm0, sl); starts.push_back({k, bytes()}); }
  const int NOPS = 8; uint64_t total = 1; for (unsigned i = 0; i < depth; i++) total *= NOPS;
  Key B0 = B;
  for (auto &st : starts) for (uint64_t c = 0; c < total; c++) {
    Key k = st.first; B = B0; uint64_t x = c, start = k.idx(), next = start; bool dead = false; bytes last = sm0; std::set<uint64_t> used; std::string h;
    for (unsigned i = 0; i < depth; i++, x /= NOPS) {
      bytes sm, before = k.sk, pkb = k.pk, o(p.sig + 300); ull sl = 0, ol = 0; int r = 0; unsigned op = x % NOPS;
      static const char *nm[NOPS] = {"sign(32)", "sign(0)", "open(good)", "open(altered)", "open(truncated)", "sign(other key)", "keygen(other key)", "sign(unknown identifier)"}; h += std::string(nm[op]) + " ";
      set_op("%s %s from index %llu: %s", I.name, p.name.c_str(), (ull)start, h.c_str()); stat_add("transitions", 1);
      bool is_sign = op < 2;
      switch (op) {
        case 0: case 1: { bytes m = message(c, op ? 0 : 32); r = k.sign(m.data(), m.size(), sm, sl); break; }
        case 2: do_open(I, p, &k.rp, o.data(), &ol, last.data(), last.size(), k.pk.data()); break;
        case 3: if (!last.empty()) { bytes z = last; z[p.sig / 2] ^= 1; do_open(I, p, &k.rp, o.data(), &ol, z.data(), z.size(), k.pk.data()); } break;
        case 4: do_open(I, p, &k.rp, o.data(), &ol, last.data(), std::min<size_t>(last.size(), p.sig - 1), k.pk.data()); break;
        case 5: { bytes m = message(c, 5); uint64_t bi = B.idx(); int rb = B.sign(m.data(), 5, sm, sl); if (!rb && be(sm.data(), p.idxb) != bi) viol("other key's signature carries index %llu instead of %llu", (ull)be(sm.data(), p.idxb), (ull)bi); break; }
        case 6: B.keygen(); if (B.idx()) viol("fresh key does not start at 0"); break;
        case 7: { bytes m = message(c, 5); bytes bad(k.sk); bytes z(4 + bad.size()); put_be(&z[0], 4, 0xfff0); memcpy(&z[4], &bad[k.off], bad.size() - k.off); bytes z0 = z; sm.assign(p.sig + 5, 0); ull q = 0; int rr = (p.mt ? I.xmssmt_sign : I.xmss_sign)(z.data(), sm.data(), &q, m.data(), 5); if (!rr) viol("signing under an unknown identifier succeeded"); if (z != z0) viol("%s: a signing call that failed (unknown identifier) changed the secret key", I.name); break; }
      }
      if (k.pk != pkb) viol("public key changed");
      if (!is_sign) { if (k.sk != before) viol("%s %s: a call other than signing with this key changed its secret key: history %s", I.name, p.name.c_str(), h.c_str()); }
      else if (next >= p.capacity()) { if (r == 0) viol("signing after the last index succeeded: %s", h.c_str()); }
      else {
        if (r) viol("%s %s: signing at index %llu failed in history %s", I.name, p.name.c_str(), (ull)next, h.c_str());
        uint64_t got = be(sm.data(), p.idxb); if (got != next) viol("%s %s: signature carries index %llu instead of %llu in history %s", I.name, p.name.c_str(), (ull)got, (ull)next, h.c_str());
        if (!used.insert(got).second) viol("index %llu used twice", (ull)got);
        next++; if (next < p.capacity() && k.idx() != next) viol("%s %s: key stores index %llu instead of %llu after %s", I.name, p.name.c_str(), (ull)k.idx(), (ull)next, h.c_str()); last = sm;
      }
    }
    stat_add("states", 1);
  }
  sample("%s %s: every history of %u calls over 8 operations from 3 starting indices (%llu histories)", I.name, p.name.c_str(), depth, (ull)total * 3);
}
// --------------------------------------------------------------------------------- C03: capacity windows
static void run_cap(const Args &a) { // E spec impl mode
  P p = parse_spec(a[1]); char t = a[2][0]; wots_mode = atoi(a[3].c_str()); if (wots_mode >= W_AWOTS && !abstract_ok()) { stat_add("skipped_jobs", 1); return; }
  op_limit(600); bytes s, f, pb; seeds_for(p, 17, s, f, pb); Ref *ref = nullptr; Key base;
  if (t == 'n') { ref = new Ref(p, wots_mode, s.data(), f.data(), pb.data()); base = naive_key(p, s.data(), f.data(), pb.data(), ref->root.data(), 0); }
  else { ent_reset(6); base = Key(FAST, p); base.keygen(); s.assign(base.sk_seed(), base.sk_seed() + p.n); f.assign(base.sk_prf(), base.sk_prf() + p.n); }
  // run over the end from three before it
  uint64_t cap = p.capacity(); Key k = base; unsigned before = p.th >= 16 ? 2 : 4; k.set_idx(cap - before); bytes sm, rs(p.sig); ull sl; unsigned made = 0;
  for (unsigned i = 0; i < before; i++) {
    uint64_t ix = cap - before + i; bytes m = message(ix, 20); set_op("%s %s: signing at index %llu (capacity %llu)", k.I->name, p.name.c_str(), (ull)ix, (ull)cap); int r = k.sign(m.data(), 20, sm, sl); stat_add("transitions", 1); stat_add("states", 1);
    if (r) viol("%s %s: signing at index %llu failed with %d although the key has a capacity of %llu", k.I->name, p.name.c_str(), (ull)ix, r, (ull)cap);
    if (be(sm.data(), p.idxb) != ix) viol("%s %s: index %llu in the signature, expected %llu", k.I->name, p.name.c_str(), (ull)be(sm.data(), p.idxb), (ull)ix);
    if (ref) { ref->sign(ix, m.data(), 20, rs.data()); if (memcmp(rs.data(), sm.data(), p.sig)) viol("%s %s: the signature at index %llu of %llu is not valid (not the standard's)", k.I->name, p.name.c_str(), (ull)ix, (ull)cap); stat_add("ref_compared", 1);
      if (wots_mode == W_AWOTS) { bytes o(sl); ull ol; if (do_open(*k.I, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data())) viol("%s %s: signature at index %llu of %llu does not verify", k.I->name, p.name.c_str(), (ull)ix, (ull)cap); } }
    made++;
  }
  check_exhausted(k, s, f, 3, p.h == 8 * p.idxb);
  // stored indices beyond the end
  std::set<uint64_t> v; for (uint64_t i = cap; i < cap + 6; i++) v.insert(i); uint64_t maxi = p.idxb == 8 ? ~0ull : (1ull << (8 * p.idxb)) - 1; for (unsigned b = p.h; b < 8 * p.idxb; b++) { v.insert(1ull << b); v.insert((1ull << b) | 1); v.insert((1ull << b) + cap - 1); } v.insert(maxi); v.insert(maxi - 1);
  for (auto i : v) if (i >= cap && i <= maxi) { Key q = base; q.set_idx(i); set_op("stored index %llu", (ull)i); check_exhausted(q, s, f, 2, true); stat_add("out_of_range_indices", 1); }
  sample("%s %s: last %u signatures and %zu stored indices at or beyond the capacity %llu", k.I->name, p.name.c_str(), made, v.size(), (ull)cap);
}
// F spec impl mode nfill: real key generation into buffers with several contents, and the key's first signatures
static void run_fresh(const Args &a, unsigned mask) {
  P p = parse_spec(a[1]); const Impl &I = impl_of(a[2][0]); int mode = atoi(a[3].c_str()); unsigned nf = arg_u(a, 4);
  if (mode >= W_AWOTS && !abstract_ok()) { note("abstract one-time signatures not available on this tree; job skipped"); stat_add("skipped_jobs", 1); return; }
  wots_mode = mode; op_limit(240); Ref *ref = nullptr;
  for (unsigned fill = 0; fill < nf; fill++) {
    ent_reset(901); Key k(I, p); auto paint = [&](bytes &b) { for (size_t i = 0; i < b.size(); i++) b[i] = fill == 0 ? 0xFF : fill == 1 ? 0x01 : fill == 2 ? (uint8_t)(i * 37 + 11) : fill == 3 ? 0 : 0x80; }; paint(k.sk); paint(k.pk);
    set_op("%s %s: key generation into a buffer filled with pattern %u", I.name, p.name.c_str(), fill); if (k.keygen()) viol("%s %s: key generation failed", I.name, p.name.c_str()); stat_add("states", 1); stat_add("transitions", 1);
    if (k.idx() != 0) viol("%s %s: a fresh key starts at index %llu", I.name, p.name.c_str(), (ull)k.idx());
    if (memcmp(k.pk_root(), k.sk_root(), p.n) || memcmp(k.pk_seed(), k.sk_pub(), p.n)) viol("%s %s: public and secret key hold different roots or public seeds", I.name, p.name.c_str());
    if (mask & M_REF) { if (!ref) { op_limit(0); ref = new Ref(p, mode, k.sk_seed(), k.sk_prf(), k.sk_pub()); op_limit(240); } if (memcmp(k.pk_root(), ref->root.data(), p.n)) viol("%s %s: public key root differs from the standard's", I.name, p.name.c_str()); if (memcmp(k.sk_seed(), ref->seed.data(), p.n) || memcmp(k.sk_prf(), ref->prf.data(), p.n) || memcmp(k.sk_pub(), ref->pub.data(), p.n)) viol("%s %s: the seeds depend on the buffer's contents", I.name, p.name.c_str()); }
    for (uint64_t i = 0; i < (p.th >= 16 && I.tag == 'n' ? 1 : 3); i++) {
      bytes m = message(i + 3, 40 + i), sm, rs(p.sig); ull sl; set_op("%s %s: signature %llu of a fresh key", I.name, p.name.c_str(), (ull)i); if (k.sign(m.data(), m.size(), sm, sl)) viol("%s %s: signing failed", I.name, p.name.c_str()); stat_add("states", 1); stat_add("transitions", 1);
      if (be(sm.data(), p.idxb) != i || k.idx() != i + 1) viol("%s %s: signature %llu of a fresh key carries index %llu and leaves index %llu", I.name, p.name.c_str(), (ull)i, (ull)be(sm.data(), p.idxb), (ull)k.idx());
      if (mask & M_REF) { ref->sign(i, m.data(), m.size(), rs.data()); if (memcmp(rs.data(), sm.data(), p.sig)) viol("%s %s: signature %llu of a fresh key differs from the standard's", I.name, p.name.c_str(), (ull)i); }
      if ((mask & M_OPEN) && mode != W_ALEAF) { bytes o(sl); ull ol = 0; if (do_open(I, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data()) || ol != m.size() || memcmp(o.data(), m.data(), ol)) viol("%s %s: signature %llu of a fresh key does not verify", I.name, p.name.c_str(), (ull)i); }
    }
  }
  sample("%s %s mode %d: key generation into %u differently filled buffers", I.name, p.name.c_str(), mode, nf);
}
static void fresh_jobs(Out out, bool th, bool open) {
  for (auto &p : official()) for (char t : {'n', 'f'}) { int m = open && p.th <= 10 ? W_AWOTS : W_ALEAF; if (p.th == 20 && !th && (t == 'n' || p.func || p.n != 32)) continue; if (open && p.th > 10) continue; out(treecost(p, m) * (t == 'n' ? 16 : 10), js("F %s %c %d %u", p.str().c_str(), t, m, p.th == 20 ? 1 : p.th == 16 ? 2 : 5)); }
  for (auto &p : {custom(0, 32, 32, 62, 31), custom(0, 24, 4, 48, 16), custom(0, 64, 64, 24, 8), custom(0, 32, 32, 16, 8), custom(0, 32, 32, 56, 14), custom(0, 32, 32, 40, 10, 16, 2)}) for (char t : {'n', 'f'}) if (t == 'f' || !p.k) out(1, js("F %s %c %d 5", p.str().c_str(), t, open ? W_AWOTS : W_ALEAF));
}
static void generic_run(const Args &a, unsigned mask) {
  switch (a[0][0]) { case 'W': run_walk(a, mask); break; case 'I': run_index_set(a, mask); break; case 'D': run_digits(a, mask); break; case 'L': run_lengths(a, mask); break; case 'F': run_fresh(a, mask); break; case 'H': run_hist(a); break; case 'E': run_cap(a); break; case 'G': run_huge(a, mask); break; default: fprintf(stderr, "bad job\n"); exit(3); }
}
static std::string ij(const P &p, char t, int mode, bool all, size_t maxn) { return js("I %s %c %d %d %zu", p.str().c_str(), t, mode, all, maxn); }
static void length_jobs(Out out, bool th, unsigned step = 1) {
  for (auto &p : hash_combos(5, 1)) for (char t : {'n', 'f'}) { if (t == 'f' && !th && p.n == 64) continue; for (unsigned b = 0; b < (th ? 1200u : 600u); b += 100) out(leafcost(p) * 140, js("L %s %c %u %u 1", p.str().c_str(), t, b, b + 99)); }
  for (auto &p : hash_combos(4, 2)) out(leafcost(p) * 200, js("L %s %c %u %u 1", p.str().c_str(), 'f', 0, th ? 400 : 150));
  for (auto &p : hash_combos(4, 2)) out(leafcost(p) * 60, js("L %s %c %u %u 1", p.str().c_str(), 'n', 0, 40));
  for (auto &p : hash_combos(4, 1)) out(leafcost(p) * 50, js("L %s f 4070 4120 1", p.str().c_str()));
  for (auto &p : hash_combos(4, 1)) out(leafcost(p) * 20, js("L %s n 65530 65542 1", p.str().c_str()));
  for (auto &p : hash_combos(4, 1)) out(leafcost(p) * 20 + .2, js("L %s f 1000000 1000040 9", p.str().c_str()));
  for (auto &p : hash_combos(4, 2)) for (char t : {'n', 'f'}) for (unsigned b : {9u, 17u, 21u}) out(b < 20 ? 1 : 3, js("L %s %c %u %u 0", p.str().c_str(), t, b, b < 17 ? 16 : b < 20 ? 20 : th ? 27 : 22));
  for (char t : {'n', 'f'}) out(12, js("G %s %c %llu", custom(0, 32, 32, 4, 2).str().c_str(), t, (ull)(1ull << 32) + 5));
  for (const char *q : {"x:1", "m:1"}) out(32, js("G %s f %llu", q, (ull)(1ull << 32) + 5)); // by way of the entry points for named sets
  if (th) { for (char t : {'n', 'f'}) for (auto &p : hash_combos(4, 1)) out(60, js("G %s %c %llu", p.str().c_str(), t, (ull)(1ull << 32) + 77)); out(12, js("G %s f %llu", custom(0, 32, 32, 4, 2).str().c_str(), (ull)(1ull << 31) + 1)); }
}
static Reg c01("C01", {[](bool th, Out out) {
  small_lives(out, th, 'b', false); for (char t : {'n', 'f'}) xmss10(out, t);
  length_jobs(out, th);
  if (abstract_ok()) {
    for (auto &p : abstract_shapes(th)) out(1 << (p.h > 12 ? p.h - 12 : 0), wj(p, 'f', W_AWOTS, ~0ull, p.h > 12 ? 7 : 1, 1));
    for (auto &p : official()) if (!p.mt && p.h == 16 && (th || p.func == 0)) out(20, wj(p, 'f', W_AWOTS, ~0ull, th ? 1 : 16));
    for (const char *n : {"XMSSMT-SHA2_20/4_256", "XMSSMT-SHA2_20/2_256"}) out(60, wj(off_by_name(n), 'f', W_AWOTS, th ? ~0ull : 300000, th ? 7 : 256));
    for (const char *n : {"XMSSMT-SHA2_40/8_256", "XMSSMT-SHA2_60/12_256"}) out(60, wj(off_by_name(n), 'f', W_AWOTS, th ? 3200000 : 1060000, 4096));
    for (auto &p : official()) if (p.th <= (th ? 16 : 10)) out(treecost(p, W_AWOTS) * 60, ij(p, 'n', W_AWOTS, th, th ? 60 : p.th > 9 ? 8 : 30));
    jump_jobs(out, th, "f", W_AWOTS, 1, th ? 1 : 4); distant_jobs(out, th, th ? "fn" : "f", W_AWOTS); fresh_jobs(out, th, true);
  }
}, [](const Args &a) { generic_run(a, M_SHAPE | M_OPEN); }});
static Reg c02("C02", {[](bool th, Out out) {
  small_lives(out, false, 'b', false); if (th) for (char t : {'n', 'f'}) xmss10_cheap(out, t);
  for (char t : {'n', 'f'}) for (auto &p : {custom(0, 32, 32, 4, 1), custom(0, 32, 32, 4, 2), custom(0, 24, 4, 6, 3), custom(1, 32, 32, 6, 2)}) out(20, js("H %s %c %d", p.str().c_str(), t, th ? 5 : 4));
  for (auto &p : official()) if (p.h == 10 && p.oid == 1) out(9, js("H %s f %d", p.str().c_str(), 2));
  if (abstract_ok()) {
    for (auto &p : abstract_shapes(th)) out(1 << (p.h > 14 ? p.h - 14 : 0), wj(p, 'f', W_ALEAF, ~0ull, 1, 1));
    for (auto &p : official()) if (!p.mt && p.h == 16) out(3, wj(p, 'f', W_ALEAF));
    for (const char *n : {"XMSSMT-SHA2_20/4_256", "XMSSMT-SHA2_20/2_256", "XMSS-SHA2_20_256"}) out(20, wj(off_by_name(n), 'f', W_ALEAF));
    for (auto &p : official()) { if (p.th < 20 || p.oid <= 6 || th) out(treecost(p, W_ALEAF) * 2, ij(p, 'f', W_ALEAF, true, 400)); if (p.th < 20) out(treecost(p, W_ALEAF) * 100, ij(p, 'n', W_ALEAF, true, p.th > 10 ? (th ? 40 : 12) : 200)); else if (th || p.oid <= 6) out(60, ij(p, 'n', W_ALEAF, false, th ? 12 : 4)); }
    jump_jobs(out, th, "f", W_ALEAF, .4, th ? 1 : 3); distant_jobs(out, th, "fn", W_ALEAF, .4); fresh_jobs(out, th, false);
    for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 32, 32, 62, 31), custom(0, 32, 32, 40, 20), custom(0, 32, 32, 48, 16), custom(0, 32, 32, 24, 8), custom(0,32,32,30,10), custom(0,24,4,56,14)}) for (char t : {'n', 'f'}) out(1, ij(p, t, W_ALEAF, true, 1000));
  } else for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 32, 32, 40, 20), custom(0, 32, 32, 48, 16), custom(0, 32, 32, 24, 8)}) for (char t : {'n', 'f'}) out(1, ij(p, t, W_MEMO, false, 30));
}, [](const Args &a) { generic_run(a, M_SHAPE | M_IDX); }});
static Reg c03("C03", {[](bool th, Out out) {
  // complete lives, counted, with the last signature verified
  for (char t : {'n', 'f'}) {
    for (auto &s : std::vector<std::array<unsigned, 2>>{{4, 1}, {5, 1}, {4, 2}, {6, 2}, {6, 3}, {8, 4}, {8, 2}, {9, 3}}) for (auto &p : hash_combos(s[0], s[1])) if (th || s[0] < 8 || (p.func == 0 && p.n < 64)) out(leafcost(p) * (1 << s[0]) * (1 + s[1]), wj(p, t, W_MEMO, ~0ull, 1, 1));
    xmss10_cheap(out, t); if (th) xmss10(out, t);
  }
  if (abstract_ok()) {
    for (auto &p : abstract_shapes(th)) out(1 << (p.h > 12 ? p.h - 12 : 0), wj(p, 'f', W_AWOTS, ~0ull, 64));
    for (auto &p : official()) if (!p.mt && p.h == 16 && (th || p.func == 0)) out(10, wj(p, 'f', W_AWOTS, ~0ull, 64));
    for (const char *n : {"XMSSMT-SHA2_20/4_256", "XMSSMT-SHA2_20/2_256", "XMSS-SHA2_20_256"}) out(20, wj(off_by_name(n), 'f', W_ALEAF));
    for (auto &p : official()) { out(treecost(p, W_ALEAF) * 3, js("E %s f %d", p.str().c_str(), W_ALEAF)); if (p.th < 20 || th || p.oid <= 6) out(treecost(p, p.th <= 10 ? W_AWOTS : W_ALEAF) * 6, js("E %s n %d", p.str().c_str(), p.th <= 10 ? W_AWOTS : W_ALEAF)); }
    for (auto &p : official()) if (p.th <= (th ? 20 : 10) && p.mt) for (char t : {'f', 'n'}) { if (p.th == 20 && t == 'n') continue; int m = p.th <= 10 ? W_AWOTS : W_ALEAF; out(treecost(p, m) * (t == 'n' ? 40 : 4), wj(p, t, m, ~0ull, 1, 1, p.capacity() - (p.th == 5 ? 70 : 20))); }
    for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 32, 32, 63, 21), custom(0, 24, 4, 62, 31), custom(0, 64, 64, 48, 16), custom(0, 32, 32, 40, 10, 16, 2)}) for (char t : {'n', 'f'}) if (t == 'f' || !p.k) out(1, wj(p, t, W_AWOTS, ~0ull, 1, 1, p.capacity() - 130));
    for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 32, 32, 62, 31), custom(0, 32, 32, 40, 20), custom(0, 32, 32, 48, 16), custom(0, 32, 32, 24, 8), custom(0, 32, 32, 16, 8), custom(0, 32, 32, 8, 4)}) for (char t : {'n', 'f'}) out(1, js("E %s %c %d", p.str().c_str(), t, W_ALEAF));
  } else for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 32, 32, 40, 20), custom(0, 32, 32, 24, 8), custom(0, 32, 32, 8, 4)}) for (char t : {'n', 'f'}) out(1, js("E %s %c %d", p.str().c_str(), t, W_MEMO));
}, [](const Args &a) { generic_run(a, M_SHAPE | M_OPEN | M_END); }});
static Reg c04("C04", {[](bool th, Out out) {
  small_lives(out, th, 'f', false); xmss10(out, 'f');
  if (abstract_ok()) {
    for (auto &p : abstract_shapes(th)) out(1 << (p.h > 11 ? p.h - 11 : 0), wj(p, 'f', p.h > 14 && !th ? W_ALEAF : W_AWOTS, ~0ull, p.h > 12 ? 17 : 1, 1));
    for (auto &p : official()) if (p.th <= 10) out(2 + treecost(p, W_AWOTS) * 20, wj(p, 'f', W_AWOTS, th ? 4100 : p.th == 5 ? 1100 : 40, p.th == 5 ? 1 : 1));
    for (const char *n : {"XMSSMT-SHA2_20/4_256", "XMSSMT-SHA2_20/2_256"}) out(60, wj(off_by_name(n), 'f', W_ALEAF, ~0ull, n[14] == '4' ? 997 : 16384));
    for (const char *n : {"XMSSMT-SHA2_40/8_256", "XMSSMT-SHA2_60/12_256"}) out(40, wj(off_by_name(n), 'f', W_ALEAF, th ? 5000000 : 1060000, 4096));
    for (auto &p : official()) if (!p.mt && p.h == 16) out(10, wj(p, 'f', W_ALEAF, ~0ull, th ? 512 : 4096));
    for (auto &p : official()) if (p.mt && p.th == 20 && (th || p.oid == 3)) out(60, wj(p, 'f', W_ALEAF, 3));
    jump_jobs(out, th, "f", W_ALEAF, 2, th ? 1 : 2); distant_jobs(out, th, "f", W_ALEAF, 2);
  }
}, [](const Args &a) { generic_run(a, M_PEER); }});
static Reg c05("C05", {[](bool th, Out out) {
  small_lives(out, th, 'b', false); for (char t : {'n', 'f'}) xmss10_cheap(out, t); xmss10(out, 'f');
  for (auto &p : hash_combos(4, 2)) for (char t : {'n', 'f'}) out(leafcost(p) * 200, js("L %s %c %u %u 1", p.str().c_str(), t, 0, 220));
  for (auto &p : hash_combos(4, 1)) out(leafcost(p) * 20, js("L %s n 65530 65542 1", p.str().c_str()));
  for (auto &p : hash_combos(4, 1)) for (char t : {'n', 'f'}) out(3, js("L %s %c 9 %u 0", p.str().c_str(), t, th ? 26 : 22));
  out(12, js("G %s f %llu", custom(0, 32, 32, 4, 2).str().c_str(), (ull)(1ull << 32) + 5));
  for (unsigned w : {4u, 256u}) for (auto &p : hash_combos(4, 2, w)) if (w == 4 || th || p.func == 0) for (char t : {'n', 'f'}) out(leafcost(p) * (w == 4 ? 60 : 300), wj(p, t, W_MEMO, ~0ull, 1, 1));
  // concrete keys of official sets with affordable trees
  for (auto &p : official()) if (p.mt && p.th <= (th ? 10 : 5)) { out(leafcost(p) * 3 * p.d * (1 << p.th), wj(p, 'f', W_MEMO, p.th == 5 ? (th ? 200 : 40) : 12)); out(leafcost(p) * 3 * p.d * (1 << p.th), ij(p, 'n', W_MEMO, false, th ? 6 : 1)); }
  if (abstract_ok()) {
    for (auto &p : abstract_shapes(th)) out(1 << (p.h > 14 ? p.h - 14 : 0), wj(p, 'f', W_ALEAF, ~0ull, 1, 1));
    for (auto &p : official()) if (!p.mt && p.h == 16) out(5, wj(p, 'f', W_ALEAF));
    for (const char *n : {"XMSSMT-SHA2_20/4_256", "XMSSMT-SHA2_20/2_256", "XMSS-SHA2_20_256"}) out(40, wj(off_by_name(n), 'f', W_ALEAF));
    for (const char *n : {"XMSSMT-SHA2_40/8_256", "XMSSMT-SHA2_60/12_256", "XMSSMT-SHA2_40/4_256", "XMSSMT-SHA2_60/6_256"}) out(40, wj(off_by_name(n), 'f', W_ALEAF, th ? 5000000 : 1060000));
    for (const char *n : {"XMSSMT-SHA2_40/2_256", "XMSSMT-SHA2_60/3_256"}) out(40, wj(off_by_name(n), 'f', W_ALEAF, th ? 1060000 : 40000));
    if (th) for (auto &p : official()) if (p.h == 20 && p.oid != 1) out(60, wj(p, 'f', W_ALEAF));
    jump_jobs(out, th); distant_jobs(out, th, "fn", W_ALEAF); fresh_jobs(out, th, false);
    for (auto &p : official()) if (p.th < 20) out(treecost(p, W_ALEAF) * 100, ij(p, 'n', W_ALEAF, true, p.th > 10 ? (th ? 60 : 8) : p.th == 10 ? 40 : 200)); else if (th || p.oid <= 6) out(60, ij(p, 'n', W_ALEAF, false, th ? 12 : 4));
    for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 64, 64, 62, 31), custom(0, 32, 32, 40, 20), custom(0, 24, 4, 48, 16)}) out(1, ij(p, 'n', W_ALEAF, true, 1000));
  }
}, [](const Args &a) { generic_run(a, M_REF | M_SHAPE); }});
static Reg c16("C16", {[](bool th, Out out) {
  for (auto &p : {custom(0, 32, 32, 4, 1), custom(0, 32, 32, 6, 2), custom(0, 24, 4, 6, 3), custom(0, 32, 32, 8, 4), custom(0, 32, 32, 8, 2)}) for (char t : {'n', 'f'}) out(3, wj(p, t, W_MEMO));
  if (abstract_ok()) {
    for (auto &p : abstract_shapes(th)) out(1 << (p.h > 13 ? p.h - 13 : 0), wj(p, 'f', W_ALEAF));
    for (auto &p : abstract_shapes(false)) if (p.h <= 12 && !p.k) out(3, wj(p, 'n', W_ALEAF));
    for (const char *n : {"XMSSMT-SHA2_20/4_256", "XMSSMT-SHA2_20/2_256", "XMSS-SHA2_20_256", "XMSS-SHA2_16_256", "XMSS-SHA2_10_256"}) out(40, wj(off_by_name(n), 'f', W_ALEAF));
    for (const char *n : {"XMSSMT-SHA2_40/8_256", "XMSSMT-SHA2_60/12_256"}) out(60, wj(off_by_name(n), 'f', W_ALEAF, th ? 3000000 : 1060000));
    for (auto &p : official()) if (p.th <= 10 && p.oid > 1) out(2, wj(p, 'f', W_ALEAF, 2100));
    jump_jobs(out, th, "fn", W_ALEAF, 1, th ? 1 : 2); distant_jobs(out, th, "fn", W_ALEAF);
  } else for (auto &p : {custom(0, 32, 32, 12, 4), custom(0, 32, 32, 12, 3)}) out(30, wj(p, 'f', W_MEMO));
}, [](const Args &a) { generic_run(a, M_OTS); }});
static Reg c20("C20", {[](bool th, Out out) {
  for (auto &s : std::vector<std::array<unsigned, 3>>{{6, 1, 0}, {6, 2, 0}, {6, 3, 0}, {8, 4, 0}, {8, 2, 0}, {9, 3, 0}, {8, 2, 2}}) out(20, wj(custom(0, 24, 4, s[0], s[1], 16, s[2]), 'f', W_CONCRETE));
  if (abstract_ok()) {
    for (auto &p : abstract_shapes(th)) out(1 << (p.h > 15 ? p.h - 15 : 0), wj(p, 'f', W_ALEAF));
    for (auto &p : official()) if (!p.mt) out(p.h == 20 ? 30 : 2, wj(p, 'f', W_ALEAF, p.h == 20 && p.oid != 3 && !th ? 70000 : ~0ull));
    for (auto &p : official()) if (p.mt && p.h == 20 && (p.oid <= 2 || th)) out(20, wj(p, 'f', W_ALEAF));
    for (auto &p : official()) if (p.mt && p.h > 20 && p.th < 20 && (p.oid <= 8 || th)) out(20, wj(p, 'f', W_ALEAF, th ? 5000000 : 1060000));
    for (auto &p : official()) if (p.mt && p.th == 20 && (p.oid <= 8 || th)) out(20, wj(p, 'f', W_ALEAF, th ? 1100000 : 40000));
    jump_jobs(out, th); distant_jobs(out, th, "f", W_ALEAF);
  } else for (auto &p : {custom(0, 32, 32, 12, 4), custom(0, 32, 32, 12, 3)}) out(30, wj(p, 'f', W_CONCRETE));
}, [](const Args &a) { generic_run(a, M_WORK); }});
