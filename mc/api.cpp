// C08 buffers, C09 registry, C10 identifiers
#include "guard.hpp"
#include <algorithm>
#include <unistd.h>
typedef std::function<void(double, const std::string &)> Out;
extern volatile uint32_t g_cur;
static bool mode_ok(int m) { if (m >= W_AWOTS && !abstract_ok()) { stat_add("skipped_jobs", 1); return false; } return true; }
static int api_keypair(const Impl &I, const P &p, const xmss_params *rp, uint8_t *pk, uint8_t *sk) { if (p.oid) return (p.mt ? I.xmssmt_keypair : I.xmss_keypair)(pk, sk, p.oid); return (p.d > 1 ? I.xmssmt_core_keypair : I.xmss_core_keypair)(rp, pk, sk); }
static int api_sign(const Impl &I, const P &p, const xmss_params *rp, uint8_t *sk, uint8_t *sm, ull *sl, const uint8_t *m, ull ml) { if (p.oid) return (p.mt ? I.xmssmt_sign : I.xmss_sign)(sk, sm, sl, m, ml); return (p.d > 1 ? I.xmssmt_core_sign : I.xmss_core_sign)(rp, sk, sm, sl, m, ml); }
#define SLACK(buf, nm) do { long q_ = (buf).slack_changed(); if (q_ != -999999) viol("%s %s: %s wrote outside %s (at offset %ld of a buffer of %zu bytes)", I.name, p.name.c_str(), op.c_str(), nm, q_, (buf).n); } while (0)
// ------------------------------------------------------------------------------------------------ C08
struct C08 {
  const Impl &I; P p; xmss_params rp; unsigned off; GB pk, sk, sm, sl, m, o, ol; bool end = true; uint8_t fill = 0x5A; std::string op; bytes kpk, ksk;
  C08(const Impl &I, const P &p) : I(I), p(p) { rp = repo_params(I, p); off = p.oid ? 4 : 0; if (rp.sig_bytes != p.sig || rp.pk_bytes != p.pkb) viol("documented sizes differ"); }
  void keygen() {
    op = "key generation"; set_op("%s %s: key generation into exact buffers (%s)", I.name, p.name.c_str(), end ? "ending at a guard page" : "starting at a guard page");
    pk.alloc(off + rp.pk_bytes, end, fill); sk.alloc(off + rp.sk_bytes, end, fill); ent_reset(4);
    if (api_keypair(I, p, &rp, pk.p, sk.p)) viol("%s %s: key generation failed", I.name, p.name.c_str());
    SLACK(pk, "the public key"); SLACK(sk, "the secret key"); kpk = pk.get(); ksk = sk.get(); stat_add("states", 1); stat_add("transitions", 1);
  }
  void usekey(const Key &k) { kpk = k.pk; ksk = k.sk; }
  bytes out; int last = 0;
  void sign(const bytes &msg, bool expect_ok = true) {
    op = "signing"; set_op("%s %s: signing %zu bytes with exact buffers (%s)", I.name, p.name.c_str(), msg.size(), end ? "end" : "start");
    sk.put(ksk, end, fill); m.put(msg, end, fill); m.ro(); sm.alloc(p.sig + msg.size(), end, fill); sl.alloc(8, end, fill); ull z = 0; memcpy(sl.p, &z, 8);
    last = api_sign(I, p, &rp, sk.p, sm.p, (ull *)sl.p, m.p, msg.size()); stat_add("states", 1); stat_add("transitions", 1);
    if (expect_ok != (last == 0)) viol("%s %s: signing %zu bytes returned %d", I.name, p.name.c_str(), msg.size(), last);
    SLACK(sk, "the secret key"); SLACK(sm, "the signed message"); SLACK(m, "the message"); SLACK(sl, "the length"); ksk = sk.get(); out = sm.get();
  }
  void open(const bytes &in, int expect) { // expect: 0 accept, 1 reject
    op = "verification"; set_op("%s %s: verifying %zu bytes with exact buffers (%s)", I.name, p.name.c_str(), in.size(), end ? "end" : "start");
    pk.put(kpk, end, fill); pk.ro(); sm.put(in, end, fill); sm.ro(); o.alloc(in.size(), end, fill); ol.alloc(8, end, fill);
    int r = do_open(I, p, &rp, o.p, (ull *)ol.p, sm.p, in.size(), pk.p); stat_add("states", 1); stat_add("transitions", 1);
    if ((r == 0) != (expect == 0)) viol("%s %s: verifying %zu bytes returned %d", I.name, p.name.c_str(), in.size(), r);
    SLACK(o, "the recovered message"); SLACK(ol, "its length"); SLACK(sm, "the signed message"); SLACK(pk, "the public key");
  }
};
static void c08_api(const Args &a) { // A spec impl mode maxlen step
  P p = parse_spec(a[1]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(240); C08 c(impl_of(a[2][0]), p); ull maxl = arg_u(a, 4), step = arg_u(a, 5, 1); bool naive = a[2][0] == 'n'; bytes s, f, pb, root(p.n, 1); seeds_for(p, 3, s, f, pb);
  for (int end : {1, 0}) {
    c.end = end; c.fill = end ? 0x5A : 0xC3; c.keygen(); bytes k0pk = c.kpk, k0sk = c.ksk; std::vector<ull> lens; for (ull l = 0; l <= maxl; l += step) lens.push_back(l); for (ull l : {64ull, 4095ull, 4096ull, 4097ull, 8192ull, 65535ull, 65536ull, 65537ull}) if (maxl > 50) lens.push_back(l);
    uint64_t used = 0;
    for (ull l : lens) {
      if (++used > p.capacity()) { c.ksk = k0sk; used = 1; } bytes msg = message(l, l); c.sign(msg);
      if (p.th <= 10) c.open(c.out, wots_mode == W_ALEAF ? 1 : 0); // (abstract leaves do not fit the verifier's recomputation)
    }
    // the end of the key's life, and after it
    if (naive) { Key k = naive_key(p, &k0sk[c.off + p.idxb], &k0sk[c.off + p.idxb + p.n], &k0sk[c.off + p.idxb + 3 * p.n], &k0sk[c.off + p.idxb + 2 * p.n], p.capacity() - 1); c.usekey(k); }
    else { c.ksk = k0sk; put_be(&c.ksk[c.off], p.idxb, p.capacity() - 1); }
    c.sign(message(1, 40)); for (ull l : {0ull, 40ull}) c.sign(message(2, l), false);
    for (uint64_t ix : {p.last(), p.last() + 1, p.last() + 2, (uint64_t)~0ull}) if (ix > p.capacity() - 1) { c.ksk = k0sk; put_be(&c.ksk[c.off], p.idxb, ix); if (be(&c.ksk[c.off], p.idxb) >= p.capacity()) for (int q = 0; q < 2; q++) c.sign(message(2, 10), false); }
  }
  sample("%s %s: exact buffers, messages of 0..%llu bytes and up to 65537", c.I.name, p.name.c_str(), maxl);
}
static void c08_open(const Args &a) { // O spec impl mode tail
  P p = parse_spec(a[1]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(240); C08 c(impl_of(a[2][0]), p); ull tail = arg_u(a, 4); bytes s, f, pb, root(p.n, 0x42); seeds_for(p, 3, s, f, pb);
  c.usekey(naive_key(p, s.data(), f.data(), pb.data(), root.data(), 0)); bytes junk = message(8, p.sig + tail + 70000); bool sparse = p.sig > 6000 && tail < 20;
  for (int end : {1, 0}) for (unsigned pat = 0; pat < (sparse ? 1u : 3u); pat++) {
    c.end = end; c.fill = end ? 0x5A : 0xC3; if (pat) std::fill(junk.begin(), junk.end(), pat == 1 ? 0 : 0xFF);
    for (ull l = 0; l < p.sig; l++) if ((pat == 0 && (!sparse || (l - p.idxb) % p.n < 2 || l % 37 == 0)) || l % 61 == 0 || l + 40 > p.sig || l < 100) c.open(bytes(junk.begin(), junk.begin() + l), 1);
    for (ull l = p.sig; l <= p.sig + (pat ? 2 : tail); l++) c.open(bytes(junk.begin(), junk.begin() + l), 1);
    if (tail > 20) for (ull l : {p.sig * 2 - 1, p.sig * 2, p.sig * 2 + 1, p.sig + 4096, p.sig + 65536}) c.open(bytes(junk.begin(), junk.begin() + l), 1);
  }
  sample("%s %s: signed messages of every length 0..%llu", c.I.name, p.name.c_str(), p.sig + tail);
}
static void c08_big(const Args &a) { // B spec impl lengths...: messages larger than a stack, altered and unaltered
  P p = parse_spec(a[1]); wots_mode = W_MEMO; op_limit(240); C08 c(impl_of(a[2][0]), p); std::string l; c.keygen();
  for (size_t i = 3; i < a.size(); i++) for (int end : {1, 0}) { c.end = end; ull n = arg_u(a, i); l += a[i] + " "; bytes m = message(i, n); c.sign(m); bytes s = c.out; c.open(s, 0); s[s.size() - 1] ^= 4; c.open(s, 1); }
  sample("%s %s: exact buffers, messages of %sbytes", c.I.name, p.name.c_str(), l.c_str());
}
static void c08_huge(const Args &a) { // G spec impl mlen (multiple of the page size): the message, the signed message and the output all end at a guard page
  P p = parse_spec(a[1]); wots_mode = W_MEMO; op_limit(600); const Impl &I = impl_of(a[2][0]); ull ml = arg_u(a, 3); ent_reset(13); Key k(I, p); if (k.keygen()) viol("key generation failed"); Alias m(0, ml), s(p.sig, ml); for (size_t i = 0; i < m.per; i++) m.at(0)[i] = ent_byte(5, i); m.guard_end(); s.guard_end(); ull sl = 0, ol = 0;
  set_op("%s %s: signing %llu bytes, buffers ending at guard pages", I.name, p.name.c_str(), ml); int r = (p.d > 1 ? I.xmssmt_core_sign : I.xmss_core_sign)(&k.rp, &k.sk[0], s.at(p.sig), &sl, m.at(0), ml); stat_add("states", 2); stat_add("transitions", 2);
  if (r || sl != p.sig + ml) viol("%s %s: signing %llu bytes returned %d, length %llu", I.name, p.name.c_str(), ml, r, sl);
  if (memcmp(s.at(0), m.at(0), s.per)) viol("%s %s: the %llu-byte message was not copied", I.name, p.name.c_str(), ml);
  s.at(p.sig)[p.idxb] ^= 1; // a signature that is rejected: the output may alias itself then
  Alias o(p.sig, ml); o.guard_end(); set_op("%s %s: verifying an altered message of %llu bytes, buffers ending at guard pages", I.name, p.name.c_str(), ml); r = do_open(I, p, &k.rp, o.at(p.sig), &ol, s.at(p.sig), sl, &k.pk[0]);
  if (!r || ol) viol("%s %s: verification of an altered %llu-byte message returned %d, length %llu", I.name, p.name.c_str(), ml, r, ol);
  sample("%s %s: messages of %llu bytes between guard pages", I.name, p.name.c_str(), ml);
}
static void c08_run(const Args &a) {
  if (a[0] == "W") { Walk w; w.p = parse_spec(a[1]); w.impl = a[2][0]; w.mode = atoi(a[3].c_str()); w.varlen = true; w.mask = M_SHAPE | M_OPEN | M_END; if (mode_ok(w.mode)) walk(w); }
  else if (a[0] == "A") c08_api(a); else if (a[0] == "B") c08_big(a); else if (a[0] == "G") c08_huge(a); else c08_open(a);
}
static Reg c08("C08", {[](bool th, Out out) {
  bool ab = abstract_ok();
  for (auto &p : official()) for (char t : {'n', 'f'}) {
    if (p.th <= 10) { if (ab) out(.02 * p.d * (1 << p.th) / 32, js("A %s %c %d %d %d", p.str().c_str(), t, W_ALEAF, th ? 300 : 12, th ? 1 : 5)); }
    else if (p.th == 16) { if (ab) out(5, js("A %s %c %d 3 3", p.str().c_str(), t, W_ALEAF)); }
    else if (ab && (th || (p.oid == 3 && t == 'f'))) out(60, js("A %s %c %d 2 2", p.str().c_str(), t, W_ALEAF));
    if (ab || p.d <= 2) out(.5 * p.d * (p.func ? 2 : 1) * (p.n == 64 ? 3 : 1), js("O %s %c %d %d", p.str().c_str(), t, ab ? W_AWOTS : W_CONCRETE, th ? 80 : 2));
  }
  for (auto &p : hash_combos(4, 2)) for (char t : {'n', 'f'}) { bool c = p.func == 0 && p.n < 64; out(5, js("A %s %c %d 300 %d", p.str().c_str(), t, W_MEMO, c || th ? 1 : 23)); out(5, js("O %s %c %d %d", p.str().c_str(), t, W_CONCRETE, c || th ? 300 : 21)); }
  for (unsigned w : {4u, 256u}) for (unsigned n : {24u, 32u, 64u}) for (char t : {'n', 'f'}) out(3, js("A %s %c %d 30 7", custom(0, n, n == 24 ? 4 : n, 3, 1, w).str().c_str(), t, W_MEMO));
  for (auto &p : hash_combos(3, 1)) for (char t : {'n', 'f'}) out(3, js("B %s %c %s", p.str().c_str(), t, th ? "1000000 8388607 8400000 16777217 67108865 140000000" : "1000000 8400000 20000001"));
  for (auto &p : {custom(0, 32, 32, 4, 2), custom(2, 24, 4, 4, 2)}) for (char t : {'n', 'f'}) out(2, js("B %s %c 8400001", p.str().c_str(), t));
  for (char t : {'n', 'f'}) { out(10, js("G %s %c %llu", custom(0, 32, 32, 3, 1).str().c_str(), t, (1ull << 32) + 4096)); if (th) for (auto &p : hash_combos(4, 2)) out(30, js("G %s %c %llu", p.str().c_str(), t, (1ull << 32) + 4096)); }
  // the same code under AddressSanitizer (stack, heap and global storage of the library itself)
  for (auto &p : hash_combos(3, 1)) for (char t : {'n', 'f'}) { out(9, js("@asan A %s %c %d 40 13", p.str().c_str(), t, W_CONCRETE)); out(9, js("@asan W %s %c %d", p.str().c_str(), t, W_MEMO)); }
  for (auto &p : {custom(0, 32, 32, 6, 2), custom(2, 24, 4, 6, 2), custom(0, 64, 64, 6, 2), custom(0, 32, 32, 9, 3), custom(0, 24, 4, 8, 2, 16, 2), custom(0, 32, 32, 6, 1, 16, 4), custom(0, 32, 32, 4, 1, 16, 4), custom(0, 24, 4, 3, 1, 16, 3), custom(0, 32, 32, 6, 2, 16, 3), custom(0, 32, 32, 6, 2, 4), custom(0, 32, 32, 6, 2, 256), custom(0, 24, 4, 6, 2, 4), custom(0, 64, 64, 3, 1, 256)}) for (char t : {'n', 'f'}) if (!(t == 'n' && (p.k || p.h > 6))) out(10, js("@asan W %s %c %d", p.str().c_str(), t, W_MEMO));
  for (auto &p : official()) if (!p.mt && p.h == 10) { if (ab) for (char t : {'n', 'f'}) out(5, js("@asan A %s %c %d 10 3", p.str().c_str(), t, W_ALEAF)); out(8, js("@asan O %s f %d 3", p.str().c_str(), W_CONCRETE)); }
  else if (p.mt && p.th <= 5 && ab) { for (char t : {'n', 'f'}) out(5, js("@asan A %s %c %d 10 3", p.str().c_str(), t, W_ALEAF)); }
  for (auto &p : hash_combos(4, 2)) out(6, js("@asan O %s n %d 8", p.str().c_str(), W_CONCRETE));
  if (ab) for (auto &p : {custom(0, 32, 32, 12, 4), custom(0, 32, 32, 10, 1), custom(0, 32, 32, 12, 3, 16, 2), custom(0, 32, 32, 12, 2)}) out(5, js("@asan W %s f %d", p.str().c_str(), W_ALEAF));
}, c08_run});
// ------------------------------------------------------------------------------------------------ C09
static void c09_oids(const Args &a) { // O impl mt from to (upper 16 bits)
  const Impl &I = impl_of(a[1][0]); bool mt = a[2] == "1"; auto f = mt ? I.xmssmt_parse_oid : I.xmss_parse_oid; std::map<uint32_t, P> reg; for (auto &p : official()) if (p.mt == mt) reg[p.oid] = p;
  uint64_t from = arg_u(a, 3) << 16, to = arg_u(a, 4) << 16; xmss_params r; uint64_t acc = 0; set_op("%s %s_parse_oid, identifiers from %#llx", I.name, mt ? "xmssmt" : "xmss", (ull)from); op_limit(400);
  for (uint64_t o = from; o < to; o++) {
    int v = f(&r, (uint32_t)o); if (v == 0) { acc++; if (o > 0xFFFF || !reg.count(o)) viol("%s: %s identifier %#llx is accepted; the standard does not define it", I.name, mt ? "XMSSMT" : "XMSS", (ull)o); }
    else if (o <= 0xFFFF && reg.count(o)) viol("%s: %s identifier %#llx (%s) is refused", I.name, mt ? "XMSSMT" : "XMSS", (ull)o, reg[o].name.c_str());
  }
  stat_add("states", to - from); stat_add("transitions", to - from); stat_add("identifiers_accepted", acc);
  if (from) return;
  const unsigned FN[3] = {XMSS_SHA2, XMSS_SHAKE128, XMSS_SHAKE256};
  for (auto &e : reg) for (int pre = 0; pre < 2; pre++) { // whatever the structure held before
    const P &p = e.second; memset(&r, pre ? 0xFF : 0, sizeof r); if (f(&r, e.first)) viol("refused");
    auto chk = [&](const char *nm, uint64_t got, uint64_t want) { if (got != want) viol("%s: %s (identifier %u): %s is %llu, the standard says %llu%s", I.name, p.name.c_str(), p.oid, nm, (ull)got, (ull)want, pre ? " (structure held 0xff before)" : ""); };
    chk("hash function", r.func, FN[p.func]); chk("n", r.n, p.n); chk("padding length", r.padding_len, p.pad); chk("w", r.wots_w, p.w); chk("log w", r.wots_log_w, p.logw); chk("len1", r.wots_len1, p.len1); chk("len2", r.wots_len2, p.len2); chk("len", r.wots_len, p.len); chk("one-time signature size", r.wots_sig_bytes, p.len * p.n);
    chk("full height", r.full_height, p.h); chk("subtree height", r.tree_height, p.th); chk("layers", r.d, p.d); chk("index bytes", r.index_bytes, p.idxb); chk("signature size", r.sig_bytes, p.sig); chk("public key size", r.pk_bytes, p.pkb); if (I.tag == 'n') chk("secret key size", r.sk_bytes, p.idxb + 4 * p.n); else if (r.sk_bytes < p.idxb + 4 * p.n) chk("secret key size", r.sk_bytes, p.idxb + 4 * p.n); chk("trade-off parameter", r.bds_k, 0); stat_add("fields_compared", 17);
  }
  sample("%s %s: identifiers 0..%#llx", I.name, mt ? "XMSSMT" : "XMSS", (ull)to - 1);
}
static void c09_names(const Args &a) { // N impl part parts two_edits
  const Impl &I = impl_of(a[1][0]); unsigned part = arg_u(a, 2), parts = arg_u(a, 3), two = arg_u(a, 4); op_limit(400); std::map<std::string, uint32_t> reg[2]; for (auto &p : official()) reg[p.mt][p.name] = p.oid; uint64_t n = 0;
  GB buf; buf.alloc(4096, true, 0); // the name ends at a guard page: reading past its terminator faults
  auto test = [&](const std::string &s) {
    uint8_t *q = buf.base + 8192 - s.size() - 1; memcpy(q, s.c_str(), s.size() + 1);
    for (int mt = 0; mt < 2; mt++) for (uint32_t init : {0xDEADBEEFu, 0u}) {
      uint32_t o = init; int r = (mt ? I.xmssmt_str_to_oid : I.xmss_str_to_oid)(&o, (const char *)q); n++; auto it = reg[mt].find(s);
      if (it == reg[mt].end()) { if (r == 0) viol("%s: the name \"%s\" is accepted as a %s parameter set (identifier %#x)", I.name, s.c_str(), mt ? "XMSSMT" : "XMSS", o); if (o != init) viol("%s: the refused name \"%s\" changed the identifier output to %#x", I.name, s.c_str(), o); }
      else if (r || o != it->second) viol("%s: the name \"%s\" gives result %d, identifier %#x; the standard assigns %u", I.name, s.c_str(), r, o, it->second);
    }
  };
  set_op("%s: parameter set names", I.name); unsigned c = 0; const char *alpha = "XMSTHAKE-_/0123456789 xsmth"; size_t na = strlen(alpha);
  for (auto &p : official()) { if (c++ % parts != part) continue; const std::string &s = p.name; set_op("%s: edits of the name %s", I.name, s.c_str());
    test(s);
    for (size_t i = 0; i <= s.size(); i++) { test(s.substr(0, i)); test(s.substr(i)); for (int v = 1; v < 256; v++) { std::string x(s); x.insert(i, 1, (char)v); test(x); if (i < s.size()) { x = s; x[i] = (char)v; test(x); } } if (i < s.size()) { std::string x(s); x.erase(i, 1); test(x); for (size_t j = i + 1; j < s.size(); j++) { x = s; std::swap(x[i], x[j]); test(x); x = s; x.erase(i, j - i); test(x); } } }
    for (const char *suf : {"\n", " ", "0", "_", "_256", "/1", "\r\n", "X"}) { test(s + suf); test(suf + s); } test(s + s); test(s + std::string(3000, 'A')); { std::string x(s); for (auto &ch : x) ch = tolower(ch); test(x); }
    if (two) for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) for (size_t u = 0; u < na; u++) for (size_t v = 0; v < na; v++) { std::string x(s); x[i] = alpha[u]; x[j] = alpha[v]; test(x); }
  }
  // everything the naming scheme can express
  if (part == 0) for (const char *pre : {"XMSS", "XMSSMT", "XMSS_MT", "XMSS^MT", "xmss", "", "WOTSP"}) for (const char *sep : {"-", "_", ""}) for (const char *h : {"SHA2", "SHAKE", "SHAKE128", "SHAKE256", "SHA256", "SHA512", "SHA3", "sha2", ""}) for (const char *ht : {"10", "16", "20", "20/2", "20/4", "40/2", "40/4", "40/8", "60/3", "60/6", "60/12", "20/1", "10/1", "10/2", "40", "60", "40/5", "60/2", "60/4", "5", "0", "20/", "/2"}) for (const char *b : {"128", "192", "224", "256", "384", "512", "1024", "0", ""}) for (const char *s2 : {"_", "-"}) test(std::string(pre) + sep + h + "_" + ht + s2 + b);
  if (part == 0) { test(""); test(std::string(4000, 'X')); for (int v = 1; v < 256; v++) for (int u = 0; u < 256; u++) { std::string x(1, (char)v); if (u) x += (char)u; test(x); } }
  stat_add("states", n); stat_add("transitions", n); sample("%s: names and edits, part %u: %llu calls", I.name, part, (ull)n);
}
static Reg c09("C09", {[](bool th, Out out) {
  for (char t : {'n', 'f'}) for (int mt = 0; mt < 2; mt++) for (unsigned i = 0; i < 8; i++) out(2, js("O %c %d %u %u", t, mt, i * 8192, (i + 1) * 8192));
  for (char t : {'n', 'f'}) for (unsigned i = 0; i < 8; i++) out(4, js("N %c %u 8 %d", t, i, th || t == 'n'));
}, [](const Args &a) { if (a[0] == "O") c09_oids(a); else c09_names(a); }});
// ------------------------------------------------------------------------------------------------ C10
static void c10_sweep(const Args &a) { // U impl op(k,s,v) mt from to
  const Impl &I = impl_of(a[1][0]); char op = a[2][0]; bool mt = a[3] == "1"; uint64_t from = arg_u(a, 4) << 16, to = arg_u(a, 5) << 16; op_limit(600); size_t sz = 1 << 20;
  // the caller's buffers may not be touched at all; the key's four identifier bytes are readable and end at a guard page
  auto none = [&] { return (uint8_t *)mmap(0, sz, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) + sz / 2; }; uint8_t *x = none(), *y = none(), *z = none();
  int fd = memfd_create("k", 0); if (ftruncate(fd, 4096)) exit(3); uint8_t *w = (uint8_t *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); uint8_t *r = (uint8_t *)mmap(0, 12288, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mmap(r + 4096, 4096, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0); uint8_t *key = r + 8192 - 4; w += 4092;
  unsigned top = mt ? 56 : 21; uint64_t n = 0;
  // mixed in: calls with a defined identifier between refused ones must change nothing
  set_op("%s %s %s with identifiers from %#llx", I.name, mt ? "xmssmt" : "xmss", op == 'k' ? "key generation" : op == 's' ? "signing" : "verification", (ull)from);
  for (uint64_t o = from; o < to; o++) {
    if (o >= 1 && o <= top) continue; g_cur = o; int v;
    if (op == 'k') v = (mt ? I.xmssmt_keypair : I.xmss_keypair)(x, y, (uint32_t)o);
    else { w[0] = o >> 24; w[1] = o >> 16; w[2] = o >> 8; w[3] = o; v = op == 's' ? (mt ? I.xmssmt_sign : I.xmss_sign)(key, x, (ull *)y, z, 32) : (mt ? I.xmssmt_sign_open : I.xmss_sign_open)(x, (ull *)y, z, 5000, key); }
    n++; if (v == 0) viol("%s: %s %s with the undefined identifier %#llx reports success", I.name, mt ? "xmssmt" : "xmss", op == 'k' ? "key generation" : op == 's' ? "signing" : "verification", (ull)o);
  }
  g_cur = 0; stat_add("states", n); stat_add("transitions", n); sample("%s %s op %c: identifiers %#llx..%#llx refused without touching any buffer", I.name, mt ? "xmssmt" : "xmss", op, (ull)from, (ull)to - 1);
}
static void c10_keys(const Args &a) { // K spec impl mode
  P p = parse_spec(a[1]); const Impl &I = impl_of(a[2][0]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(300);
  for (uint8_t fill : {0x00, 0xFF}) {
    Key k(I, p); std::fill(k.pk.begin(), k.pk.end(), fill); std::fill(k.sk.begin(), k.sk.end(), fill); ent_reset(9); if (k.keygen()) viol("%s %s: key generation failed", I.name, p.name.c_str());
    if (be(&k.pk[0], 4) != p.oid || be(&k.sk[0], 4) != p.oid) viol("%s %s: generated keys carry identifiers %#llx (public) and %#llx (secret), requested was %u", I.name, p.name.c_str(), (ull)be(&k.pk[0], 4), (ull)be(&k.sk[0], 4), p.oid);
    if (k.idx() != 0) viol("%s %s: fresh key has index %llu", I.name, p.name.c_str(), (ull)k.idx());
    // the whole key belongs to this set: its root is the model's
    Ref ref(p, wots_mode, k.sk_seed(), k.sk_prf(), k.sk_pub()); if (memcmp(ref.root.data(), k.pk_root(), p.n)) viol("%s %s: the generated key is not one of this parameter set (wrong root)", I.name, p.name.c_str());
    bytes m = message(2, 31), sm, rs(p.sig); ull sl; for (int i = 0; i < 3; i++) { if (k.sign(m.data(), 31, sm, sl)) viol("%s %s: signing failed", I.name, p.name.c_str()); ref.sign(i, m.data(), 31, rs.data()); if (sl != p.sig + 31 || memcmp(rs.data(), sm.data(), p.sig)) viol("%s %s: the signature is not one of the parameter set named in the key", I.name, p.name.c_str()); if (be(&k.sk[0], 4) != p.oid) viol("%s %s: signing changed the identifier in the key to %#llx", I.name, p.name.c_str(), (ull)be(&k.sk[0], 4)); stat_add("states", 1); stat_add("transitions", 1); }
    k.set_idx(p.capacity() - 1); k.sign(m.data(), 31, sm, sl); if (be(&k.sk[0], 4) != p.oid) viol("%s %s: the last signature changed the identifier in the key to %#llx", I.name, p.name.c_str(), (ull)be(&k.sk[0], 4));
    k.sign(m.data(), 31, sm, sl); if (be(&k.sk[0], 4) != p.oid) viol("%s %s: a refused call changed the identifier in the key", I.name, p.name.c_str());
  }
  sample("%s %s: identifier stored, used, preserved", I.name, p.name.c_str());
}
// switching between parameter sets: every ordered pair, on signing and on verification
static void c10_pairs(const Args &a) { // P impl mt part parts
  const Impl &I = impl_of(a[1][0]); bool mt = a[2] == "1"; unsigned part = arg_u(a, 3), parts = arg_u(a, 4); wots_mode = W_AWOTS; if (!mode_ok(wots_mode)) return; op_limit(300);
  struct E { P p; Key k; bytes sm; bytes ref; }; std::vector<E> v;
  for (auto &p : official()) if (p.mt == mt && p.th <= 10) { E e; e.p = p; bytes s, f, pb; seeds_for(p, 5, s, f, pb); wots_mode = W_ALEAF; Ref r(p, W_ALEAF, s.data(), f.data(), pb.data()); e.k = naive_key(p, s.data(), f.data(), pb.data(), r.root.data(), 2); bytes m = message(6, 20); e.ref.resize(p.sig); r.sign(2, m.data(), 20, e.ref.data()); e.ref.insert(e.ref.end(), m.begin(), m.end()); v.push_back(e); }
  wots_mode = W_ALEAF; bytes m = message(6, 20);
  auto sign = [&](E &e, const char *after) { if (I.tag != 'n') return; Key k = e.k; bytes sm; ull sl; set_op("signing with %s after %s", e.p.name.c_str(), after); if (k.sign(m.data(), 20, sm, sl) || sm != e.ref) viol("%s: signing with a %s key gives a wrong result right after a call with %s", I.name, e.p.name.c_str(), after); stat_add("states", 1); stat_add("transitions", 1); };
  unsigned c = 0; for (auto &A : v) for (auto &B : v) { if (c++ % parts != part) continue; if (&A == &B) continue;
    sign(A, B.p.name.c_str()); sign(B, A.p.name.c_str()); sign(A, B.p.name.c_str());
    // A's signed message under A's key carrying B's identifier
    size_t big = std::max(A.ref.size(), (size_t)B.p.sig + 20); bytes sm(A.ref); sm.resize(big, 0x33); bytes pk(A.k.pk); pk.resize(4 + 128, 0x44); put_be(&pk[0], 4, B.p.oid); bytes o(big + 8); ull ol = 5; set_op("verifying with identifier %s", B.p.name.c_str());
    wots_mode = W_AWOTS; bytes root(B.p.n); bool want = ref_root_from_sig(B.p, W_AWOTS, sm.data(), sm.size(), &pk[4], &pk[4 + B.p.n], root.data()) && !memcmp(root.data(), &pk[4], B.p.n);
    int r = (mt ? I.xmssmt_sign_open : I.xmss_sign_open)(o.data(), &ol, sm.data(), sm.size(), pk.data()); stat_add("states", 1); stat_add("transitions", 1); wots_mode = W_ALEAF;
    if ((r == 0) != want) viol("%s: a %s signature under a public key whose identifier says %s: verification returns %d", I.name, A.p.name.c_str(), B.p.name.c_str(), r);
  }
  sample("%s %s: %zu sets, every ordered pair", I.name, mt ? "XMSSMT" : "XMSS", v.size());
}
static Reg c10("C10", {[](bool th, Out out) {
  for (char t : {'n', 'f'}) for (char op : {'k', 's', 'v'}) for (int mt = 0; mt < 2; mt++) for (unsigned i = 0; i < 4; i++) if (th || (t == 'n') == (op != 's')) out(15, js("U %c %c %d %u %u", t, op, mt, i * 16384, (i + 1) * 16384)); else out(.3, js("U %c %c %d %u %u", t, op, mt, i * 16384, i * 16384 + 300));
  bool ab = abstract_ok();
  for (auto &p : official()) for (char t : {'n', 'f'}) if (ab && (p.th <= 10 || (p.th == 16 && (th || p.func == 0)) || (p.th == 20 && ((p.oid <= 3 && t == 'f') || th)))) out(p.d * (1 << p.th) * 1.2e-5, js("K %s %c %d", p.str().c_str(), t, W_ALEAF));
  if (!ab) for (auto &p : official()) if (p.func == 0 && p.n < 64 && p.th <= 10) out(5, js("K %s n 0", p.str().c_str()));
  if (ab) for (char t : {'n', 'f'}) for (int mt = 0; mt < 2; mt++) for (unsigned i = 0; i < (mt ? 6 : 1); i++) out(8, js("P %c %d %u %u", t, mt, i, mt ? 6 : 1));
}, [](const Args &a) { if (a[0] == "U") c10_sweep(a); else if (a[0] == "K") c10_keys(a); else c10_pairs(a); }});
