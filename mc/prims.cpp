// C13 entropy faults, C14 one-time signatures, C15 SHAKE, C19 domain separation
#include "guard.hpp"
#include "prim.hpp"
#include <algorithm>
#include <unistd.h>
#include <sys/mman.h>
#include <cstddef>
#include <sys/wait.h>
#include <cerrno>
typedef std::function<void(double, const std::string &)> Out;
extern bool o_stub;
static bool mode_ok(int m) { if (m >= W_AWOTS && !abstract_ok()) { stat_add("skipped_jobs", 1); return false; } return true; }
// ------------------------------------------------------------------------------------------------ C13
// Environment: a device whose bytes all come from one stream. Outcomes of a call are chosen by the script; afterwards all succeed.
enum { OP_OK, OP_FAIL, OP_EINTR, NOPEN };
enum { RD_FULL, RD_ZERO, RD_EINTR, RD_EIO, RD_EAGAIN, RD_ONE, RD_ALLBUT1, RD_HALF, NREAD };
static const char *RN[] = {"full", "0 bytes", "EINTR", "EIO", "EAGAIN", "1 byte", "all but 1 byte", "half"};
static std::vector<uint8_t> delivered; static std::string trace_;
struct Script { std::vector<int> o, r; };
static void env_script(const Script &s, uint64_t seed) {
  delivered.clear(); trace_.clear(); ent_reset(seed); size_t io = 0, ir = 0, calls = 0;
  ent.fn = [=](int is_read, uint8_t *b, uint64_t n) mutable -> long {
    if (++calls > 5000) viol("key generation keeps polling the random source: %s", trace_.substr(0, 300).c_str());
    if (!is_read) { int c = io < s.o.size() ? s.o[io] : OP_OK; io++; trace_ += c == OP_OK ? "open ok; " : c == OP_FAIL ? "open EMFILE; " : "open EINTR; "; if (c == OP_OK) return 1000; errno = c == OP_FAIL ? EMFILE : EINTR; return -1; }
    int c = ir < s.r.size() ? s.r[ir] : RD_FULL; ir++; if (trace_.size() < 4000) trace_ += js("read %llu: %s; ", (ull)n, RN[c]);
    if (n == 0) return 0; long k = n;
    switch (c) { case RD_ZERO: return 0; case RD_EINTR: errno = EINTR; return -1; case RD_EIO: errno = EIO; return -1; case RD_EAGAIN: errno = EAGAIN; return -1; case RD_ONE: k = 1; break; case RD_ALLBUT1: k = n > 1 ? n - 1 : 1; break; case RD_HALF: k = (n + 1) / 2; break; }
    for (long i = 0; i < k; i++) { b[i] = ent_byte(seed, delivered.size()); delivered.push_back(b[i]); }
    return k;
  };
}
// is `out` made of distinct delivered bytes? (in order, or at least window by window)
static bool from_stream(const std::vector<std::pair<const uint8_t *, size_t>> &outs, std::string &why) {
  bytes all; for (auto &o : outs) all.insert(all.end(), o.first, o.first + o.second);
  if (all.size() <= delivered.size() && !memcmp(all.data(), delivered.data(), all.size())) return true;
  std::multimap<uint64_t, size_t> win; for (size_t i = 0; i + 8 <= delivered.size(); i++) { uint64_t v; memcpy(&v, &delivered[i], 8); win.emplace(v, i); }
  std::set<size_t> used; // greedy segments of at least 8 delivered bytes
  size_t i = 0; while (i < all.size()) {
    if (i + 8 > all.size()) { why = js("byte %zu was never delivered, or not in this place", i); return false; }
    uint64_t v; memcpy(&v, &all[i], 8); auto r = win.equal_range(v); size_t best = 0, at = 0; for (auto it = r.first; it != r.second; ++it) { size_t l = 0; while (i + l < all.size() && it->second + l < delivered.size() && all[i + l] == delivered[it->second + l] && !used.count(it->second + l)) l++; if (l > best) best = l, at = it->second; }
    if (!best) { why = js("byte %zu of the seed material was not freshly delivered by the source", i); return false; }
    for (size_t l = 0; l < best; l++) used.insert(at + l); i += best;
  }
  return true;
}
static uint64_t in_child(std::function<void()> f) { // the library's descriptor is process-wide state: every sequence starts in a fresh process
  fflush(stdout); pid_t c = fork(); if (c == 0) { guard_init(); f(); fflush(stdout); _exit(7); }
  int st; waitpid(c, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 7) return 1; fflush(stdout); printf("STAT failed_child 1\n"); fflush(stdout); _exit(0); // the child has reported
}
static std::string sname(const Script &s) { std::string r = "opens:"; for (int x : s.o) r += x == OP_OK ? " ok" : x == OP_FAIL ? " EMFILE" : " EINTR"; r += " reads:"; for (int x : s.r) r += std::string(" ") + RN[x] + ","; return r; }
static void seq_all(unsigned no, unsigned nr, unsigned part, unsigned parts, std::function<void(const Script &, uint64_t)> f) {
  std::vector<std::vector<int>> os = {{}}; for (size_t i = 0; i < os.size(); i++) if (os[i].size() < no) for (int k : {OP_FAIL, OP_EINTR}) { auto x = os[i]; x.push_back(k); os.push_back(x); }
  uint64_t tr = 1, c = 0; for (unsigned i = 0; i < nr; i++) tr *= NREAD;
  for (auto &o : os) for (uint64_t b = 0; b < tr; b++) if (c++ % parts == part) { Script s; s.o = o; uint64_t x = b; for (unsigned i = 0; i < nr; i++, x /= NREAD) s.r.push_back(x % NREAD); f(s, c); }
}
static void c13_raw(const Args &a) { // R impl size depth part parts
  const Impl &I = impl_of(a[1][0]); ull size = arg_u(a, 2); unsigned depth = arg_u(a, 3), part = arg_u(a, 4), parts = arg_u(a, 5, 1); uint64_t n = 0, nt = 0;
  seq_all(size > 200 ? 1 : 2, depth, part, parts, [&](const Script &s, uint64_t c) {
    n++; for (int x : s.r) if (x) { nt++; break; }
    in_child([&] {
      op_limit(60); env_script(s, 3 + c); static GB b1, b2; set_op("%s randombytes(%llu), %s", I.name, size, sname(s).c_str());
      b1.alloc(size, c & 1, 0x5A); b2.alloc(size > 5000 ? 96 : size, c & 1, 0x5A); I.randombytes(b1.p, size); I.randombytes(b2.p, b2.n);
      std::string why; if (!from_stream({{b1.p, size}, {b2.p, b2.n}}, why)) viol("%s: randombytes(%llu) under %s: %s [calls: %s]", I.name, size, sname(s).c_str(), why.c_str(), trace_.substr(0, 400).c_str());
      if (b1.slack_changed() != -999999 || b2.slack_changed() != -999999) viol("%s: randombytes(%llu) wrote outside the buffer under %s", I.name, size, sname(s).c_str());
    });
  });
  stat_add("evaluations", n); stat_add("distinct_nontrivial", nt); sample("%s randombytes(%llu): %llu fault sequences of %u reads", I.name, size, (ull)n, depth);
}
static void c13_key(const Args &a) { // K spec impl depth part parts
  P p = parse_spec(a[1]); const Impl &I = impl_of(a[2][0]); unsigned depth = arg_u(a, 3), part = arg_u(a, 4), parts = arg_u(a, 5, 1); wots_mode = W_ALEAF; if (!abstract_ok()) wots_mode = W_CONCRETE; wots_mode = abstract_ok() ? W_ALEAF : W_CONCRETE; uint64_t n = 0, nt = 0;
  seq_all(2, depth, part, parts, [&](const Script &s, uint64_t c) {
    n++; for (int x : s.r) if (x) { nt++; break; }
    in_child([&] {
      op_limit(60); env_script(s, 3 + c); set_op("%s %s: two key generations, %s", I.name, p.name.c_str(), sname(s).c_str()); Key k1(I, p), k2(I, p); std::fill(k1.sk.begin(), k1.sk.end(), c & 1 ? 0xFF : 0);
      int r1 = k1.keygen(); size_t d1 = delivered.size(); int r2 = k2.keygen(); if (r1 || r2) { if (r1 == 0 && d1 < 3 * p.n) viol("too few bytes drawn"); return; } // refusing is allowed
      std::vector<std::pair<const uint8_t *, size_t>> o; for (Key *k : {&k1, &k2}) { o.push_back({k->sk_seed(), p.n}); o.push_back({k->sk_prf(), p.n}); o.push_back({k->pk_seed(), p.n}); if (memcmp(k->sk_pub(), k->pk_seed(), p.n)) viol("%s %s: public seeds of the two keys differ", I.name, p.name.c_str()); }
      std::string why; if (!from_stream(o, why)) viol("%s %s: seeds under %s: %s [calls: %s]", I.name, p.name.c_str(), sname(s).c_str(), why.c_str(), trace_.substr(0, 500).c_str());
    });
  });
  stat_add("evaluations", n); stat_add("distinct_nontrivial", nt); sample("%s %s: %llu fault sequences of %u reads over two key generations", I.name, p.name.c_str(), (ull)n, depth);
}
static void c13_fork(const Args &a) { // F impl: draws before and after fork(), in every order, one stream for all processes
  const Impl &I = impl_of(a[1][0]); unsigned depth = arg_u(a, 2, 3); struct Sh { uint64_t pos; uint32_t n; struct { uint32_t len; uint8_t b[400]; } out[16]; uint8_t log[1 << 16]; }; static Sh *S; S = (Sh *)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); uint64_t cnt = 0;
  static const unsigned sizes[] = {0, 1, 24, 72, 96, 192}; P p = custom(0, 32, 32, 3, 1);
  // a history is a word over {draw in this process, fork and go on in the child, ... in the parent}; each draw asks for one of the sizes
  std::vector<std::vector<int>> words = {{}}; for (size_t i = 0; i < words.size(); i++) if (words[i].size() < depth) for (int x = 0; x < 8; x++) { auto w = words[i]; w.push_back(x); words.push_back(w); }
  for (auto &w : words) { int forks = 0, draws = 0; for (int x : w) (x >= 6 ? forks : draws)++; if (forks != 1 && !(depth > 3 && forks == 2)) continue; if (w.back() >= 6) continue;
    for (int key = 0; key < 2; key++) { cnt++; in_child([&] {
      op_limit(60); memset(S, 0, offsetof(Sh, log)); ent_reset(0); ent.fn = [](int rd, uint8_t *b, uint64_t n) -> long { if (!rd) return 1000; for (uint64_t i = 0; i < n; i++) { uint64_t q = S->pos++; b[i] = ent_byte(99, q); if (q < sizeof S->log) S->log[q] = b[i]; } return n; };
      std::string h; auto draw = [&](unsigned size) { auto &o = S->out[S->n++]; if (key && size >= 72) { Key k(I, p); if (k.keygen()) viol("key generation failed"); o.len = 3 * p.n; memcpy(o.b, k.sk_seed(), p.n); memcpy(o.b + p.n, k.sk_prf(), p.n); memcpy(o.b + 2 * p.n, k.pk_seed(), p.n); } else { I.randombytes(o.b, size); o.len = size; } };
      // every suffix after a fork is executed in both processes, the one named first going first
      std::function<void(size_t)> go = [&](size_t i) { for (; i < w.size(); i++) { if (w[i] < 6) { set_op("%s: draw of %u bytes, history of %zu steps", I.name, sizes[w[i]], w.size()); draw(sizes[w[i]]); } else { fflush(stdout); pid_t c; if (w[i] == 6) { c = fork(); if (!c) { go(i + 1); fflush(stdout); _exit(0); } int st; waitpid(c, &st, 0); } else { int pf[2]; if (pipe(pf)) exit(3); c = fork(); if (!c) { char x; close(pf[1]); if (read(pf[0], &x, 1) < 0) {} go(i + 1); fflush(stdout); _exit(0); } close(pf[0]); go(i + 1); close(pf[1]); int st; waitpid(c, &st, 0); return; } } } };
      go(0); delivered.assign(S->log, S->log + std::min<uint64_t>(S->pos, sizeof S->log)); std::vector<std::pair<const uint8_t *, size_t>> o; for (unsigned i = 0; i < S->n; i++) if (S->out[i].len >= 8) o.push_back({S->out[i].b, S->out[i].len});
      std::string why, hs; for (int x : w) hs += x == 6 ? "fork, child first; " : x == 7 ? "fork, parent first; " : js("%u bytes; ", sizes[x]); if (!from_stream(o, why)) viol("%s: seed material of a process and its fork() child: %s (history: %s%s)", I.name, why.c_str(), hs.c_str(), key ? "key generations" : "raw draws");
    }); } }
  stat_add("evaluations", cnt); stat_add("distinct_nontrivial", cnt); sample("%s: %llu histories of draws and forks", I.name, (ull)cnt);
}
static Reg c13("C13", {[](bool th, Out out) {
  for (char t : {'n', 'f'}) {
    out(15, js("F %c %d", t, th ? 4 : 3));
    for (ull s : {0ull, 1ull, 2ull, 3ull, 7ull, 8ull, 24ull, 31ull, 32ull, 33ull, 48ull, 64ull, 72ull, 96ull, 128ull, 192ull, 255ull, 256ull, 257ull, 4096ull, 4097ull}) { unsigned parts = th ? 16 : 1; for (unsigned i = 0; i < parts; i++) out(4, js("R %c %llu %u %u %u", t, s, th ? 5 : 3, i, parts)); }
    for (ull s : {65535ull, 65536ull, (1ull << 20) - 1, 1ull << 20, (1ull << 20) + 1, (2ull << 20) - 1, (2ull << 20) + 5, (3ull << 20)}) out(10, js("R %c %llu %u 0 1", t, s, th ? 3 : 2));
    for (auto &p : {custom(0, 32, 32, 3, 1), custom(0, 24, 4, 4, 2), custom(2, 64, 64, 3, 1)}) { unsigned parts = th ? 32 : 4; for (unsigned i = 0; i < parts; i++) out(8, js("K %s %c %u %u %u", p.str().c_str(), t, th ? 5 : p.n == 32 ? 4 : 3, i, parts)); }
    for (auto &p : official()) if (p.th <= 10) out(4, js("K %s %c %u 0 1", p.str().c_str(), t, th ? 3 : p.d == 1 ? 2 : 1));
  }
}, [](const Args &a) { if (a[0] == "R") c13_raw(a); else if (a[0] == "F") c13_fork(a); else c13_key(a); }});
// ------------------------------------------------------------------------------------------------ C14
struct WCheck {
  const Impl &I; P p; xmss_params rp; RWots w; bytes seed, pub; uint64_t n = 0; unsigned fillc = 0;
  WCheck(const Impl &I, const P &p) : I(I), p(p), w(p) { rp = repo_params(I, p); bytes f; seeds_for(p, 41, seed, f, pub); }
  void one(const bytes &m, const std::string &what, const uint32_t a5[5], bool pkgen = true) {
    set_op("%s %s one-time signature: %s", I.name, p.name.c_str(), what.c_str()); n++; size_t L = p.len * p.n; static GB sig, pk, pk2, msg; uint32_t ad[8]; auto adr = [&] { memcpy(ad, a5, 20); ad[5] = 77; ad[6] = n & 1 ? 9 : 0; ad[7] = n & 1; if (!(n & 2)) ad[5] = ad[6] = ad[7] = 0; };
    bytes rs(L), rpk; w.sign(seed.data(), pub.data(), a5, m.data(), rs.data());
    sig.alloc(L, true, 0x5A); msg.put(m, true, 0); msg.ro(); adr(); I.wots_sign(&rp, sig.p, msg.p, seed.data(), pub.data(), ad);
    if (memcmp(sig.p, rs.data(), L)) { size_t q = 0; while (sig.p[q] == rs[q]) q++; auto d = ref_digits(p, m.data()); viol("%s %s: one-time signature differs from the standard's in chain %zu (%s digit, value %u of 0..%u); %s", I.name, p.name.c_str(), q / p.n, q / p.n < p.len1 ? "message" : "checksum", d[q / p.n], p.w - 1, what.c_str()); }
    if (memcmp(ad, a5, 20)) viol("%s %s: signing changed the position fields of the address", I.name, p.name.c_str());
    pk2.alloc(L, true, 0x5A); adr(); I.wots_pk_from_sig(&rp, pk2.p, sig.p, msg.p, pub.data(), ad);
    static bytes kp; static P kpP; static uint32_t ka[5]; if (kp.empty() || kpP.str() != p.str() || memcmp(ka, a5, 20)) { pk.alloc(L, true, 0x5A); adr(); I.wots_pkgen(&rp, pk.p, seed.data(), pub.data(), ad); w.pkgen(seed.data(), pub.data(), a5, rpk); if (memcmp(rpk.data(), pk.p, L)) viol("%s %s: the generated one-time public key differs from the standard's", I.name, p.name.c_str()); kp = rpk; kpP = p; memcpy(ka, a5, 20); }
    if (memcmp(pk2.p, kp.data(), L)) viol("%s %s: the public key recomputed from a one-time signature is not the generated one; %s", I.name, p.name.c_str(), what.c_str());
  }
};
static bool observable(const P &p, char t);
// the cheap stand-in replaces a hash function only where the code under test is seen to call it
static bool stubbed(const P &p, char t) { return o_stub = observable(custom(p.func, p.n, p.pad, 3, 1, p.w), t); }
static void digits_to(const P &p, bytes &m, unsigned i, unsigned v) { unsigned per = 8 / p.logw, sh = p.logw * (per - 1 - i % per); m[i / per] = (m[i / per] & ~((p.w - 1) << sh)) | v << sh; }
static const uint32_t A0[5] = {0, 0, 0, 0, 0}, A1[5] = {3, 0x00FFEEDD, 0x89ABCDEF, 0, 0x1234};
static void c14_cover(const Args &a) { // D spec impl: every digit value in every position, real hash functions
  P p = parse_spec(a[1]); WCheck c(impl_of(a[2][0]), p); wots_mode = W_CONCRETE; op_limit(300); unsigned step = arg_u(a, 3, 1); bytes m(p.n);
  for (unsigned t = 0; t < p.w; t += step) { for (unsigned i = 0; i < p.len1; i++) digits_to(p, m, i, (t + i * 7) % p.w); c.one(m, js("digit i = (%u + 7 i) mod %u", t, p.w), t % 2 ? A1 : A0); }
  for (unsigned v : {0u, 1u, p.w - 1}) { for (unsigned i = 0; i < p.len1; i++) digits_to(p, m, i, v); c.one(m, js("all digits %u", v), A1); }
  stat_add("states", c.n); stat_add("transitions", 3 * c.n); sample("%s %s: all %u digit values in all %u positions", c.I.name, p.name.c_str(), p.w, p.len1);
}
static void c14_csum(const Args &a) { // S spec impl part parts: every checksum value, cheap stand-in hash on both sides
  P p = parse_spec(a[1]); WCheck c(impl_of(a[2][0]), p); wots_mode = W_CONCRETE; op_limit(300); unsigned part = arg_u(a, 3), parts = arg_u(a, 4); unsigned max = p.len1 * (p.w - 1), step = stubbed(p, a[2][0]) ? parts : parts * (p.w == 256 ? 16 : 2);
  for (unsigned s = part; s <= max; s += step) for (int dist = 0; dist < 3; dist++) { // sum of digits = s, distributed three ways
    bytes m(p.n); unsigned left = s; std::vector<unsigned> d(p.len1, 0);
    if (dist == 0) for (unsigned i = 0; i < p.len1 && left; i++) { d[i] = std::min(left, p.w - 1); left -= d[i]; } else if (dist == 1) for (unsigned i = p.len1; i-- && left;) { d[i] = std::min(left, p.w - 1); left -= d[i]; } else { for (unsigned i = 0; i < p.len1; i++) d[i] = s / p.len1; for (unsigned i = 0; i < s % p.len1; i++) d[(i * 5) % p.len1 == 0 ? i : i]++; }
    for (unsigned i = 0; i < p.len1; i++) digits_to(p, m, i, d[i]); c.one(m, js("digit sum %u (checksum %u of 0..%u), distribution %d", s, max - s, max, dist), A1);
  }
  o_stub = false; stat_add("states", c.n); stat_add("transitions", 3 * c.n); sample("%s %s: checksum values %u, %u, ... of 0..%u", c.I.name, p.name.c_str(), part, part + parts, max);
}
static void c14_bytes(const Args &a) { // B spec impl part parts: all values of two adjacent bytes
  P p = parse_spec(a[1]); WCheck c(impl_of(a[2][0]), p); wots_mode = W_CONCRETE; op_limit(300); unsigned part = arg_u(a, 3), parts = arg_u(a, 4), step = stubbed(p, a[2][0]) ? parts : parts * 16 + 1; bytes m = message(5, p.n);
  for (unsigned v = part; v < 65536; v += step) { size_t at = v % 3 == 0 ? 0 : v % 3 == 1 ? p.n - 2 : p.n / 2; bytes x(m); x[at] = v >> 8; x[at + 1] = v; c.one(x, js("bytes %zu,%zu = %04x", at, at + 1, v), A0); }
  o_stub = false; stat_add("states", c.n); stat_add("transitions", 3 * c.n); sample("%s %s: all 65536 values of two bytes", c.I.name, p.name.c_str());
}
static void c14_order(const Args &a) { // O spec: no checksum dominates a smaller one (all pairs), so no digit vector dominates another
  P p = parse_spec(a[1]); unsigned max = p.len1 * (p.w - 1); std::vector<std::array<uint8_t, 8>> dg(max + 1);
  // the digits the code under test signs, read off its own signatures: chain steps counted by address
  if (!observable(custom(p.func, p.n, p.pad, 3, 1, p.w), a[2][0])) return;
  const Impl &I = impl_of(a[2][0]); xmss_params rp = repo_params(I, p); bytes seed, f, pub; seeds_for(p, 1, seed, f, pub); o_stub = true; wots_mode = W_CONCRETE; op_limit(300);
  static unsigned steps[600]; static unsigned chainof; 
  // F calls are identified through the PRF call before them, which hashes the address
  static unsigned pad, n; pad = p.pad; n = p.n;
  hash_hook = [](int, const uint8_t *in, uint64_t l, uint8_t *, uint64_t, int ph) { if (ph) return; if (l == pad + n + 32 && in[pad - 1] == 3) chainof = be(in + pad + n + 20, 4); else if (l == pad + 2 * n && in[pad - 1] == 0 && chainof < 600) steps[chainof]++; };
  for (unsigned s = 0; s <= max; s++) {
    bytes m(p.n), sig(p.len * p.n); unsigned left = s; for (unsigned i = 0; i < p.len1; i++) { unsigned d = std::min(left, p.w - 1); left -= d; digits_to(p, m, i, d); }
    memset(steps, 0, sizeof steps); uint32_t ad[8] = {0}; set_op("digits of a message with digit sum %u", s); I.wots_sign(&rp, sig.data(), m.data(), seed.data(), pub.data(), ad);
    left = s; for (unsigned i = 0; i < p.len1; i++) { unsigned d = std::min(left, p.w - 1); left -= d; if (steps[i] != d) viol("%s %s: message digit %u is signed with %u chain steps, its value is %u", I.name, p.name.c_str(), i, steps[i], d); }
    for (unsigned j = 0; j < p.len2; j++) dg[max - s][j] = steps[p.len1 + j];
  }
  hash_hook = nullptr; o_stub = false; uint64_t pairs = 0;
  for (unsigned x = 0; x <= max; x++) for (unsigned y = x + 1; y <= max; y++) { pairs++; bool dom = true; for (unsigned j = 0; j < p.len2; j++) dom &= dg[x][j] >= dg[y][j]; if (dom) viol("%s %s: the checksum digits of checksum %u are all at least those of checksum %u: a message with larger digits can be forged from a signature", I.name, p.name.c_str(), x, y); }
  stat_add("states", max + 1); stat_add("transitions", pairs); sample("%s %s: %u checksums, all pairs", I.name, p.name.c_str(), max + 1);
}
static std::vector<P> wots_combos(unsigned w) { return hash_combos(4, 1, w); }
static Reg c14("C14", {[](bool th, Out out) {
  for (unsigned w : {4u, 16u, 256u}) for (auto &p : wots_combos(w)) for (char t : {'n', 'f'}) { if (t == 'n' && !th && p.func) continue; bool slow = w == 256 && !th && (p.func || p.n == 64); out(slow ? 10 : 5, js("D %s %c %d", p.str().c_str(), t, slow ? 17 : 1)); }
  for (unsigned w : {4u, 16u, 256u}) for (unsigned n : {24u, 32u, 64u}) for (char t : {'n', 'f'}) { P p = custom(0, n, n == 24 ? 4 : n, 4, 1, w); if (t == 'n' && !th && n != 32) continue; unsigned parts = w == 256 ? (n == 64 && !th ? 12 : 6) : 1; for (unsigned i = 0; i < parts; i++) { if (w == 256 && !th && (t == 'n' || n == 64 || i % 2)) continue; out(10, js("S %s %c %u %u", p.str().c_str(), t, i, parts)); } if (th || (w == 16 && n < 64 && t == 'f')) for (unsigned i = 0; i < (w == 256 ? 8 : 2); i++) out(6, js("B %s %c %u %u", p.str().c_str(), t, i, w == 256 ? 8 : 2)); if (th || t == 'f' || w < 256) out(w == 256 ? 50 : 5, js("O %s %c", p.str().c_str(), t)); }
}, [](const Args &a) { if (a[0] == "D") c14_cover(a); else if (a[0] == "S") c14_csum(a); else if (a[0] == "B") c14_bytes(a); else c14_order(a); }});
// ------------------------------------------------------------------------------------------------ C15
typedef void (*shake_t)(unsigned char *, ull, const unsigned char *, ull);
static shake_t sh_of(const Impl &I, int bits) { return bits == 128 ? (shake_t)I.shake128 : (shake_t)I.shake256; }
static void c15_grid(const Args &a) { // G impl bits from to max
  const Impl &I = impl_of(a[1][0]); int bits = atoi(a[2].c_str()); auto f = sh_of(I, bits); ull from = arg_u(a, 3), to = arg_u(a, 4), mx = arg_u(a, 5); op_limit(300); bytes want(mx + 1); GB in, out; uint64_t n = 0;
  for (ull il = from; il < to; il++) for (int pat = 0; pat < 1; pat++) {
    bytes b(il); for (ull i = 0; i < il; i++) b[i] = il % 5 == 3 ? 0 : il % 5 == 4 ? 0xFF : ent_byte(il * 31 + vseed, i);
    in.put(b, il & 1, 0); in.ro(); o_shake(bits, b.data(), il, want.data(), mx + 1);
    for (ull ol = 0; ol <= mx; ol++) { if ((ol % 64) == 0) set_op("%s SHAKE%d of %llu bytes, output %llu..", I.name, bits, il, ol); out.alloc(ol, (il + ol) & 1, 0x5A); f(out.p, ol, in.p, il); n++; if (memcmp(out.p, want.data(), ol)) { size_t q = 0; while (out.p[q] == want[q]) q++; viol("%s: SHAKE%d of a %llu-byte input, %llu bytes of output: wrong from byte %zu on", I.name, bits, il, ol, q); } long c = out.slack_changed(); if (c != -999999) viol("%s: SHAKE%d with %llu bytes of output (input %llu) wrote at offset %ld", I.name, bits, ol, il, c); }
  }
  stat_add("states", n); stat_add("transitions", n); sample("%s SHAKE%d: inputs of %llu..%llu bytes x all outputs of 0..%llu bytes", I.name, bits, from, to - 1, mx);
}
static void c15_long(const Args &a) { // L impl bits: long inputs and outputs, single-bit inputs
  const Impl &I = impl_of(a[1][0]); int bits = atoi(a[2].c_str()); auto f = sh_of(I, bits); op_limit(300); uint64_t n = 0; ull rate = bits == 128 ? 168 : 136; GB in, out; bytes want(70000);
  auto one = [&](const bytes &b, ull ol) { set_op("%s SHAKE%d: input %zu, output %llu", I.name, bits, b.size(), ol); if (want.size() < ol) want.resize(ol); in.put(b, true, 0); in.ro(); out.alloc(ol, true, 0x5A); f(out.p, ol, in.p, b.size()); o_shake(bits, b.data(), b.size(), want.data(), ol); n++; if (memcmp(out.p, want.data(), ol)) viol("%s: SHAKE%d wrong for an input of %zu bytes and %llu bytes of output", I.name, bits, b.size(), ol); if (out.slack_changed() != -999999) viol("%s: SHAKE%d wrote outside the output (%llu)", I.name, bits, ol); };
  for (ull k : {1ull, 2ull, 3ull, 4ull, 7ull, 31ull, 255ull, 256ull, 390ull, 391ull, 482ull}) for (long d = -2; d <= 2; d++) { one(message(k, k * rate + d), 64); one(message(k, 40), k * rate + d); }
  for (ull l : {255ull, 256ull, 257ull, 65535ull, 65536ull, 65537ull, 1000003ull}) { one(message(l, l), 32); one(message(3, 50), l); one(message(l, l), l); }
  for (size_t bit = 0; bit < 8 * 2 * rate; bit++) { bytes b(2 * rate); b[bit / 8] = 1 << (bit % 8); one(b, 32); } // every input bit matters, in the right place
  for (size_t bit = 0; bit < 8 * rate; bit++) { bytes b(rate - 1); if (bit / 8 >= b.size()) break; b[bit / 8] = 1 << (bit % 8); one(b, 200); }
  stat_add("states", n); stat_add("transitions", n); sample("%s SHAKE%d: long inputs and outputs, all single-bit inputs of two blocks", I.name, bits);
}
static void c15_place(const Args &a) { // A impl bits: every alignment of input and output
  const Impl &I = impl_of(a[1][0]); int bits = atoi(a[2].c_str()); auto f = sh_of(I, bits); op_limit(300); uint64_t n = 0; ull rate = bits == 128 ? 168 : 136; std::vector<uint8_t> in(2048 + 64), out(2048 + 64), want(1024); uint8_t *ib = &in[0] + (64 - (uintptr_t)&in[0] % 64) % 64, *ob = &out[0] + (64 - (uintptr_t)&out[0] % 64) % 64;
  std::vector<ull> ols = {0, 1, 7, 8, 9, 24, 32, 33, 64, rate - 1, rate, rate + 1, rate + 8, 2 * rate, 3 * rate + 5};
  for (unsigned x = 0; x < 16; x++) for (unsigned y = 0; y < 16; y++) { set_op("%s SHAKE%d: input at address %u, output at address %u modulo 16", I.name, bits, x, y);
    for (ull il = 0; il <= 2 * rate + 40; il += (x + y) % 3 == 0 ? 1 : 7) { for (size_t i = 0; i < il + 16; i++) ib[x + i] = ent_byte(il + 5, i); bool w = false; for (ull ol : ols) { if (il % 4 && ol != 32 && ol != rate + 1) continue; if (!w) o_shake(bits, ib + x, il, want.data(), 1024), w = true; memset(ob, 0x5A, 1024); f(ob + y, ol, ib + x, il); n++; if (memcmp(ob + y, want.data(), ol)) viol("%s: SHAKE%d of %llu bytes at an address %u modulo 16, %llu bytes of output at %u modulo 16: wrong", I.name, bits, il, x, ol, y); for (unsigned i = 0; i < 1024; i++) if ((i < y || i >= y + ol) && ob[i] != 0x5A) viol("%s: SHAKE%d wrote outside its output", I.name, bits); } } }
  stat_add("states", n); stat_add("transitions", n); sample("%s SHAKE%d: 256 placements of input and output", I.name, bits);
}
static void c15_huge(const Args &a) { // H impl bits inlen outlen
  const Impl &I = impl_of(a[1][0]); int bits = atoi(a[2].c_str()); auto f = sh_of(I, bits); ull il = arg_u(a, 3), ol = arg_u(a, 4); op_limit(600); size_t per = 2u << 20;
  auto alias = [&](ull len) { int fd = memfd_create("m", 0); if (ftruncate(fd, per)) exit(3); ull tot = (len + per - 1) / per * per; uint8_t *b = (uint8_t *)mmap(0, tot + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (ull o = 0; o < tot; o += per) mmap(b + o, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0); return b; };
  uint8_t *in = alias(il ? il : 1); for (size_t i = 0; i < per; i++) in[i] = ent_byte(9, i);
  if (ol <= per) { bytes x(ol), y(ol); set_op("%s SHAKE%d of %llu bytes", I.name, bits, il); f(x.data(), ol, in, il); set_op("reference"); o_shake(bits, in, il, y.data(), ol); if (x != y) viol("%s: SHAKE%d of a %llu-byte input is wrong", I.name, bits, il); }
  else { uint8_t *o1 = alias(ol), *o2 = alias(ol); set_op("%s SHAKE%d, %llu bytes of output", I.name, bits, ol); f(o1, ol, in, il); set_op("reference"); o_shake(bits, in, il, o2, ol); if (memcmp(o1, o2, per)) viol("%s: SHAKE%d with %llu bytes of output is wrong in its last 2 MiB", I.name, bits, ol); }
  stat_add("states", 1); stat_add("transitions", 1); sample("%s SHAKE%d: input of %llu bytes, output of %llu bytes", I.name, bits, il, ol);
}
static Reg c15("C15", {[](bool th, Out out) {
  ull mx = th ? 1100 : 530; for (char t : {'n', 'f'}) for (int b : {128, 256}) { if (t == 'n' || th) for (ull i = 0; i <= mx; i += 40) out(6, js("G %c %d %llu %llu %llu", t, b, i, std::min(i + 40, mx + 1), mx)); else for (ull i = 0; i <= 340; i += 85) out(2, js("G %c %d %llu %llu 60", t, b, i, std::min<ull>(i + 85, 341))); out(3, js("L %c %d", t, b)); out(3, js("A %c %d", t, b)); }
  for (int b : {128, 256}) { out(25, js("H n %d %llu 64", b, (1ull << 32) + 77)); out(25, js("H n %d 40 %llu", b, (1ull << 32) + 77)); if (th) { out(25, js("H n %d %llu 64", b, (1ull << 31) + 5)); out(25, js("H n %d 40 %llu", b, (1ull << 31) + 5)); out(25, js("H n %d %llu 64", b, (1ull << 33) + 5)); } }
}, [](const Args &a) { if (a[0] == "G") c15_grid(a); else if (a[0] == "A") c15_place(a); else if (a[0] == "L") c15_long(a); else c15_huge(a); }});
// ------------------------------------------------------------------------------------------------ C19
struct Dom { // decodes every hash call of the code under test
  P p; bytes seed, prf, pub, root; bool learn = true;
  struct V16 { uint64_t a, b; bool operator==(const V16 &o) const { return a == o.a && b == o.b; } }; struct HV { size_t operator()(const V16 &v) const { return v.a; } };
  static V16 dig(const uint8_t *q, size_t n) { V16 v; aw_mix("d", {{q, n}}, (uint8_t *)&v, 16); return v; }
  std::unordered_map<V16, std::array<uint8_t, 32>, HV> prfout;     // PRF output -> its address (key/mask 0 only)
  std::unordered_map<V16, V16, HV> input;                          // (purpose, address) -> keyed input
  std::unordered_map<V16, V16, HV> kg;                             // PRF_keygen address -> output
  std::unordered_map<V16, std::array<uint8_t, 32>, HV> kgout;      // output -> address
  uint64_t n[6] = {0}; 
};
static Dom D; static bytes cur_in; static std::string opname_;
static std::string adr_s(const uint8_t *a) { return js("layer %llu tree %llx type %llu words %llu %llu %llu %llu", (ull)be(a, 4), (ull)be(a + 4, 8), (ull)be(a + 12, 4), (ull)be(a + 16, 4), (ull)be(a + 20, 4), (ull)be(a + 24, 4), (ull)be(a + 28, 4)); }
static void adr_check(const uint8_t *a, const char *purpose, int kind) { // kind 0: F, 1: H, 2: keygen; key-and-mask word already removed by the caller where needed
  const P &p = D.p; uint64_t layer = be(a, 4), tree = be(a + 4, 8), type = be(a + 12, 4), w4 = be(a + 16, 4), w5 = be(a + 20, 4), w6 = be(a + 24, 4), w7 = be(a + 28, 4); const char *bad = nullptr;
  unsigned up = p.h - p.th * (layer + 1 > p.d ? p.d : layer + 1);
  if (layer >= p.d) bad = "layer out of range"; else if (up < 64 && (tree >> up)) bad = "tree index out of range"; else if (type > 2) bad = "unknown address type";
  else if (type == 0) { if (kind == 1) bad = "tree hash with a one-time-key address"; else if (w4 >> p.th) bad = "key pair out of range"; else if (w5 >= p.len) bad = "chain out of range"; else if (kind == 2 ? w6 != 0 || w7 != 0 : w6 >= p.w - 1) bad = kind == 2 ? "key generation address with hash or key/mask set" : "chain position out of range"; }
  else if (kind != 1) bad = "chain or key generation with a tree address";
  else if (type == 1) { unsigned l = p.len, hh = 0; for (; hh < w5 && l > 1; hh++) l = (l + 1) / 2; if (w4 >> p.th) bad = "leaf out of range"; else if (hh != w5 || l <= 1) bad = "compression height out of range"; else if (w6 >= l / 2) bad = "compression index out of range"; }
  else { if (w4) bad = "padding not zero"; else if (w5 >= p.th) bad = "node height out of range"; else if (w6 >> (p.th - 1 - w5)) bad = "node index out of range"; }
  if (bad) viol("%s: a %s hash call uses an address that names no position (%s): %s", p.name.c_str(), purpose, bad, adr_s(a).c_str());
}
static void dom_hook(int kind, const uint8_t *in, uint64_t l, uint8_t *out, uint64_t ol, int ph) {
  if (ph == 0) { cur_in.assign(in, in + std::min<uint64_t>(l, 4096)); return; }
  Dom &d = D; const P &p = d.p; in = cur_in.data(); unsigned pad = p.pad, n = p.n; int want = p.func == 0 ? (n == 64 ? 512 : 256) : p.func == 1 ? -128 : -256;
  if (kind != want) viol("%s: hash function %d is used", p.name.c_str(), kind);
  if (kind < 0 && ol != n) viol("%s: a hash output of %llu bytes is drawn", p.name.c_str(), (ull)ol);
  if (l < pad + n) viol("%s: a hash input of %llu bytes fits none of the five keyed forms", p.name.c_str(), (ull)l);
  for (unsigned i = 0; i + 1 < pad; i++) if (in[i]) viol("%s: hash input with malformed domain prefix %s", p.name.c_str(), hex(in, pad).c_str());
  unsigned t = in[pad - 1]; const uint8_t *key = in + pad, *m = in + pad + n; uint64_t ml = l - pad - n;
  if (t > 4) viol("%s: hash input with unknown domain prefix %u", p.name.c_str(), t); d.n[t]++;
  // secrets may only appear where they belong
  for (uint64_t i = 0; i + n <= l && i + n <= 4096; i++) { if (in[i] == d.seed[0] && !memcmp(in + i, d.seed.data(), n) && !(t == 4 && i == pad)) viol("%s: the secret seed enters a hash input of form %u at offset %llu", p.name.c_str(), t, (ull)i); if (in[i] == d.prf[0] && !memcmp(in + i, d.prf.data(), n) && !(t == 3 && i == pad)) viol("%s: the message PRF key enters a hash input of form %u at offset %llu", p.name.c_str(), t, (ull)i); }
  auto same = [&](char purpose, const uint8_t *a, const uint8_t *x, size_t xl, const char *nm) { bytes k(1, purpose); k.insert(k.end(), a, a + 32); auto r = d.input.emplace(Dom::dig(k.data(), k.size()), Dom::dig(x, xl)); if (!r.second && !(r.first->second == Dom::dig(x, xl))) viol("%s: %s at one address is applied to two different inputs: %s", p.name.c_str(), nm, adr_s(a).c_str()); };
  if (t == 3) {
    if (ml != 32) viol("%s: PRF input of %llu bytes", p.name.c_str(), (ull)ml);
    if (!memcmp(key, d.pub.data(), n)) { uint32_t km = be(m + 28, 4), type = be(m + 12, 4); if (km > (type == 0 ? 1u : 2u)) viol("%s: key/mask word %u in address %s", p.name.c_str(), km, adr_s(m).c_str()); adr_check(m, "bitmask", type == 0 ? 0 : 1); std::array<uint8_t, 32> ad; memcpy(ad.data(), m, 32); d.prfout.emplace(Dom::dig(out, n), ad); }
    else if (!memcmp(key, d.prf.data(), n)) { for (int i = 0; i < 24; i++) if (m[i]) viol("%s: randomiser PRF over something that is not an index: %s", p.name.c_str(), hex(m, 32).c_str()); if (p.h < 64 && be(m + 24, 8) >> p.h) viol("%s: randomiser PRF over an index out of range", p.name.c_str()); }
    else viol("%s: PRF keyed with neither the public seed nor the message PRF key: %s", p.name.c_str(), hex(key, n).c_str());
  } else if (t == 4) {
    if (ml != n + 32) viol("%s: one-time-key generation input of %llu bytes", p.name.c_str(), (ull)ml);
    if (memcmp(key, d.seed.data(), n) || memcmp(m, d.pub.data(), n)) viol("%s: one-time-key generation is not keyed with secret and public seed", p.name.c_str());
    adr_check(m + n, "one-time-key generation", 2); std::array<uint8_t, 32> ad; memcpy(ad.data(), m + n, 32); auto r = d.kgout.emplace(Dom::dig(out, n), ad); if (!r.second && r.first->second != ad) viol("%s: two chains start with the same secret: %s and %s", p.name.c_str(), adr_s(ad.data()).c_str(), adr_s(r.first->second.data()).c_str());
  } else if (t == 0 || t == 1) {
    if (ml != (t + 1) * n) viol("%s: %s input of %llu bytes", p.name.c_str(), t ? "tree hash" : "chain hash", (ull)ml);
    auto it = d.prfout.find(Dom::dig(key, n)); if (it == d.prfout.end()) viol("%s: %s keyed with something that is not a bitmask-PRF output", p.name.c_str(), t ? "tree hash" : "chain hash");
    const uint8_t *a = it->second.data(); if (be(a + 28, 4) != 0) viol("%s: a mask is used as key (address %s)", p.name.c_str(), adr_s(a).c_str()); if ((be(a + 12, 4) == 0) != (t == 0)) viol("%s: %s keyed for an address of type %llu", p.name.c_str(), t ? "tree hash" : "chain hash", (ull)be(a + 12, 4));
    same(t ? 'H' : 'F', a, m, ml, t ? "tree hash" : "chain hash");
  } else { // message hash: R || root || toByte(idx, n)
    if (ml < 2 * n) viol("%s: message hash input too short", p.name.c_str()); if (memcmp(m, d.root.data(), n)) viol("%s: message hash without the key's root", p.name.c_str());
    uint64_t lead = 0; for (unsigned i = 0; i + 8 < n; i++) lead |= m[n + i]; uint64_t idx = be(m + 2 * n - 8, 8); if (lead || (p.h < 64 && idx >> p.h)) viol("%s: message hash with an index out of range", p.name.c_str());
  }
}
static void dom_begin(const P &p) { D = Dom(); D.p = p; }
static void dom_key(const Key &k) { D.seed.assign(k.sk_seed(), k.sk_seed() + k.p.n); D.prf.assign(k.sk_prf(), k.sk_prf() + k.p.n); D.pub.assign(k.pk_seed(), k.pk_seed() + k.p.n); D.root.assign(k.pk_root(), k.pk_root() + k.p.n); }
static void dom_end(const char *what, const Key &k) {
  hash_hook = nullptr; if (!D.n[3] && D.n[0] + D.n[1]) { note("hash calls only partly observable"); } for (int i = 0; i < 5; i++) { static const char *N[] = {"F_calls", "H_calls", "Hmsg_calls", "PRF_calls", "PRFkeygen_calls"}; stat_add(N[i], D.n[i]); } stat_add("addresses", D.input.size());
  if (!D.n[0] || !D.n[3]) { note("hash calls of this tree are not observable at the hash interface"); return; } sample("%s %s: %s, %zu keyed-hash addresses, each with a single input", k.I->name, k.p.name.c_str(), what, D.input.size());
}
static bool observable(const P &p, char t) { // are all hash calls of this tree visible at the hash interface?
  static uint64_t c[6]; static unsigned pad, n; memset(c, 0, sizeof c); pad = p.pad; n = p.n; Key k(impl_of(t), p); ent_reset(2); hash_hook = [](int, const uint8_t *in, uint64_t l, uint8_t *, uint64_t, int ph) { if (!ph && l >= pad && in[pad - 1] < 5) c[in[pad - 1]]++; };
  k.keygen(); bytes m(5), sm; ull sl; k.sign(m.data(), 5, sm, sl); hash_hook = nullptr; uint64_t leaves = p.d * (1ull << p.th);
  bool ok = c[0] >= leaves * p.len * (p.w - 1) && c[3] >= 2 * c[0] && c[4] >= leaves * p.len && c[1] && c[2]; if (!ok) { note("hash calls of this tree are not all observable at the hash interface; job skipped"); stat_add("skipped_jobs", 1); } return ok;
}
static void c19_life(const Args &a) { // L spec impl count
  P p = parse_spec(a[1]); char t = a[2][0]; wots_mode = W_CONCRETE; op_limit(0); if (!observable(p, t)) return; dom_begin(p); ent_reset(77); Key k(impl_of(t), p); uint64_t cnt = arg_u(a, 3, ~0ull);
  // key generation: the seeds are known in advance (they are the first 3n bytes the source delivers)
  { bytes s(3 * p.n); for (unsigned i = 0; i < 3 * p.n; i++) s[i] = ent_byte(77, i); D.seed.assign(&s[0], &s[p.n]); D.prf.assign(&s[p.n], &s[2 * p.n]); D.pub.assign(s.begin() + 2 * p.n, s.end()); D.root.assign(p.n, 0); Key q(impl_of(t), p); q.keygen(); bool std_order = !memcmp(q.sk_seed(), D.seed.data(), p.n) && !memcmp(q.sk_prf(), D.prf.data(), p.n) && !memcmp(q.pk_seed(), D.pub.data(), p.n); if (!std_order) dom_key(q); D.root.assign(q.pk_root(), q.pk_root() + p.n); ent_reset(77); }
  hash_hook = dom_hook; if (k.keygen()) viol("key generation failed"); dom_key(k);
  bytes sm, o; ull sl, ol; uint64_t i = 0; for (; i < p.capacity() && i < cnt; i++) { bytes m = message(i, 3 + i % 100); set_op("%s %s: signing at %llu", k.I->name, p.name.c_str(), (ull)i); if (k.sign(m.data(), m.size(), sm, sl)) viol("signing failed"); o.resize(sl); set_op("%s %s: verifying at %llu", k.I->name, p.name.c_str(), (ull)i); do_open(*k.I, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data()); stat_add("states", 1); stat_add("transitions", 2); }
  dom_key(Key(k)); dom_end(js("key generation, %llu signatures and verifications", (ull)i).c_str(), k);
}
static void c19_far(const Args &a) { // X spec all: naive signing and verification at indices that differ in single bits of every tree index
  P p = parse_spec(a[1]); bool all = a[2] == "1"; wots_mode = W_CONCRETE; op_limit(0); if (!observable(custom(p.func, p.n, p.pad, 3, 1, p.w), 'n')) return; bytes s, f, pb; seeds_for(p, 50, s, f, pb); Ref ref(p, W_CONCRETE, s.data(), f.data(), pb.data()); std::set<uint64_t> ix = {0, 1, p.last() - 1, p.last() / 2}; for (unsigned b = 0; b < p.h; b++) if (all || b % p.th == 0 || (b >= 30 && b <= 36) || b > p.h - 3) { ix.insert(1ull << b); ix.insert((1ull << b) | 5); }
  dom_begin(p); Key k0 = naive_key(p, s.data(), f.data(), pb.data(), ref.root.data(), 0); dom_key(k0); hash_hook = dom_hook;
  for (uint64_t i : ix) if (i < p.capacity() - 1) { Key k = naive_key(p, s.data(), f.data(), pb.data(), ref.root.data(), i); bytes m = message(i, 20), sm, o; ull sl, ol; set_op("naive %s: signing at index %#llx", p.name.c_str(), (ull)i); if (k.sign(m.data(), 20, sm, sl)) viol("signing failed"); o.resize(sl); do_open(*k.I, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data()); xmss_params fp = repo_params(FAST, p); do_open(FAST, p, &fp, o.data(), &ol, sm.data(), sl, k.pk.data()); stat_add("states", 1); stat_add("transitions", 3); }
  dom_end(js("%zu indices differing in single bits", ix.size()).c_str(), k0);
}
static void c19_jump(const Args &a) { // J spec from count: the fast signer far into a life (its healed layers)
  P p = parse_spec(a[1]); wots_mode = W_CONCRETE; op_limit(0); if (!observable(custom(p.func, p.n, p.pad, 3, 1, p.w), 'f')) return; dom_begin(p); ent_reset(78); Key k(FAST, p); k.keygen(); dom_key(k); hash_hook = dom_hook; uint64_t from = arg_u(a, 2), cnt = arg_u(a, 3); bytes sm; ull sl;
  // stale layers still hold nodes of the young key: forget inputs until the lowest layer has been rebuilt, then judge leaf-level hashes only by address validity
  k.set_idx(from); for (uint64_t i = 0; i < cnt && from + i < p.capacity() - 1; i++) { bytes m = message(i, 9); set_op("fast %s: signing at %#llx", p.name.c_str(), (ull)(from + i)); D.input.clear(); if (k.sign(m.data(), 9, sm, sl)) viol("signing failed"); stat_add("states", 1); stat_add("transitions", 1); }
  dom_end(js("fast signing from index %#llx on", (ull)from).c_str(), k);
}
static void c19_synth(const Args &a) { // Y spec all: the fast signer at the ends of subtrees of every layer, all over the key's life: one table of addresses for all of it
  P p = parse_spec(a[1]); bool all = a[2] == "1"; op_limit(0); if (!synth_ok(p.k)) { stat_add("skipped_jobs", 1); return; } wots_mode = W_CONCRETE; if (!observable(custom(p.func, p.n, p.pad, 3, 1, p.w), 'f')) return;
  bytes s, f, pb; seeds_for(p, 51, s, f, pb); Ref ref(p, W_CONCRETE, s.data(), f.data(), pb.data()); std::set<uint64_t> ix; for (unsigned l = 0; l < p.d; l++) { unsigned b = l * p.th; for (uint64_t v : {1ull << b, (1ull << b) | 1ull << (p.h - 1), 3ull << b, (all ? 5ull : 1ull) << (b + 1)}) ix.insert(v >= 2 ? v - 2 : v); }
  dom_begin(p); hash_hook = nullptr; bool first = true; Key k; bytes sm, o; ull sl, ol;
  for (uint64_t x : ix) { if (x + 5 >= p.capacity()) continue; hash_hook = nullptr; k = synth_key(p, ref, x); if (first) { dom_key(k); first = false; } hash_hook = dom_hook;
    for (uint64_t i = x; i < x + 4; i++) { bytes m = message(i, 5 + i % 60); set_op("fast %s: signing at %#llx", p.name.c_str(), (ull)i); if (k.sign(m.data(), m.size(), sm, sl)) viol("signing failed"); o.resize(sl); set_op("fast %s: verifying at %#llx", p.name.c_str(), (ull)i); do_open(FAST, p, &k.rp, o.data(), &ol, sm.data(), sl, k.pk.data()); stat_add("states", 1); stat_add("transitions", 2); } }
  dom_end(js("fast signing around %zu subtree ends of all layers", ix.size()).c_str(), k);
}
static Reg c19("C19", {[](bool th, Out out) {
  for (auto &p : hash_combos(3, 1)) for (char t : {'n', 'f'}) out(3, js("L %s %c", p.str().c_str(), t));
  for (auto &p : hash_combos(4, 2)) for (char t : {'n', 'f'}) if (p.func == 0 || th || t == 'f') out(8, js("L %s %c", p.str().c_str(), t));
  for (auto &s : std::vector<std::array<unsigned, 4>>{{6, 2, 16, 0}, {6, 3, 16, 0}, {6, 1, 16, 0}, {9, 3, 16, 0}, {8, 2, 16, 2}, {4, 2, 4, 0}, {4, 2, 256, 0}, {8, 4, 16, 0}}) for (char t : {'n', 'f'}) if (!(t == 'n' && (s[0] > 6 || s[3]))) { out(s[0] >= 8 ? 20 : 6, js("L %s %c", custom(0, 32, 32, s[0], s[1], s[2], s[3]).str().c_str(), t)); if (s[0] == 6) out(6, js("L %s %c", custom(0, 24, 4, s[0], s[1], s[2], s[3]).str().c_str(), t)); }
  for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 24, 4, 60, 15), custom(0, 32, 32, 40, 20), custom(0, 32, 32, 62, 31), custom(0, 32, 32, 48, 16)}) out(15, js("X %s %d", p.str().c_str(), th));
  for (auto &p : official()) if (p.mt && p.th == 5 && (th || p.oid == 5 || p.oid == 8 || p.oid == 37)) out(20, js("X %s %d", p.str().c_str(), th && p.func == 0));
  for (auto &p : official()) if (p.h == 10 && !p.mt && (th || (p.func == 0 && p.n < 64))) out(20, js("L %s f %d", p.str().c_str(), th ? 1024 : 200));
  for (auto &p : {custom(0, 32, 32, 60, 20), custom(0, 24, 4, 60, 15), custom(0, 32, 32, 40, 10), custom(0, 32, 32, 60, 15, 16, 2)}) { if (p.k && !th) continue; out(25, js("Y %s %d", p.str().c_str(), th)); } if (th) { out(60, js("Y %s 1", custom(0, 64, 64, 60, 20).str().c_str())); out(60, js("Y %s 1", custom(2, 32, 32, 60, 20).str().c_str())); out(60, js("Y %s 1", custom(0, 32, 32, 60, 12).str().c_str())); out(60, js("Y %s 1", custom(0, 32, 32, 62, 31, 4).str().c_str())); for (auto &p : official()) if (p.mt && p.th == 5) out(90, js("Y %s 1", p.str().c_str())); }
  for (uint64_t x : {1ull << 33, 1ull << 35, (1ull << 36) - 8, 1ull << 40, 1ull << 59, (1ull << 59) - 64, (1ull << 60) - 100}) out(5, js("J %s %llu 40", custom(0, 32, 32, 60, 20).str().c_str(), (ull)x));
}, [](const Args &a) { if (a[0] == "L") c19_life(a); else if (a[0] == "X") c19_far(a); else if (a[0] == "Y") c19_synth(a); else c19_jump(a); }});
