// C18: the command-line tools deliver complete, correct results or a nonzero exit status
#include "tracer.hpp"
#include <sys/resource.h>
extern bool o_stub;
static std::string real_dir() { char b[600]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; std::string s = b; s = s.substr(0, s.rfind('/')); return s.substr(0, s.rfind('/')) + "/real/ui/"; }
static std::string tool_name(bool mt, char impl, const char *what) { return std::string(mt ? "xmssmt_" : "xmss_") + what + (impl == 'f' ? "_fast" : ""); }
struct Mem { uint64_t len; uint8_t data[96 << 20]; }; static Mem *mem;
static void in_child(std::function<void()> f) { fflush(stdout); pid_t c = fork(); if (!c) { guard_init(); op_limit(300); f(); fflush(stdout); _exit(7); } int st; waitpid(c, &st, 0); parent_reports(st); }
static std::vector<bytes> from_child(std::function<std::vector<bytes>()> f) { in_child([&] { auto v = f(); uint8_t *w = mem->data; uint64_t n = v.size(); memcpy(w, &n, 8); w += 8; for (auto &b : v) { n = b.size(); if (w + n + 8 > mem->data + sizeof mem->data) _exit(3); memcpy(w, &n, 8); if (n) memcpy(w + 8, b.data(), n); w += 8 + n; } }); std::vector<bytes> v; const uint8_t *r = mem->data; uint64_t k, n; memcpy(&k, r, 8); r += 8; while (k--) { memcpy(&n, r, 8); v.emplace_back(r + 8, r + 8 + n); r += 8 + n; } return v; }
static bool traced = true; static uint64_t n_cases, n_nontriv; static std::string exe_prefix;
typedef std::vector<std::pair<int, Act>> Plan;
struct Got { int code, sig; bool hang; bytes out; std::vector<Sys> log; bool injected_out = false, injected = false; std::string what; };
struct Dir { Scratch sc; Dir() { mkdir((sc.d + "/d").c_str(), 0755); mkdir((sc.d + "/sub").c_str(), 0755); } std::string key() const { return sc.d + "/d/key"; } std::string f(const std::string &n) const { return sc.d + "/" + n; } };
static Got run(Dir &d, Launch l, const Plan &pl = Plan()) {
  l.cwd = d.sc.d + "/d"; l.out = d.sc.d + "/out"; l.err = d.sc.d + "/err"; if (exe_prefix.size()) l.exe = exe_prefix + l.tool; l.args.insert(l.args.begin(), l.tool); unlink(l.out.c_str()); Got g; Proc p; int k = 0; std::string w; for (auto &a : l.args) w += (w.empty() ? "" : " ") + (a.size() > 60 ? a.substr(0, 60) + "..." : a); if (l.closed) w += js(" (file descriptors closed: mask %u)", l.closed); if (l.out_full) w += " >/dev/full"; if (l.out_pipe_closed) w += " | (closed pipe)"; if (l.mal) w += js(" (allocation %ld fails)", l.mal);
  p.start(l, d.sc.d); while (!p.dead) { Act a; for (auto &x : pl) if (x.first == k) { a = x.second; g.injected = true; if (p.cur.role == R_OUT || p.cur.role == R_ERR) g.injected_out = true; w += js(", %s #%d %s", sys_name(p.cur.nr).c_str(), k, act_str(a).c_str()); } p.exec(a); k++; }
  g.code = p.code; g.sig = p.sig; g.hang = p.hang; g.log = p.log; g.out = l.out_full || l.out_pipe_closed ? bytes() : slurp(l.out); g.what = w; n_cases++; if (g.code || g.sig || pl.size()) n_nontriv++; set_op("%s", w.c_str()); if (l.out_full || l.out_pipe_closed || (l.closed & 2)) g.injected_out = true; return g;
}
static void must(bool ok, const Got &g, const std::string &ctx, const std::string &msg) { if (!ok) viol("%s: %s: %s (exit status %d, signal %d, %zu bytes of output)", ctx.c_str(), g.what.c_str(), msg.c_str(), g.code, g.sig, g.out.size()); }
static void no_crash(const Got &g, const std::string &ctx, bool pipe_ok = false) { must(!g.hang, g, ctx, "does not end"); must(g.sig == 0 || (pipe_ok && g.sig == SIGPIPE), g, ctx, "crashes"); must(g.code != 99 || traced, g, ctx, "memory error"); }
// every single fault (and with depth 2, pairs) of an invocation
static void each_fault(Dir &d, std::function<void()> reset, const Launch &l, int depth, int level, std::function<void(const Got &, const Plan &)> judge, Plan pl = Plan()) {
  reset(); Got g = run(d, l, pl); judge(g, pl); if (!depth) return; for (int i = pl.empty() ? 0 : pl.back().first + 1; i < (int)g.log.size(); i++) for (auto &a : variants(g.log[i], level)) { Plan q(pl); q.push_back({i, a}); each_fault(d, reset, l, depth - 1, level, judge, q); }
}
// the keypair a tool must write: two generated in this process into memory filled with 0x00 and 0xFF; bytes that key generation does not write (parts of a new BDS state) may have any value
static std::vector<bytes> make_want(const P &p, char impl, uint64_t seed, bool real) {
  return from_child([&]() -> std::vector<bytes> { std::vector<bytes> r; for (int f : {0, 255}) { ent_reset(seed); Key k(impl_of(impl), p); std::fill(k.sk.begin(), k.sk.end(), f); if (!real) k.keygen(); bytes b(k.pk); b.insert(b.end(), k.sk.begin(), k.sk.end()); r.push_back(b); } return r; });
}
static bool right_pair(const bytes &out, const std::vector<bytes> &want, const P &p, bool real) {
  if (out.size() != want[0].size()) return false; size_t o = 4 + 2 * p.n, fix = o + 4 + p.idxb + 4 * p.n; const uint8_t *sk = &out[o];
  if (!real) { for (size_t i = 0; i < out.size(); i++) if (out[i] != want[0][i] && (i < fix || want[0][i] == want[1][i])) return false; return true; }
  return be(&out[0], 4) == p.oid && be(sk, 4) == p.oid && be(sk + 4, p.idxb) == 0 && !memcmp(sk + 4 + p.idxb + 2 * p.n, &out[4], p.n) && !memcmp(sk + 4 + p.idxb + 3 * p.n, &out[4 + p.n], p.n) && memcmp(sk + 4 + p.idxb, sk + 4 + p.idxb + p.n, p.n);
}
// ------------------------------------------------------------------------------------ key generation
static void c18_k(const Args &a) { // K spec impl mode depth
  P p = parse_spec(a[1]); char impl = a[2][0]; int depth = arg_u(a, 4); std::string ctx = "key generation"; Dir d; Launch l; l.tool = tool_name(p.mt, impl, "keypair"); l.ent_seed = 17; l.args = {p.name};
  bool real = exe_prefix.size(); std::vector<bytes> want;
  want = make_want(p, impl, 17, real);
  auto right = [&](const Got &g) { return right_pair(g.out, want, p, real); };
  auto judge = [&](const Got &g, const Plan &pl) { no_crash(g, ctx, false); if (g.code == 0) must(right(g), g, ctx, "exit status 0, but the keypair is not complete and correct"); else must(g.injected || g.injected_out, g, ctx, "fails"); if (!g.injected_out) must(g.code == 0 || g.out.empty(), g, ctx, "fails with partial output"); };
  each_fault(d, [] {}, l, depth, 1, judge); 
  { Launch m = l; m.out_full = true; Got g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, "exit status 0 although nothing could be written"); m = l; m.out_pipe_closed = true; g = run(d, m); no_crash(g, ctx, true); must(g.code != 0 || g.sig, g, ctx, "exit status 0 although nothing could be written"); }
  for (unsigned c = 1; c < 8; c++) { Launch m = l; m.closed = c; Got g = run(d, m); no_crash(g, ctx); if (c & 2) must(g.code != 0, g, ctx, "exit status 0 although there is no standard output"); else if (g.code == 0) must(right(g), g, ctx, "exit status 0, but the keypair is not complete and correct"); }
  std::vector<std::vector<std::string>> bad = {{}, {p.name, p.name}, {p.name, ""}, {""}, {"-"}, {"XMSS"}, {"XMSSMT"}, {p.name + " "}, {" " + p.name}, {p.name.substr(0, p.name.size() - 1)}, {p.name + "0"}, {js("%u", p.oid)}, {js("0x%08x", p.oid)}, {std::string(5000, 'X')}, {p.name + std::string(3000, '_')}};
  { std::string s = p.name; for (auto &c : s) c = tolower(c); bad.push_back({s}); for (auto &q : official()) if (q.mt != p.mt) bad.push_back({q.name}); for (size_t i = 0; i < p.name.size(); i++) { std::string t = p.name; t.erase(i, 1); bad.push_back({t}); t = p.name; t[i]++; bool known = false; for (auto &q : official()) known |= q.name == t; if (!known) bad.push_back({t}); } }
  for (auto &b : bad) { Launch m = l; m.args = b; Got g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, "exit status 0 for bad arguments"); must(g.out.empty(), g, ctx, "output for bad arguments"); }
  sample("%s %s: %llu cases", l.tool.c_str(), p.name.c_str(), (ull)n_cases);
}
// -------------------------------------------------------------------------------------------- keys
struct KS { P p; char impl; bytes pk, sk; std::vector<bytes> m, sm; bytes nsk; int rc; };
static KS make_key(const P &p, char impl, uint64_t pos, const std::vector<size_t> &lens) {
  KS k; k.p = p; k.impl = impl; auto v = from_child([&]() -> std::vector<bytes> {
    const Impl &I = impl_of(impl); Key q; ent_reset(23); std::vector<bytes> r; bytes sm; ull sl;
    if (impl == 'n') { bytes s, f, pb; seeds_for(p, 23, s, f, pb); Ref rr(p, wots_mode, s.data(), f.data(), pb.data()); q = naive_key(p, s.data(), f.data(), pb.data(), rr.root.data(), pos); if (pos == p.capacity()) { q.set_idx(pos - 1); bytes m = message(1, 5); q.sign(m.data(), 5, sm, sl); q.sign(m.data(), 5, sm, sl); } } else { q = Key(I, p); q.keygen(); for (uint64_t i = 0; i < pos; i++) { bytes m = message(1, 5); q.sign(m.data(), 5, sm, sl); } if (pos == p.capacity()) { bytes m = message(1, 5); q.sign(m.data(), 5, sm, sl); } }
    r.push_back(q.pk); r.push_back(q.sk); bytes nsk; int rc = 0; for (size_t i = 0; i < lens.size(); i++) { Key z = q; bytes m = message(40 + i, lens[i]); rc = z.sign(m.data(), m.size(), sm, sl); r.push_back(rc ? bytes() : sm); nsk = z.sk; } r.push_back(nsk); r.push_back(bytes(rc ? 1 : 0)); return r; });
  k.pk = v[0]; k.sk = v[1]; for (size_t i = 0; i < lens.size(); i++) { k.m.push_back(message(40 + i, lens[i])); k.sm.push_back(v[2 + i]); } k.nsk = v[2 + lens.size()]; k.rc = v[3 + lens.size()].size(); return k;
}
static bytes cat(const bytes &a, const bytes &b) { bytes r(a); r.insert(r.end(), b.begin(), b.end()); return r; }
static std::vector<size_t> cuts(size_t full, const std::vector<size_t> &marks, size_t stride) { std::set<size_t> s; for (size_t i = 0; i < full; i += stride) s.insert(i); for (size_t m : marks) for (long x = (long)m - 3; x <= (long)m + 3; x++) if (x >= 0 && x < (long)full) s.insert(x); for (size_t i = 0; i < 12 && i < full; i++) { s.insert(i); s.insert(full - 1 - i); } return std::vector<size_t>(s.begin(), s.end()); }
// ------------------------------------------------------------------------------------------ signing
static void c18_s(const Args &a) { // S spec impl pos depth stride
  P p = parse_spec(a[1]); char impl = a[2][0]; uint64_t pos = a[3][0] == '-' ? p.capacity() + strtoll(a[3].c_str(), 0, 10) + 1 : strtoull(a[3].c_str(), 0, 10); int depth = arg_u(a, 4); size_t stride = arg_u(a, 5, 1); std::vector<size_t> lens = {33, 0, 1, 4095 - p.sig % 4096, 4096, 4097, 65536, 1 << 20, 3000017}; if (!traced) lens.resize(4);
  KS k = make_key(p, impl, pos, lens); Dir d; std::string ctx = js("signing with %s at index %llu", p.name.c_str(), (ull)pos); Launch l; l.tool = tool_name(p.mt, impl, "sign"); l.args = {"key", "../m0"}; for (size_t i = 0; i < lens.size(); i++) spit(d.f(js("m%zu", i)), k.m[i]); bytes good = cat(k.pk, k.sk), adv = cat(k.pk, k.nsk); if (k.rc) { bytes x = adv; (void)x; }
  auto reset = [&] { unlink(d.key().c_str()); spit(d.key(), good); };
  auto judge = [&](const Got &g, int mi, const bytes &before, const bytes &after_ok) { no_crash(g, ctx); bytes now = slurp(d.key()); if (g.code == 0) { must(!k.rc, g, ctx, "exit status 0 with an exhausted key"); must(g.out == k.sm[mi], g, ctx, "exit status 0, but the output is not the complete, correct signed message"); must(now == after_ok, g, ctx, "exit status 0, but the key file does not hold exactly the advanced key"); } else { if (!g.injected_out) must(g.out.empty(), g, ctx, "fails, but writes output"); if (!g.injected) must(now == before || now == after_ok, g, ctx, "fails and leaves a key file that is neither unchanged nor advanced"); must(now.size() == before.size(), g, ctx, "the size of the key file changes"); must(std::equal(now.begin(), now.begin() + std::min<size_t>(now.size(), 4 + p.pkb + 4), before.begin()), g, ctx, "changes the public key or an identifier in the key file"); } };
  if (traced) each_fault(d, reset, l, depth, 1, [&](const Got &g, const Plan &) { judge(g, 0, good, adv); if (!g.injected) must((g.code == 0) == !k.rc, g, ctx, k.rc ? "succeeds with an exhausted key" : "fails"); });
  for (size_t i = 0; i < lens.size(); i++) { reset(); Launch m = l; m.args[1] = js("../m%zu", i); Got g = run(d, m); judge(g, i, good, adv); must((g.code == 0) == !k.rc, g, ctx, js("a message of %zu bytes is not handled", lens[i])); }
  { bytes ex = cat(good, bytes(100, 0x77)), exa = cat(adv, bytes(100, 0x77)); spit(d.key(), ex); Got g = run(d, l); judge(g, 0, ex, exa); must((g.code == 0) == !k.rc, g, ctx, "a key file with trailing bytes is not handled"); }
  { Launch m = l; m.out_full = true; reset(); Got g = run(d, m); judge(g, 0, good, adv); must(g.code != 0, g, ctx, "exit status 0 although nothing could be written"); m = l; m.out_pipe_closed = true; reset(); g = run(d, m); no_crash(g, ctx, true); must(g.code != 0 || g.sig, g, ctx, "exit status 0 although nothing could be written"); }
  for (unsigned c = 1; c < 8; c++) { if (!traced) break; Launch m = l; m.closed = c; reset(); Got g = run(d, m); if (c & 2) { must(g.code != 0, g, ctx, "exit status 0 although there is no standard output"); g.out.clear(); } g.injected_out = true; judge(g, 0, good, adv);
    for (const char *mf : {"../missing", "../sub"}) { m.args[1] = mf; reset(); g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, "exit status 0 without a message"); must(slurp(d.key()) == good, g, ctx, "the key file is damaged"); } }
  for (int i = 1; i <= 4; i++) { Launch m = l; m.mal = i; if (exe_prefix.size()) break; reset(); Got g = run(d, m); g.injected = true; judge(g, 0, good, adv); }
  // bad arguments and files: no output, key file untouched
  auto refuse = [&](const std::vector<std::string> &args, const bytes &kf, const char *why) { spit(d.key(), kf); Launch m = l; m.args = args; Got g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, js("exit status 0 with %s", why)); must(g.out.empty(), g, ctx, js("output with %s", why)); must(slurp(d.key()) == kf, g, ctx, js("the key file changes with %s", why)); };
  refuse({}, good, "no arguments"); refuse({"key"}, good, "one argument"); refuse({"key", "../m0", "../m0"}, good, "three arguments"); refuse({"key", "../m0", ""}, good, "three arguments"); refuse({"nokey", "../m0"}, good, "a missing key file"); refuse({"", "../m0"}, good, "an empty key file name"); refuse({"../sub", "../m0"}, good, "a directory as key file"); refuse({"key", "../nomsg"}, good, "a missing message"); refuse({"key", "../sub"}, good, "a directory as message"); refuse({"key", ""}, good, "an empty message name"); refuse({"/dev/null", "../m0"}, good, "an empty key file");
  { bool made = false; struct stat st; refuse({"nokey2", "../m0"}, good, "a missing key file"); made = !stat(d.f("d/nokey2").c_str(), &st); Got g; g.what = "sign nokey2"; g.code = g.sig = 0; must(!made, g, ctx, "creates a key file"); }
  size_t o = 4 + p.pkb; for (size_t c : cuts(good.size(), {4, o, o + 4, o + 4 + p.idxb, o + 4 + p.idxb + p.n, o + 4 + p.idxb + 4 * p.n}, stride)) refuse({"key", "../m0"}, bytes(good.begin(), good.begin() + c), js("a key file cut to %zu of %zu bytes", c, good.size()).c_str());
  refuse({"key", "../m0"}, k.pk, "the public key alone");
  for (size_t at : {(size_t)0, o}) for (uint32_t v : {0u, p.mt ? 57u : 22u, 0x100u + p.oid, 0x01000000u + p.oid, 0x80000000u + p.oid, 0xFFFFFFFFu, (uint32_t)(p.oid << 8), (uint32_t)(p.oid << 24), 0x7FFFFFFFu, 0x3A00u}) { bytes b(good); put_be(&b[at], 4, v); refuse({"key", "../m0"}, b, js("identifier %#x at offset %zu of the key file", v, at).c_str()); }
  if (p.h < 8 * p.idxb) for (uint64_t v : std::initializer_list<uint64_t>{(uint64_t)p.last() + 1, (uint64_t)p.last() + 2, (uint64_t)1 << (8 * p.idxb - 1), p.idxb == 8 ? ~(uint64_t)0 : ((uint64_t)1 << 8 * p.idxb) - 1}) { if (v <= p.last()) continue; bytes b(good); put_be(&b[o + 4], p.idxb, v); spit(d.key(), b); Got g = run(d, l); no_crash(g, ctx); must(g.code != 0, g, ctx, js("exit status 0 with stored index %llu", (ull)v)); must(g.out.empty(), g, ctx, "output with an index beyond the last"); }
  sample("%s %s: %llu cases", l.tool.c_str(), p.name.c_str(), (ull)n_cases);
}
// ------------------------------------------------------------------------------------- verification
static void c18_o(const Args &a) { // O spec impl depth stride
  P p = parse_spec(a[1]); char impl = a[2][0]; int depth = arg_u(a, 3); size_t stride = arg_u(a, 4, 1); std::vector<size_t> lens = {33, 0, 1, 4096, 70000}; KS k = make_key(p, 'f', 3, lens); KS k2 = make_key(p, 'f', 4, {33}); Dir d; std::string ctx = js("verification with %s", p.name.c_str()); Launch l; l.tool = tool_name(p.mt, impl, "open"); l.args = {"key", "../sm"}; bytes good = cat(k.pk, k.sk);
  auto one = [&](const bytes &kf, const bytes &sm, bool valid, const std::string &why) { spit(d.key(), kf); spit(d.f("sm"), sm); Got g = run(d, l); no_crash(g, ctx); must((g.code == 0) == valid, g, ctx, valid ? "a valid signed message is refused: " + why : "exit status 0: " + why); must(slurp(d.key()) == kf && slurp(d.f("sm")) == sm, g, ctx, "changes its input files"); };
  for (size_t i = 0; i < lens.size(); i++) { one(good, k.sm[i], true, js("message of %zu bytes", lens[i])); one(k.pk, k.sm[i], true, "public key only"); one(cat(k.pk, bytes(3, 1)), k.sm[i], true, "public key and other bytes"); }
  const bytes &s = k.sm[0]; bytes bad(s); bad[p.idxb + 1] ^= 1; for (int z = 0; z < 2 && traced; z++) each_fault(d, [&] { spit(d.key(), good); spit(d.f("sm"), z ? bad : s); }, l, depth, 1, [&](const Got &g, const Plan &) { no_crash(g, ctx); if (z) must(g.code != 0, g, ctx, "exit status 0 for an altered signature"); else if (!g.injected) must(g.code == 0, g, ctx, "fails"); must(slurp(d.key()) == good, g, ctx, "changes the key file"); });
  std::vector<size_t> marks = {p.idxb, p.idxb + p.n, p.sig, p.sig - p.n, p.sig + 16}; for (unsigned i = 0; i < p.d; i++) { marks.push_back(p.idxb + p.n + i * (p.len + p.th) * p.n); marks.push_back(p.idxb + p.n + i * (p.len + p.th) * p.n + p.len * p.n); }
  for (size_t c : cuts(s.size(), marks, stride)) one(good, bytes(s.begin(), s.begin() + c), false, js("signed message cut to %zu of %zu bytes", c, s.size()));
  for (size_t m : marks) for (long x = (long)m - 1; x <= (long)m + 1; x++) if (x >= 0 && x < (long)s.size()) for (uint8_t b : {1, 0x80}) { bytes t(s); t[x] ^= b; if ((size_t)x < p.idxb && be(&t[0], p.idxb) > p.last()) continue; one(good, t, false, js("bit of byte %ld altered", x)); }
  for (size_t x : {(size_t)4, (size_t)4 + p.n - 1, (size_t)4 + p.n, (size_t)3 + 2 * p.n}) { bytes t(good); t[x] ^= 1; one(t, s, false, js("public key altered at byte %zu", x)); }
  for (size_t n : {1, 2, 100}) one(good, cat(s, bytes(n, 0)), false, "bytes added"); for (size_t c : cuts(k.pk.size(), {4, 4 + p.n}, 1)) one(bytes(k.pk.begin(), k.pk.begin() + c), s, false, js("public key cut to %zu bytes", c)); 
  for (uint32_t v : {0u, p.mt ? 57u : 22u, 0x100u + p.oid, 0x01000000u + p.oid, 0x80000000u + p.oid, 0xFFFFFFFFu, (uint32_t)(p.oid << 8), (uint32_t)(p.oid << 24)}) { bytes b(good); put_be(&b[0], 4, v); one(b, s, false, js("identifier %#x", v)); }
  for (auto &q : official()) if (q.mt == p.mt && q.oid != p.oid && q.n == p.n && q.th <= 16) { bytes b(good); put_be(&b[0], 4, q.oid); one(b, s, false, "identifier of " + q.name); }
  one(cat(k2.sk, k2.pk), s, false, "secret key in place of the public key"); one(good, good, false, "key file as signed message"); one(s, s, false, "signed message as key file");
  auto refuse = [&](const std::vector<std::string> &args, const char *why) { spit(d.key(), good); spit(d.f("sm"), s); Launch m = l; m.args = args; Got g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, js("exit status 0 with %s", why)); };
  refuse({}, "no arguments"); refuse({"key"}, "one argument"); refuse({"key", "../sm", "x"}, "three arguments"); refuse({"key", "../nosm"}, "a missing signed message"); refuse({"nokey", "../sm"}, "a missing key"); refuse({"key", "../sub"}, "a directory as signed message"); refuse({"../sub", "../sm"}, "a directory as key"); refuse({"key", "/dev/null"}, "an empty signed message"); refuse({"/dev/null", "../sm"}, "an empty key file"); refuse({"../sm", "key"}, "exchanged arguments"); refuse({"", ""}, "empty names");
  { Launch m = l; m.out_full = true; spit(d.key(), good); spit(d.f("sm"), s); Got g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, "exit status 0 although the result could not be written"); spit(d.f("sm"), bad); g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, "exit status 0 for an altered signature"); }
  for (unsigned c = 1; c < 8 && traced; c++) { Launch m = l; m.closed = c; spit(d.key(), good); spit(d.f("sm"), bad); Got g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, "exit status 0 for an altered signature"); must(slurp(d.key()) == good && slurp(d.f("sm")) == bad, g, ctx, "changes its input files"); if (!(c & 2)) { spit(d.f("sm"), s); g = run(d, m); no_crash(g, ctx); must(g.code == 0 || (c & 4), g, ctx, "a valid signed message is refused"); } }
  for (int i = 1; i <= 3; i++) { Launch m = l; m.mal = i; if (exe_prefix.size()) break; spit(d.key(), good); spit(d.f("sm"), bad); Got g = run(d, m); no_crash(g, ctx); must(g.code != 0, g, ctx, "exit status 0 for an altered signature"); }
  sample("%s %s: %llu cases", l.tool.c_str(), p.name.c_str(), (ull)n_cases);
}
// ---- a session with the tools alone: generate, sign to the end or n times, verify each
static void c18_e(const Args &a) { // E spec impl n
  P p = parse_spec(a[1]); char impl = a[2][0]; unsigned n = arg_u(a, 3); Dir d; std::string ctx = "a session"; Launch l; l.tool = tool_name(p.mt, impl, "keypair"); l.args = {p.name}; l.ent_seed = 5; Got g = run(d, l); no_crash(g, ctx); must(g.code == 0, g, ctx, "key generation fails"); bytes kf = g.out; spit(d.key(), kf); spit(d.f("pub"), bytes(kf.begin(), kf.begin() + 4 + p.pkb));
  uint64_t cap = p.capacity(); for (unsigned i = 0; i < n; i++) { Launch s; s.tool = tool_name(p.mt, impl, "sign"); s.args = {"key", "../msg"}; bytes m = message(i, (i * 37) % 500), before = slurp(d.key()); spit(d.f("msg"), m); g = run(d, s); no_crash(g, ctx); bytes now = slurp(d.key()); if (i >= cap) { must(g.code != 0 && g.out.empty(), g, ctx, js("signature %u of a key that makes %llu", i + 1, (ull)cap)); continue; }
    must(g.code == 0, g, ctx, js("signature %u fails", i + 1)); must(g.out.size() == p.sig + m.size() && be(&g.out[0], p.idxb) == i && std::equal(m.begin(), m.end(), g.out.begin() + p.sig), g, ctx, js("signature %u is malformed", i + 1)); must(now.size() == before.size() && std::equal(now.begin(), now.begin() + 4 + p.pkb + 4, before.begin()), g, ctx, "more than the secret key changes"); bytes sm = g.out; spit(d.f("sm"), sm);
    for (char t : {'n', 'f'}) { Launch o; o.tool = tool_name(p.mt, t, "open"); o.args = {t == 'n' ? "../pub" : "key", "../sm"}; g = run(d, o); no_crash(g, ctx); must(g.code == 0, g, ctx, js("signature %u does not verify", i + 1)); if (i % 7 == 0) { bytes x(sm); x[(i * 53) % x.size()] ^= 1 << i % 8; if (be(&x[0], p.idxb) > p.last()) continue; spit(d.f("sm"), x); g = run(d, o); no_crash(g, ctx); must(g.code != 0, g, ctx, "an altered signed message is accepted"); spit(d.f("sm"), sm); } } }
  sample("session with %s, %s: %u signatures", p.name.c_str(), impl == 'n' ? "naive" : "fast", n);
}
static void c18_n(const Args &a) { // N impl part parts maxth: every parameter set by name
  char impl = a[1][0]; unsigned part = arg_u(a, 2), parts = arg_u(a, 3), maxth = arg_u(a, 4), c = 0; for (auto &p : official()) { if (p.th > maxth || c++ % parts != part) continue; Dir d; Launch l; l.tool = tool_name(p.mt, impl, "keypair"); l.args = {p.name}; l.ent_seed = 29; auto v = make_want(p, impl, 29, false); Got g = run(d, l); no_crash(g, "key generation"); must(g.code == 0 && right_pair(g.out, v, p, false) && be(&g.out[0], 4) == p.oid, g, "key generation", "not the keypair of " + p.name); Launch w = l; w.tool = tool_name(!p.mt, impl, "keypair"); g = run(d, w); no_crash(g, "key generation"); must(g.code != 0 && g.out.empty(), g, "key generation", "a name of the other scheme is accepted"); }
  sample("key generation for every parameter set, part %u of %u", part, parts);
}
// ---- messages beyond the 32-bit lengths, with the tools as built by the Makefile (sparse files; the signed message is read from a pipe)
static int raw_run(const std::string &exe, const std::vector<std::string> &args, std::function<void(int)> reader) {
  int pf[2]; if (pipe(pf)) exit(3); fflush(stdout); pid_t c = fork();
  if (!c) { dup2(pf[1], 1); close(pf[0]); close(pf[1]); int n = open("/dev/null", O_WRONLY); dup2(n, 2); struct rlimit rl = {600, 600}; setrlimit(RLIMIT_CPU, &rl); std::vector<char *> v; v.push_back((char *)exe.c_str()); for (auto &x : args) v.push_back((char *)x.c_str()); v.push_back(0); execv(exe.c_str(), v.data()); _exit(127); }
  close(pf[1]); reader(pf[0]); close(pf[0]); int st; waitpid(c, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void c18_g(const Args &a) { // G spec impl len
  P p = parse_spec(a[1]); char impl = a[2][0]; uint64_t len = arg_u(a, 3); Dir d; auto tool = [&](const char *w) { return exe_prefix + tool_name(p.mt, impl, w); }; bytes kp; std::vector<uint8_t> buf(1 << 20); op_limit(0); std::string ctx = js("a message of %llu bytes with %s", (ull)len, p.name.c_str());
  auto bad = [&](bool ok, const std::string &m, int rc) { if (!ok) viol("%s: %s (exit status %d)", ctx.c_str(), m.c_str(), rc); };
  set_op("%s keypair", ctx.c_str()); int rc = raw_run(tool("keypair"), {p.name}, [&](int fd) { ssize_t n; while ((n = read(fd, buf.data(), buf.size())) > 0) kp.insert(kp.end(), buf.begin(), buf.begin() + n); }); bad(rc == 0, "key generation fails", rc); spit(d.key(), kp);
  // the message: zeros with a few marked places
  std::map<uint64_t, uint8_t> mark; for (uint64_t x : {(uint64_t)0, (uint64_t)63, len / 2, len - 1, len - 65, (uint64_t)1 << 31, ((uint64_t)1 << 31) - 1, (uint64_t)1 << 32, ((uint64_t)1 << 32) - 1}) if (x < len) mark[x] = 0x40 + x % 61;
  auto sparse = [&](const std::string &f, const bytes &head, uint64_t flip) { int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, head.size() + len)) { stat_add("skipped_jobs", 1); return false; } if (head.size() && pwrite(fd, head.data(), head.size(), 0) < 0) exit(3); for (auto &m : mark) { uint8_t v = m.second ^ (m.first == flip); if (pwrite(fd, &v, 1, head.size() + m.first) != 1) exit(3); } close(fd); return true; };
  if (!sparse(d.f("msg"), bytes(), ~0ull)) { note("no sparse files of that size here"); return; } bytes sig; uint64_t got = 0; bool good = true;
  set_op("%s: signing", ctx.c_str()); rc = raw_run(tool("sign"), {d.key(), d.f("msg")}, [&](int fd) { ssize_t n; while ((n = read(fd, buf.data(), buf.size())) > 0) { size_t i = 0; while (sig.size() < p.sig && i < (size_t)n) sig.push_back(buf[i++]); uint64_t from = got + i, to = got + n; if (to > from) { std::vector<uint8_t> w(to - from, 0); for (auto it = mark.lower_bound(from - p.sig); it != mark.end() && it->first + p.sig < to; ++it) w[it->first + p.sig - from] = it->second; if (memcmp(w.data(), &buf[i], w.size())) good = false; } got = to; } });
  n_cases++; bytes now = slurp(d.key()); if (rc == 0) { bad(got == p.sig + len, js("the tool reports success, but %llu bytes of %llu were output", (ull)got, (ull)(p.sig + len)), rc); bad(good, "the message in the signed message is not the message", rc); bad(be(&now[8 + p.pkb], p.idxb) == 1, "the key file is not advanced", rc); } else { bad(got == 0, "signing fails, but outputs something", rc); bad(rc < 1000, "signing crashes", rc); note("%s: refused", ctx.c_str()); unlink(d.f("msg").c_str()); return; }
  unlink(d.f("msg").c_str()); auto drain = [&](int fd) { while (read(fd, buf.data(), buf.size()) > 0) {} };
  set_op("%s: verifying", ctx.c_str()); sparse(d.f("sm"), sig, ~0ull); rc = raw_run(tool("open"), {d.key(), d.f("sm")}, drain); n_cases++; bad(rc == 0, "the signed message does not verify", rc);
  for (uint64_t x : {len - 1, (uint64_t)1 << 32}) { if (x >= len) continue; set_op("%s: verifying with byte %llu of the message altered", ctx.c_str(), (ull)x); sparse(d.f("sm"), sig, x); rc = raw_run(tool("open"), {d.key(), d.f("sm")}, drain); n_cases++; n_nontriv++; bad(rc != 0, js("the message altered at byte %llu is accepted", (ull)x), rc); if (arg_u(a, 4) == 0) break; }
  stat_add("long_messages", 1); sample("%s: message of %llu bytes signed and verified", p.name.c_str(), (ull)len);
}
static void c18_run(const Args &a0) {
  Args a(a0); mem = (Mem *)mmap(0, sizeof(Mem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); op_limit(0); bool real = a[0][0] == 'R'; if (real) a[0] = a[0].substr(1); traced = true; 
  char impl = a[0] == "N" ? a[1][0] : a[2][0]; if (!tool_fn(tool_name(false, impl, "sign"))) { stat_add("skipped_jobs", 1); note("no such tool"); return; }
  if (real) { exe_prefix = real_dir(); wots_mode = W_CONCRETE; if (access((exe_prefix + tool_name(false, impl, "sign")).c_str(), X_OK)) { stat_add("skipped_jobs", 1); note("the Makefile's own tools were not built"); return; } }
  else { auto v = from_child([]() -> std::vector<bytes> { return {bytes(abstract_ok())}; }); if (v[0].size()) { wots_mode = a[0] == "N" || (a[0] == "K" && parse_spec(a[1]).th > 5) ? W_ALEAF : W_AWOTS; o_stub = true; } else { wots_mode = W_CONCRETE; if (a[0] == "N" || (impl == 'n' && a[0] != "O" && parse_spec(a[1]).th > 5)) { stat_add("skipped_jobs", 1); return; } } }
  if (a[0] == "K") c18_k(a); else if (a[0] == "S") c18_s(a); else if (a[0] == "O") c18_o(a); else if (a[0] == "E") c18_e(a); else if (a[0] == "G") c18_g(a); else c18_n(a);
  stat_add("evaluations", n_cases); stat_add("distinct_nontrivial", n_nontriv); stat_add("tool_runs", t_runs); stat_add("system_calls", t_sys);
}
static Reg c18("C18", {[](bool th, Out out) {
  for (const char *sp : {"x:1", "x:4", "x:13", "x:16", "m:2", "m:34", "m:8"}) for (char t : {'n', 'f'}) { P p = parse_spec(sp); if (p.th > 10) continue; out(3, js("K %s %c 0 %d", sp, t, th ? 2 : 1)); }
  struct S { const char *sp; char t; const char *pos; }; for (auto &s : std::vector<S>{{"x:1", 'n', "0"}, {"x:1", 'n', "-2"}, {"x:1", 'n', "-1"}, {"m:2", 'n', "31"}, {"m:2", 'n', "-1"}, {"x:4", 'n', "1023"}, {"m:34", 'n', "5"}, {"x:1", 'f', "0"}, {"x:1", 'f', "-2"}, {"x:1", 'f', "-1"}, {"m:2", 'f', "31"}, {"m:5", 'f', "31"}, {"x:4", 'f', "77"}, {"x:13", 'f', "2"}, {"m:34", 'f', "1023"}, {"m:5", 'n', "-1"}}) { P p = parse_spec(s.sp); bool big = s.t == 'f' && p.mt; out(p.th > 5 && s.t == 'n' ? 40 : 20, js("S %s %c %s %d %d", s.sp, s.t, s.pos, th ? 2 : 1, big && !th ? 61 : s.t == 'f' && !th ? 5 : 1)); if (!th && p.th <= 5) {} if (!strcmp(s.pos, "31") || (s.t == 'f' && !strcmp(s.pos, "0"))) out(30, js("@asan S %s %c %s 1 %d", s.sp, s.t, s.pos, th ? 1 : 97)); }
  for (const char *sp : {"x:1", "x:4", "x:13", "m:2", "m:34", "m:5", "x:16"}) for (char t : {'n', 'f'}) { out(15, js("O %s %c %d %d", sp, t, th ? 2 : 1, th ? 1 : sp[0] == 'm' ? 41 : 11)); if (t == 'f') out(20, js("@asan O %s %c 1 %d", sp, t, th ? 7 : 191)); }
  for (const char *sp : {"x:1", "m:2", "m:34", "x:14"}) for (char t : {'n', 'f'}) { P p = parse_spec(sp); if (p.th > 10) continue; out(t == 'n' && p.th > 5 ? 20 : 10, js("E %s %c %d", sp, t, t == 'n' && p.th > 5 ? (th ? 1030 : 40) : p.mt ? (th ? 4000 : 600) : 1030)); }
  for (char t : {'n', 'f'}) for (unsigned i = 0; i < 8; i++) out(10, js("N %c %u 8 %d", t, i, th ? 20 : 10));
  out(20, js("RK m:2 f 0 1")); out(20, js("RK x:1 f 0 0")); out(20, js("RS m:2 f 31 1 %d", th ? 1 : 997)); out(20, js("RS m:2 n 31 1 97")); out(20, js("RS x:1 f 1 1 %d", th ? 1 : 97)); out(20, js("RO m:2 f 1 %d", th ? 7 : 997)); out(20, js("RO x:1 n 1 %d", th ? 7 : 97)); out(30, js("RE m:2 f %d", th ? 1030 : 40)); out(30, js("RE m:34 n %d", th ? 70 : 5)); out(20, "RE x:1 f 3");
  out(60, js("RG m:2 f %llu 0", (1ull << 32) + 100)); if (th) { out(60, js("RG m:2 n %llu 1", (1ull << 32) + 77)); out(60, js("RG m:34 f %llu 1", (1ull << 31) + 9)); out(60, js("RG m:50 f %llu 1", (1ull << 32) - 1)); }
}, c18_run});
