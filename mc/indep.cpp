// C11: outputs depend on the arguments only
#include "sub.hpp"
// ---- whole lives under every memory content
static void c11_life(const Args &a) { // L spec impl mode count: key generation and life, the same digest whatever memory held before
  P p = parse_spec(a[1]); const Impl &I = impl_of(a[2][0]); wots_mode = atoi(a[3].c_str()); if (!mode_ok(wots_mode)) return; op_limit(240); uint64_t cnt = std::min<uint64_t>(arg_u(a, 4, ~0ull), p.capacity()); std::vector<Dig> base; std::vector<std::string> w;
  bool opens = wots_mode != W_ALEAF; size_t ei = 0;
  for (auto &e : ENVS) { ei++; mallopt(M_PERTURB, e.fill); Sub s(I, p); ent_reset(31); set_op("%s %s: key generation, memory filled with 0x%02x", I.name, p.name.c_str(), e.fill); Dig d; s.gen(e, &d); std::vector<Dig> ds{d};
    for (uint64_t i = 0; i < cnt; i++) { Dig x; EnvV v = ENVS[(i + ei) % 5]; v.fill = e.fill; v.stack = e.stack; v.align = (i + 3 * ei + 7 * (i >> 4)) & 15; bytes m = message(i, (i * 13) % 90); set_op("%s %s: index %llu, memory filled with 0x%02x", I.name, p.name.c_str(), (ull)i, e.fill); s.sg(v, m, &x, false); if (opens && (i < 300 || i % 16 == 0)) { s.op(v, s.sm, &x); bytes bad(s.sm); bad[p.idxb + i % p.n] ^= 4; s.op(v, bad, &x); } ds.push_back(x); stat_add("states", 1); stat_add("transitions", opens ? 3 : 1); }
    if (base.empty()) base = ds; else for (size_t i = 0; i < ds.size(); i++) if (!(ds[i] == base[i])) viol("%s %s: %s depend on what memory held before (buffers and stack filled with 0x00 and with 0x%02x give different results)", I.name, p.name.c_str(), i ? js("the results at index %zu", i - 1).c_str() : "the generated keys", e.fill);
  }
  mallopt(M_PERTURB, 0); sample("%s %s mode %d: %llu indices, 5 memory contents", I.name, p.name.c_str(), wots_mode, (ull)cnt);
}
// ---- one process, or a new process for every call
static void c11_proc(const Args &a) { // P spec impl mode count
  P p = parse_spec(a[1]); const Impl &I = impl_of(a[2][0]); wots_mode = atoi(a[3].c_str()); op_limit(0); uint64_t cnt = std::min<uint64_t>(arg_u(a, 4, ~0ull), p.capacity()); struct S { Dig d; uint32_t n; uint8_t b[1 << 20]; }; S *s = (S *)shm(sizeof(S)); Dig *base = (Dig *)shm(sizeof(Dig) * (cnt + 1));
  auto mm = [](uint64_t i) { return message(i, (i * 29) % 70); };
  // reference: everything in one process
  child<S>(s, [&](S &) { if (!mode_ok(wots_mode)) { base[0].a = 0; return; } op_limit(240); Sub k(I, p); ent_reset(32); base[0] = Dig(); k.gen(ENVS[0], &base[0]); for (uint64_t i = 0; i < cnt; i++) { base[i + 1] = Dig(); set_op("%s %s one process, index %llu", I.name, p.name.c_str(), (ull)i); k.sg(ENVS[0], mm(i), &base[i + 1], false); } });
  if (base[0].a == 0) { stat_add("skipped_jobs", 1); return; }
  // every call in a process of its own, which knows only the stored key
  child<S>(s, [&](S &x) { op_limit(240); Sub k(I, p); ent_reset(32); x.d = Dig(); k.gen(ENVS[2], &x.d); x.n = k.sk.size(); memcpy(x.b, k.sk.data(), x.n); });
  for (uint64_t i = 0; i <= cnt; i++) {
    if (!(s->d == base[i])) viol("%s %s: %s differs when the stored key is used by a new process", I.name, p.name.c_str(), i ? js("the signature at index %llu", (ull)i - 1).c_str() : "the generated key"); if (i == cnt) break;
    child<S>(s, [&](S &x) { op_limit(240); Sub k(I, p); k.sk.assign(x.b, x.b + x.n); x.d = Dig(); set_op("%s %s new process, index %llu", I.name, p.name.c_str(), (ull)i); k.sg(ENVS[i % 5], mm(i), &x.d, false); memcpy(x.b, k.sk.data(), x.n); }); stat_add("states", 1); stat_add("transitions", 2);
  }
  sample("%s %s: %llu signatures, each in a new process", I.name, p.name.c_str(), (ull)cnt);
}
// ---- call histories before a probe
static void c11_hist(const Args &a) { // H specA specB impl depth part parts near (key B draws what key A drew but for one byte, 1 last, 2 first, 3 middle, of the thirds not in near>>2)
  P pa = parse_spec(a[1]), pb = parse_spec(a[2]); const Impl &I = impl_of(a[3][0]); unsigned depth = arg_u(a, 4), part = arg_u(a, 5), parts = arg_u(a, 6, 1); unsigned near = arg_u(a, 7); int mode = !near && abstract_ok() ? W_AWOTS : W_CONCRETE; wots_mode = mode; op_limit(0);
  uint64_t npos = 0; auto near_b = [&] { npos = 0; ent.fn = [&](int r, uint8_t *b, uint64_t n) -> long { if (!r) return 1000; for (uint64_t i = 0; i < n; i++, npos++) { b[i] = ent_byte(33, npos); unsigned q = near & 3, th = npos / pb.n, at = npos % pb.n; if (th < 3 && !(near >> 2 >> th & 1) && at == (q == 1 ? pb.n - 1 : q == 2 ? 0 : pb.n / 2)) b[i] ^= 0x40; } return n; }; };
  // keys and messages are prepared in a process of their own: this one stays untouched
  struct S { uint32_t n[8]; uint8_t b[8][1 << 18]; Dig d; }; S *s = (S *)shm(sizeof(S)); auto get = [&](int i) { return bytes(s->b[i], s->b[i] + s->n[i]); };
  child<S>(s, [&](S &x) { auto put = [&](int i, const bytes &v) { x.n[i] = v.size(); if (v.size() > sizeof x.b[0]) _exit(3); memcpy(x.b[i], v.data(), v.size()); }; ent_reset(33); Sub A(I, pa), B(I, pb); A.gen(ENVS[0], 0); if (near) { ent_reset(33); near_b(); } B.gen(ENVS[0], 0); ent.fn = nullptr; A.sg(ENVS[0], message(1, 20), 0, false); B.sg(ENVS[0], message(2, 70), 0, false); put(0, A.pk); put(1, A.sk); put(2, A.sm); put(3, B.pk); put(4, B.sk); put(5, B.sm); });
  auto load = [&](Sub &A, int o) { A.params(); A.pk = get(o); A.sk = get(o + 1); A.sm = get(o + 2); };
  typedef std::function<void(const EnvV &, Dig *)> OpF; std::vector<std::pair<std::string, OpF>> ops; 
  auto add = [&](const char *n, OpF f) { ops.push_back({n, f}); };
  add("key generation A", [&](const EnvV &e, Dig *d) { Sub A(I, pa); ent_reset(near ? 33 : 40); A.gen(e, d); A.sg(e, message(8, 3), d, false); A.sg(e, message(9, 4), d, false); });
  add("sign A", [&](const EnvV &e, Dig *d) { Sub A(I, pa); load(A, 0); A.sg(e, message(3, 33), d, true); });
  add("verify A", [&](const EnvV &e, Dig *d) { Sub A(I, pa); load(A, 0); A.op(e, A.sm, d); });
  add("verify altered A", [&](const EnvV &e, Dig *d) { Sub A(I, pa); load(A, 0); bytes x(A.sm); x[pa.idxb + 1] ^= 1; A.op(e, x, d); });
  add("sign empty message A", [&](const EnvV &e, Dig *d) { Sub A(I, pa); load(A, 0); A.sg(e, bytes(), d, true); });
  add("last signature A", [&](const EnvV &e, Dig *d) { Sub A(I, pa); load(A, 0); put_be(&A.sk[A.off], pa.idxb, pa.capacity() - 1); A.sg(e, message(3, 5), d, true); A.sg(e, message(3, 5), d, true); });
  size_t probes = ops.size();
  add("key generation B", [&](const EnvV &e, Dig *d) { Sub B(I, pb); ent_reset(near ? 33 : 41); if (near) near_b(); B.gen(e, d); ent.fn = nullptr; });
  add("sign B", [&](const EnvV &e, Dig *d) { Sub B(I, pb); load(B, 3); B.sg(e, message(4, 200), d, true); });
  add("verify B", [&](const EnvV &e, Dig *d) { Sub B(I, pb); load(B, 3); B.op(e, B.sm, d); });
  add("verify a short input", [&](const EnvV &e, Dig *d) { Sub B(I, pb); load(B, 3); B.sm.resize(100); B.op(e, B.sm, d); });
  add("undefined identifiers", [&](const EnvV &e, Dig *) { uint8_t k[200] = {0x7F, 1, 2, 3}, x[200]; ull l; I.xmss_keypair(x, x, 99); I.xmssmt_keypair(x, x, 99); I.xmss_sign(k, x, &l, x, 5); I.xmssmt_sign_open(x, &l, x, 100, k); });
  add("sign a long message A", [&](const EnvV &e, Dig *d) { Sub A(I, pa); load(A, 0); A.sg(e, message(3, 70001), d, true); });
  size_t N = ops.size(); uint64_t tot = 1; for (unsigned i = 0; i < depth; i++) tot *= N; uint64_t n = 0;
  for (size_t pr = 0; pr < probes; pr++) {
    child<S>(s, [&](S &x) { op_limit(240); x.d = Dig(); set_op("%s %s: %s in a fresh process", I.name, pa.name.c_str(), ops[pr].first.c_str()); ops[pr].second(ENVS[0], &x.d); }); Dig base = s->d;
    for (uint64_t c = part; c < tot; c += parts) {
      child<S>(s, [&](S &x) { op_limit(240); std::string h; uint64_t y = c; for (unsigned i = 0; i < depth; i++, y /= N) { h += ops[y % N].first + ", "; set_op("%s %s/%s: history %s", I.name, pa.name.c_str(), pb.name.c_str(), h.c_str()); ops[y % N].second(ENVS[(c + i) % 5], 0); }
        x.d = Dig(); ops[pr].second(ENVS[c % 5], &x.d); if (!(x.d == base)) viol("%s %s: \"%s\" gives a different result after the calls: %s(other set: %s)", I.name, pa.name.c_str(), ops[pr].first.c_str(), h.c_str(), pb.name.c_str()); });
      n++;
    }
  }
  stat_add("states", n); stat_add("transitions", n * (depth + 1)); sample("%s %s / %s: %zu probes after all histories of %u of %zu calls", I.name, pa.name.c_str(), pb.name.c_str(), probes, depth, N);
}
static Reg c11("C11", {[](bool th, Out out) {
  bool ab = abstract_ok();
  for (auto &p : hash_combos(4, 2)) for (char t : {'n', 'f'}) out(p.n == 64 || p.func ? 12 : 3, js("L %s %c %d", p.str().c_str(), t, W_MEMO));
  for (auto &s : std::vector<std::array<unsigned, 3>>{{6, 2, 0}, {6, 3, 0}, {8, 2, 2}, {6, 1, 4}, {8, 4, 0}}) for (char t : {'n', 'f'}) if (!(t == 'n' && s[2])) out(6, js("L %s %c %d", custom(0, 24, 4, s[0], s[1], 16, s[2]).str().c_str(), t, W_MEMO));
  for (unsigned w : {4u, 256u}) out(6, js("L %s f %d", custom(0, 32, 32, 4, 2, w).str().c_str(), W_MEMO));
  if (ab) { for (auto &s : std::vector<std::array<unsigned, 3>>{{8, 1, 0}, {9, 3, 0}, {12, 3, 0}, {12, 4, 0}, {10, 2, 0}, {12, 6, 0}, {12, 3, 2}, {10, 1, 4}, {16, 8, 0}}) out(s[0] > 12 ? 20 : 3, js("L %s f %d", custom(0, 32, 32, s[0], s[1], 16, s[2]).str().c_str(), W_ALEAF));
    for (auto &p : official()) if (p.th <= 10) { if (th || p.func == 0) out(3, js("L %s f %d %d", p.str().c_str(), W_ALEAF, th ? 3000 : p.d > 1 ? 300 : 1024)); out(1, js("L %s n %d %d", p.str().c_str(), W_ALEAF, 2)); }
    for (auto &p : official()) if (p.th <= 10) out(4, js("P %s f %d %d", p.str().c_str(), W_ALEAF, th ? 1100 : 70));
  }
  for (auto &s : std::vector<std::array<unsigned, 3>>{{6, 2, 0}, {6, 3, 0}, {8, 2, 2}, {8, 4, 0}, {6, 1, 0}}) for (char t : {'n', 'f'}) out(5, js("P %s %c %d", custom(0, 24, 4, s[0], s[1], 16, s[2] && t == 'f' ? 2 : 0).str().c_str(), t, W_CONCRETE));
  std::vector<std::pair<P, P>> pr = {{custom(0, 32, 32, 4, 2), custom(0, 32, 32, 4, 2)}, {custom(0, 32, 32, 4, 2), custom(2, 64, 64, 6, 2)}, {custom(2, 24, 4, 4, 2), custom(0, 64, 64, 3, 1)}, {custom(1, 32, 32, 3, 1), custom(0, 24, 4, 6, 3)}, {custom(0, 64, 64, 4, 1), custom(0, 24, 4, 4, 2, 4)}, {custom(0, 32, 32, 4, 2, 256), custom(0, 32, 32, 4, 2, 16)}};
  for (auto &q : pr) for (char t : {'n', 'f'}) for (unsigned i = 0; i < (th ? 16u : 1u); i++) out(8, js("H %s %s %c %d %u %u", q.first.str().c_str(), q.second.str().c_str(), t, th ? 3 : ab ? 2 : 1, i, th ? 16 : 1));
  // the other key's secrets and seeds differ from the first key's in one byte only
  for (auto &p : {custom(0, 32, 32, 3, 1), custom(0, 24, 4, 2, 1), custom(2, 32, 32, 2, 1)}) for (char t : {'n', 'f'}) for (unsigned q = 1; q < 4; q++) for (unsigned sh : {0u, 3u, 5u, 6u}) out(8, js("H %s %s %c %d 0 1 %u", p.str().c_str(), p.str().c_str(), t, th ? 2 : 1, q | sh << 2));
}, [](const Args &a) { if (a[0] == "L") c11_life(a); else if (a[0] == "P") c11_proc(a); else c11_hist(a); }});
