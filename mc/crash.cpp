// C17: the signing tool under crashes, power loss, faults and concurrent invocations
#include "tracer.hpp"
#include <unordered_set>
extern bool o_stub;
static std::string real_dir() { char b[600]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; std::string s = b; s = s.substr(0, s.rfind('/')); return s.substr(0, s.rfind('/')) + "/real/ui/"; }
static std::string tool_name(const P &p, char impl, const char *what) { return std::string(p.mt ? "xmssmt_" : "xmss_") + what + (impl == 'f' ? "_fast" : ""); }
// ---- memory shared with the traced tools and helper children
struct Blob { uint32_t n_pairs, over; uint8_t pair[20000][128]; uint64_t len; uint8_t data[64 << 20]; };
static Blob *B_;
static void log_pair(const uint8_t *s, const uint8_t *m, unsigned n) { if (B_->n_pairs >= 20000) { B_->over = 1; return; } uint8_t *q = B_->pair[B_->n_pairs++]; memset(q, 0, 128); memcpy(q, s, n); memcpy(q + 64, m, n); }
static void in_child(std::function<void()> f) { fflush(stdout); pid_t c = fork(); if (!c) { guard_init(); op_limit(200); f(); fflush(stdout); _exit(7); } int st; waitpid(c, &st, 0); parent_reports(st); }
static const int NM_ = 4, NJ = 5; // messages, further signatures precomputed
static bytes msg_of(int i) { return message(300 + i, 20 + 37 * (i % NM_)); }
struct Pos { P p; char impl; uint64_t pos; bytes pk; std::vector<bytes> sk; std::vector<std::vector<bytes>> sm; std::vector<int> rc; uint64_t cap; bytes prev; /* signature made before */ };
static bytes keyfile(const Pos &q, int j) { bytes f(q.pk); f.insert(f.end(), q.sk[j].begin(), q.sk[j].end()); return f; }
// keys at a position, with everything the next signatures have to look like
static Pos prepare(const P &p, char impl, uint64_t pos) {
  Pos q; q.p = p; q.impl = impl; q.pos = pos; q.cap = p.capacity();
  in_child([&] {
    uint8_t *w = B_->data; auto put = [&](const bytes &b) { uint64_t n = b.size(); memcpy(w, &n, 8); w += 8; memcpy(w, b.data(), n); w += n; if (w > B_->data + sizeof B_->data - (1 << 20)) _exit(3); };
    const Impl &I = impl_of(impl); Key k; ent_reset(91); bytes sm; ull sl; bytes prev;
    if (impl == 'n') { bytes s, f, pb; seeds_for(p, 91, s, f, pb); Ref r(p, wots_mode, s.data(), f.data(), pb.data()); k = naive_key(p, s.data(), f.data(), pb.data(), r.root.data(), pos); if (pos > 0 && pos - 1 < p.capacity()) { Key z = k; z.set_idx(pos - 1); bytes m = message(299, 10); z.sign(m.data(), m.size(), sm, sl); prev = sm; if (pos >= p.capacity()) k = z; } }
    else { k = Key(I, p); k.keygen(); for (uint64_t i = 0; i < pos; i++) { bytes m = message(299, 10); set_op("%s %s: reaching index %llu", I.name, p.name.c_str(), (ull)i); k.sign(m.data(), m.size(), sm, sl); if (i + 1 == pos) prev = sm; } }
    put(k.pk); put(prev);
    for (int j = 0; j <= NJ; j++) { put(k.sk); Key nx; int rc = 0; for (int m = 0; m < NM_; m++) { Key z = k; bytes mm = msg_of(m); rc = z.sign(mm.data(), mm.size(), sm, sl); put(rc ? bytes() : sm); if (m == 0) nx = z; } put(bytes(1, rc ? 1 : 0)); k = nx; }
  });
  const uint8_t *r = B_->data; auto get = [&]() { uint64_t n; memcpy(&n, r, 8); bytes b(r + 8, r + 8 + n); r += 8 + n; return b; };
  q.pk = get(); q.prev = get(); for (int j = 0; j <= NJ; j++) { q.sk.push_back(get()); std::vector<bytes> v; for (int m = 0; m < NM_; m++) v.push_back(get()); q.sm.push_back(v); q.rc.push_back(get()[0]); } return q;
}
// ---- what has been let out
struct Rel {
  std::map<uint64_t, std::string> idx; std::map<std::string, std::string> ots; std::set<std::string> made; // made: (secret, value) pairs really computed
  void absorb() { for (uint32_t i = 0; i < B_->n_pairs; i++) made.insert(std::string((char *)B_->pair[i], 128)); B_->n_pairs = 0; }
  std::string add(const Pos &q, const bytes &out, uint64_t start_idx, const std::string &who, bool hist = false) { // problem or ""
    if (out.empty()) return ""; const P &p = q.p; uint64_t i = out.size() >= p.idxb ? be(out.data(), p.idxb) : start_idx;
    if (!hist && i < q.pos) return js("%s released a signature with index %llu, used before", who.c_str(), (ull)i);
    auto it = idx.find(i); if (it != idx.end()) return js("%s and %s both released a signature with index %llu", it->second.c_str(), who.c_str(), (ull)i); idx[i] = who;
    if (wots_mode >= W_AWOTS && out.size() >= p.sig) for (unsigned l = 1; l < p.d; l++) { const uint8_t *s = &out[p.idxb + p.n + l * (p.len + p.th) * p.n]; char b[128]; memset(b, 0, 128); memcpy(b, s, p.n); memcpy(b + 64, s + p.n, p.n); if (!hist && !made.count(std::string(b, 128))) continue; std::string se(b, 64), va(b + 64, 64); auto o = ots.find(se); if (o == ots.end()) ots[se] = va; else if (o->second != va) return js("%s released a one-time signature of layer %u of a second value (signature index %llu)", who.c_str(), l, (ull)i); }
    return "";
  }
};
struct Snap { std::map<std::string, uint64_t> names; std::map<uint64_t, bytes> data; std::set<uint64_t> synced; bool dirsync = false; std::vector<uint64_t> outw; };
static Snap snapshot(const std::string &d) { Snap s; DIR *q = opendir(d.c_str()); while (dirent *e = readdir(q)) { if (e->d_name[0] == '.') continue; std::string f = d + "/" + e->d_name; struct stat st; if (stat(f.c_str(), &st) || !S_ISREG(st.st_mode)) continue; s.names[e->d_name] = st.st_ino; s.data[st.st_ino] = slurp(f); } closedir(q); return s; }
// ---- one key, one working directory
struct World {
  Pos q; Scratch sc; std::string exe; std::string tool; std::unordered_set<uint64_t> seen; uint64_t images = 0, power = 0, kills = 0, ended = 0; std::vector<std::pair<bytes, std::vector<std::pair<bytes, std::string>>>> batch; std::set<std::string> batch_made; std::string ctx; bool do_images = true;
  World(const P &p, char impl, uint64_t pos, bool real) : q(prepare(p, impl, pos)) { tool = tool_name(p, impl, "sign"); if (real) exe = real_dir() + tool; mkdir((sc.d + "/d").c_str(), 0755); for (int i = 0; i < NM_; i++) spit(sc.d + js("/m%d", i), msg_of(i)); }
  std::string key() const { return sc.d + "/d/key"; }
  Launch launch(int i) const { Launch l; l.tool = tool; l.exe = exe; l.args = {tool, "key", js("../m%d", i)}; l.cwd = sc.d + "/d"; l.out = sc.d + js("/out%d", i); l.err = sc.d + js("/err%d", i); return l; }
  void reset() { DIR *d = opendir((sc.d + "/d").c_str()); while (dirent *e = readdir(d)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) unlink((sc.d + "/d/" + e->d_name).c_str()); closedir(d); spit(key(), keyfile(q, 0)); }
  uint64_t file_idx(const bytes &f) const { size_t o = 4 + q.p.pkb + 4; return f.size() >= o + q.p.idxb ? be(&f[o], q.p.idxb) : ~0ull; }
  struct Inv { bytes out; int code = 0, sig = 0; bool upd = false, hang = false; std::vector<Sys> log; uint64_t start = 0; };
  // clean invocation
  Inv clean(int m) { Inv v; v.start = file_idx(slurp(key())); B_->n_pairs = 0; Proc p; p.start(launch(m), sc.d); while (!p.dead) p.exec(Act()); v.out = slurp(launch(m).out); v.code = p.code; v.sig = p.sig; v.log = p.log; v.upd = p.update_started; v.hang = p.hang; return v; }
  // continue with the key file as it is: signatures made by the tool from here on
  void follow(Rel rel, int n, const std::string &what) {
    for (int i = 0; i < n; i++) { int m = 2 + i % 2; bytes before = slurp(key()); Inv v = clean(m); rel.absorb(); std::string e = rel.add(q, v.out, v.start, js("the later invocation %d", i + 1)); if (e.size()) viol("%s: %s; %s", ctx.c_str(), what.c_str(), e.c_str());
      if (v.sig || v.hang) viol("%s: %s; the next invocation %s", ctx.c_str(), what.c_str(), v.hang ? "does not end" : js("crashes (signal %d)", v.sig).c_str());
      for (int j = 0; j < NJ; j++) if (before == keyfile(q, j)) { bytes want = q.rc[j] ? bytes() : q.sm[j][m]; bool ok = (v.code == 0) == !q.rc[j] && v.out == want && slurp(key()) == keyfile(q, j + 1); if (!ok) viol("%s: %s; the key file is intact (index %llu), but the next invocation does not %s (exit status %d, %zu bytes)", ctx.c_str(), what.c_str(), (ull)(q.pos + j), q.rc[j] ? "refuse to sign" : "deliver the right signature", v.code, v.out.size()); break; } }
  }
  // ---- states the disk or the file can be left in
  void add_image(const bytes &img, const std::vector<std::pair<bytes, std::string>> &outs, const std::string &what, const std::set<std::string> &made) {
    uint64_t h[2]; aw_mix("i", {{img.data(), img.size()}}, (uint8_t *)h, 16); for (auto &o : outs) { uint64_t x[4] = {h[0], h[1], o.first.size(), 0}; aw_mix("j", {{x, 32}, {o.first.data(), std::min<size_t>(o.first.size(), q.p.sig)}}, (uint8_t *)h, 16); } if (!seen.insert(h[0]).second) return;
    images++; batch.push_back({img, outs}); batch.back().second.push_back({bytes(), what}); batch_made.insert(made.begin(), made.end());
  }
  void run_batch() { // every state continues with three signatures, made by the library as the tool would
    if (batch.empty()) return;
    // A state torn in the middle of an update may be no key at all: if signing with it crashes, that history ends there.
    size_t at_img = 0; while (at_img < batch.size()) { B_->len = at_img; fflush(stdout); pid_t c = fork(); if (!c) { for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) signal(s, SIG_DFL); const P &p = q.p; const Impl &I = impl_of(q.impl); for (size_t bi = at_img; bi < batch.size(); bi++) { auto &b = batch[bi]; B_->len = bi; op_limit(5);

      Rel rel; rel.made = batch_made; rel.add(q, q.prev, 0, "an earlier invocation", true); std::string what = b.second.back().second; set_op("%s: %s", ctx.c_str(), what.c_str()); for (size_t i = 0; i + 1 < b.second.size(); i++) { std::string e = rel.add(q, b.second[i].first, q.pos, b.second[i].second); if (e.size()) viol("%s: %s; %s", ctx.c_str(), what.c_str(), e.c_str()); }
      const bytes &f = b.first; size_t o = 4 + p.pkb; if (f.size() < o + q.sk[0].size() || be(&f[0], 4) != p.oid || be(&f[o], 4) != p.oid) continue; Key k; k.I = &I; k.p = p; k.rp = repo_params(I, p); k.off = 4; k.sk.assign(f.begin() + o, f.begin() + o + q.sk[0].size()); k.pk = q.pk;
      int more = exe.empty() && q.p.th <= 5 && q.impl == 'f' ? (1 << q.p.th) + 3 : 3; for (int i = 0; i < more; i++) { uint64_t at = k.idx(); bytes m = msg_of(1 + i), sm; ull sl = 0; B_->n_pairs = 0; int rc = k.sign(m.data(), m.size(), sm, sl); rel.absorb(); if (rc) continue; std::string e = rel.add(q, sm, at, js("the later invocation %d", i + 1)); if (e.size()) viol("%s: %s; %s", ctx.c_str(), what.c_str(), e.c_str()); } } fflush(stdout); _exit(7); } int st; waitpid(c, &st, 0); if (WIFSIGNALED(st)) { at_img = B_->len + 1; ended++; continue; } parent_reports(st); break; }
    batch.clear(); batch_made.clear();
  }
  void lasting(const bytes &f, int done, const std::string &what) { // a completed update must have reached the disk
    in_child([&] { set_op("%s: %s", ctx.c_str(), what.c_str()); const P &p = q.p; size_t o = 4 + p.pkb; auto no = [&](const char *why) { viol("%s: %s; the update was completed, but the key file is not usable: %s", ctx.c_str(), what.c_str(), why); }; if (f.size() < o + q.sk[0].size() || !std::equal(q.pk.begin(), q.pk.end(), f.begin())) no("it is no key file with this public key"); const Impl &I = impl_of(q.impl); Key k; k.I = &I; k.p = p; k.rp = repo_params(I, p); k.off = 4; k.sk.assign(f.begin() + o, f.begin() + o + q.sk[0].size()); k.pk = q.pk;
      bytes m = msg_of(1), sm; ull sl = 0; int rc = k.sign(m.data(), m.size(), sm, sl); if ((rc != 0) != (bool)q.rc[done] || (!rc && sm != q.sm[done][1])) no("the next signature made with it is not the right one"); });
  }
  typedef std::vector<std::pair<bytes, std::string>> Outs;
  void crash_images(const std::vector<Snap> &h, const std::vector<Outs> &outs, const std::string &what, const std::set<std::string> &made, bool kill_too, int done = -1) { // done: at the end, so many invocations have completed their update, and none is left in the middle of one
    size_t from = 0;
    for (size_t t = from; t < h.size(); t++) {
      if (kill_too) { auto k = h[t].names.find("key"); if (k != h[t].names.end()) { kills++; add_image(h[t].data.at(k->second), outs[t], js("%s killed after %zu system calls", what.c_str(), t), made); } }
      // names: any state since the last synchronisation of the directory
      size_t ds = 0; for (size_t i = 0; i <= t; i++) if (h[i].dirsync) ds = i; std::set<uint64_t> inos; for (size_t i = ds; i <= t; i++) { auto k = h[i].names.find("key"); if (k != h[i].names.end()) inos.insert(k->second); }
      for (uint64_t ino : inos) { size_t ss = 0; bool any = false; for (size_t i = 0; i <= t; i++) { if (!any && h[i].data.count(ino)) { ss = i; any = true; } if (h[i].synced.count(ino)) ss = i; }
        std::vector<const bytes *> v; for (size_t i = ss; i <= t; i++) { auto d = h[i].data.find(ino); if (d != h[i].data.end() && (v.empty() || *v.back() != d->second)) v.push_back(&d->second); } if (v.empty()) continue;
        auto img = [&](const bytes &b, const char *how) { power++; if (done >= 0 && done < NJ && t + 1 == h.size() && b != keyfile(q, done)) lasting(b, done, js("%s, power lost after its end (%s)", what.c_str(), how)); add_image(b, outs[t], js("%s, power lost after %zu system calls (%s)", what.c_str(), t, how), made); };
        for (auto x : v) img(*x, "the file as at some point since it was last synchronised"); 
        for (size_t a = 0; a < v.size(); a++) for (size_t b = a + 1; b < v.size(); b++) for (int sz = 0; sz < 2; sz++) { const bytes &x = *v[a], &y = *v[b]; bytes base = sz ? y : x; if (sz && x.size() == y.size()) break; size_t ns = (base.size() + 511) / 512; std::vector<size_t> dirty; auto sec = [&](const bytes &f, size_t s) { bytes r; for (size_t i = s * 512; i < (s + 1) * 512 && i < base.size(); i++) r.push_back(i < f.size() ? f[i] : 0); return r; }; for (size_t s = 0; s < ns; s++) if (sec(x, s) != sec(y, s)) dirty.push_back(s);
          auto mix = [&](std::function<bool(size_t)> fromy, const char *how) { bytes r(base.size()); for (size_t s = 0; s < ns; s++) { bytes z = sec(x, s); r.resize(base.size()); std::copy(z.begin(), z.end(), r.begin() + s * 512); } for (size_t i = 0; i < dirty.size(); i++) if (fromy(i)) { bytes z = sec(y, dirty[i]); std::copy(z.begin(), z.end(), r.begin() + dirty[i] * 512); } img(r, how); };
          size_t nd = dirty.size(); if (nd <= 8) for (unsigned m = 0; m < (1u << nd); m++) mix([&](size_t i) { return m >> i & 1; }, js("sectors of its last update stored: mask %#x", m).c_str());
          else { for (size_t c = 0; c <= nd; c++) { mix([&](size_t i) { return i < c; }, js("first %zu changed sectors of its last update stored", c).c_str()); mix([&](size_t i) { return i >= c; }, js("changed sectors of its last update stored except the first %zu", c).c_str()); mix([&](size_t i) { return i == c; }, js("only changed sector %zu of its last update stored", c).c_str()); mix([&](size_t i) { return i != c; }, js("all changed sectors of its last update stored but %zu", c).c_str()); } for (unsigned m = 1; m < 255; m++) mix([&](size_t i) { return m >> (i * 8 / nd) & 1; }, js("eighths of its last update stored: mask %#x", m).c_str()); } }
      }
    }
  }
};
static void sync_marks(Proc &p, const Sys &s, Snap &n) { if (s.ret < 0) return; if (s.nr == SYS_sync || s.nr == SYS_syncfs) { for (auto &d : n.data) n.synced.insert(d.first); n.dirsync = true; } if (s.nr == SYS_fsync || s.nr == SYS_fdatasync || s.nr == SYS_msync) { char l[64]; snprintf(l, sizeof l, "/proc/%d/fd/%d", (int)p.pid, (int)s.a[0]); struct stat st; if (!stat(l, &st)) { if (S_ISDIR(st.st_mode)) n.dirsync = true; else n.synced.insert(st.st_ino); } } }
static uint64_t n_plans, n_states;
typedef std::vector<std::pair<int, Act>> Plan; // action at the n-th relevant system call
static std::string plan_str(const Plan &pl, const std::vector<Sys> &log) { std::string s; for (auto &x : pl) s += (s.empty() ? "" : ", ") + js("system call %d (%s) ", x.first, x.first < (int)log.size() ? sys_name(log[x.first].nr).c_str() : "?") + act_str(x.second); return s.empty() ? "an undisturbed invocation" : s; }
// ---- one invocation: all faults (up to `depth` of them), all crash points of each
static void faults(World &w, Plan &pl, int depth, int level, bool real_kill) {
  w.reset(); n_plans++; std::vector<Snap> h; std::vector<World::Outs> outs; Rel rel; rel.add(w.q, w.q.prev, 0, "an earlier invocation", true); B_->n_pairs = 0; bytes old = slurp(w.key()); Proc p; bool late = false; int k = 0; bool mal = false; Launch l = w.launch(0); if (pl.size() && pl[0].first < 0) { l.mal = pl[0].second.v; mal = true; }
  p.start(l, w.sc.d); Snap s0 = snapshot(w.sc.d + "/d"); for (auto &d : s0.data) s0.synced.insert(d.first); s0.dirsync = true; h.push_back(s0); outs.push_back({});
  while (!p.dead) { Act a; for (auto &x : pl) if (x.first == k) a = x.second; if (a.k != Act::PASS && (p.update_started || p.cur.mutates)) late = true; size_t ln = p.log.size(); p.exec(a); k++; if (p.log.size() == ln) { if (p.dead) break; continue; } Snap s = snapshot(w.sc.d + "/d"); if (!p.dead) sync_marks(p, p.log.back(), s); h.push_back(s); bytes o = slurp(l.out); outs.push_back({{o, "the interrupted invocation"}}); }
  rel.absorb(); bytes out = slurp(l.out), now = slurp(w.key()); std::vector<Sys> log = p.log; { int lr = -1, fm = -1; for (int i = 0; i < (int)log.size(); i++) { if (log[i].role == R_KEYDIR && (log[i].nr == SYS_read || log[i].nr == SYS_pread64 || log[i].nr == SYS_readv) && fm < 0) lr = i; if (log[i].mutates && fm < 0) fm = i; } if (fm >= 0) for (auto &x : pl) if (x.first > lr) late = true; } /* the update begins when the last read of the key is over */ bool killed = pl.size() && pl.back().second.k == Act::KILL; std::string what = mal ? js("allocation %ld fails", l.mal) + (pl.size() > 1 ? ", ..." : "") : plan_str(pl, log); n_states += h.size(); set_op("%s: %s", w.ctx.c_str(), what.c_str());
  std::string e = rel.add(w.q, out, w.q.pos, "the disturbed invocation"); if (e.size()) viol("%s: %s; %s", w.ctx.c_str(), what.c_str(), e.c_str());
  if (p.hang) viol("%s: %s; the invocation does not end", w.ctx.c_str(), what.c_str()); if (!killed && p.sig) viol("%s: %s; the invocation crashes (signal %d)", w.ctx.c_str(), what.c_str(), p.sig);
  if (!p.update_started && now != old) viol("%s: %s; the key file changed although no update was started", w.ctx.c_str(), what.c_str());
  if (!killed && p.code == 0 && (now != keyfile(w.q, 1) || out != w.q.sm[0][0])) viol("%s: %s; exit status 0, but %s", w.ctx.c_str(), what.c_str(), now != keyfile(w.q, 1) ? "the key file does not hold the advanced key" : "the signed message is not complete and correct");
  if (!killed && !late && now != old && now != keyfile(w.q, 1)) viol("%s: %s; nothing disturbed the update, but the key file is neither the old nor the advanced key", w.ctx.c_str(), what.c_str());
  if (pl.empty() && (p.code == 0) == (bool)w.q.rc[0]) viol("%s: %s; exit status %d", w.ctx.c_str(), what.c_str(), p.code);
  if (w.do_images) { w.crash_images(h, outs, what, rel.made, true, !killed && p.code == 0 ? 1 : -1); w.run_batch(); }
  w.follow(rel, killed || (int)pl.size() < 2 ? 2 : 1, what);
  if (killed || depth == 0) return; int from = pl.empty() ? 0 : pl.back().first + 1; if (from < 0) from = 0;
  for (int i = from; i < (int)log.size(); i++) { if (log[i].role == R_ERR && log[i].nr == SYS_write) { pl.push_back({i, {Act::ERR, EIO}}); faults(w, pl, 0, level, false); pl.pop_back(); continue; } for (auto &a : variants(log[i], level)) { pl.push_back({i, a}); faults(w, pl, depth - 1, level, false); pl.pop_back(); } if (real_kill) { pl.push_back({i, {Act::KILL, 0}}); faults(w, pl, 0, level, false); pl.pop_back(); } }
  if (pl.empty() && w.exe.empty()) for (int i = 1; i <= 4; i++) { pl.push_back({-1, {Act::PASS, i}}); faults(w, pl, 0, level, false); pl.pop_back(); }
}
// ---- several invocations at once: every interleaving with at most `depth` deviations (preemptions, kills, faults)
struct Dev { int step; int kind; Act a; }; // kind 0: switch to process a.v, 1: act on the running process
static void together(World &w, int np, std::vector<Dev> &pl, int first, int depth, bool acts, int level) {
  w.reset(); n_plans++; Rel rel; rel.add(w.q, w.q.prev, 0, "an earlier invocation", true); B_->n_pairs = 0; std::vector<Proc> p(np); std::vector<Launch> l; std::vector<bool> killed(np), touched(np); bytes old = slurp(w.key()); for (int i = 0; i < np; i++) { l.push_back(w.launch(i)); p[i].multi = true; spit(l[i].out, bytes()); }
  std::vector<Snap> h; std::vector<World::Outs> outs; Snap s0 = snapshot(w.sc.d + "/d"); for (auto &d : s0.data) s0.synced.insert(d.first); s0.dirsync = true; h.push_back(s0); outs.push_back({}); std::vector<std::pair<int, Sys>> trace; std::string sched = js("start process %d", first); for (int i = 0; i < np; i++) p[i].start(l[i], w.sc.d);
  int cur = first, step = 0; std::vector<std::vector<bool>> alive;
  for (;;) {
    for (auto &d : pl) if (d.step == step && d.kind == 0) { cur = d.a.v; sched += js(", step %d: switch to process %d", step, cur); }
    bool any = false; for (int i = 0; i < np; i++) any |= !p[i].dead; if (!any) break; while (p[cur].dead) cur = (cur + 1) % np;
    Act a; for (auto &d : pl) if (d.step == step && d.kind == 1) { a = d.a; sched += js(", step %d: %s of process %d: %s", step, sys_name(p[cur].cur.nr).c_str(), cur, act_str(a).c_str()); if (a.k == Act::KILL) killed[cur] = true; else touched[cur] = true; }
    std::vector<bool> al; for (int i = 0; i < np; i++) al.push_back(!p[i].dead); size_t ln = p[cur].log.size(); Sys pend = p[cur].cur; p[cur].exec(a); trace.push_back({cur, p[cur].log.size() > ln ? p[cur].log.back() : pend}); alive.push_back(al); step++;
    if (p[cur].blocked) { int o = cur, c = 0; do { o = (o + 1) % np; c++; } while (c < np && (p[o].dead || p[o].blocked)); if (p[o].dead || o == cur) { bool all = true; for (int i = 0; i < np; i++) all &= p[i].dead || p[i].blocked; if (all) { bool none = true; for (int i = 0; i < np && none; i++) if (!p[i].dead) { p[i].exec(Act()); if (!p[i].blocked) none = false; } if (none) viol("%s: %d invocations together, %s: all wait for each other", w.ctx.c_str(), np, sched.c_str()); } } cur = o; }
    else for (int i = 0; i < np; i++) p[i].blocked = false; // somebody made progress: waiting ones may try again
    Snap s = snapshot(w.sc.d + "/d"); if (trace.size() && !p[trace.back().first].dead) sync_marks(p[trace.back().first], trace.back().second, s); h.push_back(s); World::Outs oo; for (int i = 0; i < np; i++) oo.push_back({slurp(l[i].out), js("process %d", i)}); outs.push_back(oo); if (step > 4000) viol("%s: %d invocations together, %s: no end", w.ctx.c_str(), np, sched.c_str());
  }
  rel.absorb(); n_states += h.size(); set_op("%s: %d invocations together, %s", w.ctx.c_str(), np, sched.c_str()); int good = 0; bytes now = slurp(w.key()); bool clean = true; for (int i = 0; i < np; i++) clean &= !killed[i] && !touched[i];
  for (int i = 0; i < np; i++) { bytes o = slurp(l[i].out); std::string e = rel.add(w.q, o, w.q.pos, js("process %d", i)); if (e.size()) viol("%s: %d invocations together, %s; %s", w.ctx.c_str(), np, sched.c_str(), e.c_str()); if (!killed[i] && p[i].sig) viol("%s: %d invocations together, %s; process %d crashes (signal %d)", w.ctx.c_str(), np, sched.c_str(), i, p[i].sig); if (!killed[i] && p[i].code == 0) { good++; if (clean) { bool ok = false; for (int j = 0; j < NJ; j++) ok |= !w.q.rc[j] && o == w.q.sm[j][i]; if (!ok) viol("%s: %d invocations together, %s; process %d exits with 0 but its output is no right signature", w.ctx.c_str(), np, sched.c_str(), i); } } }
  if (clean && now != keyfile(w.q, good) && !w.q.rc[0] && w.q.pos + np < w.q.cap) viol("%s: %d invocations together, %s; %d of them succeeded, but the key file is not advanced by %d", w.ctx.c_str(), np, sched.c_str(), good, good);
  std::string what = js("%d invocations together, %s", np, sched.c_str()); if (w.do_images) { bool whole = true; for (int i = 0; i < np; i++) whole &= !killed[i] && (p[i].code == 0 || !p[i].update_started); w.crash_images(h, outs, what, rel.made, false, whole && good && !w.q.rc[0] ? good : -1); w.run_batch(); } w.follow(rel, 1, what);
  if (depth == 0 || (pl.size() && pl.back().a.k == Act::KILL && pl.back().kind == 1 && np < 3)) return; int from = pl.empty() ? 0 : pl.back().step + 1;
  for (int s = from; s < (int)trace.size(); s++) { int c = trace[s].first; if (s > 0 && trace[s - 1].first == c) for (int o = 0; o < np; o++) if (o != c && alive[s][o]) { pl.push_back({s, 0, {Act::PASS, o}}); together(w, np, pl, first, depth - 1, acts, level); pl.pop_back(); }
    if (acts) { pl.push_back({s, 1, {Act::KILL, 0}}); together(w, np, pl, first, depth - 1, acts, level); pl.pop_back(); for (auto &a : variants(trace[s].second, level)) { if (trace[s].second.role == R_ERR) continue; pl.push_back({s, 1, a}); together(w, np, pl, first, depth - 1, acts, level); pl.pop_back(); } } }
}
static void c17_run(const Args &a) { // F|I|R spec impl pos depth level [np first acts]
  P p = parse_spec(a[1]); char impl = a[2][0]; uint64_t pos = a[3][0] == '-' ? p.capacity() + strtoll(a[3].c_str(), 0, 10) : strtoull(a[3].c_str(), 0, 10); int depth = arg_u(a, 4), level = arg_u(a, 5); bool real = a[0] == "R" || a[0] == "RI"; op_limit(0);
  B_ = (Blob *)mmap(0, sizeof(Blob), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (real) { wots_mode = W_CONCRETE; if (access((real_dir() + tool_name(p, impl, "sign")).c_str(), X_OK)) { stat_add("skipped_jobs", 1); note("the Makefile's own tools were not built"); return; } } else { in_child([] { B_->len = abstract_ok(); }); if (B_->len) { wots_mode = W_ALEAF; o_stub = true; wsign_hook = log_pair; } else { wots_mode = W_CONCRETE; if (impl == 'n' && p.th > 5) { stat_add("skipped_jobs", 1); return; } } if (!tool_fn(tool_name(p, impl, "sign"))) { stat_add("skipped_jobs", 1); return; } }
  World w(p, impl, pos, real); w.ctx = js("%s on a key of %s at index %llu", w.tool.c_str(), p.name.c_str(), (ull)pos);
  if (a[0] == "F" || a[0] == "R") { Plan pl; faults(w, pl, depth, level, true); } else { std::vector<Dev> pl; w.do_images = !real && arg_u(a, 9, 1); together(w, arg_u(a, 6, 2), pl, arg_u(a, 7), depth, arg_u(a, 8), level); }
  stat_add("evaluations", n_plans); stat_add("distinct_nontrivial", n_plans > 0 ? n_plans - 1 : 0); stat_add("states_after_crash", w.images); stat_add("power_loss_cases", w.power); stat_add("kill_cases", w.kills); stat_add("torn_states_unusable", w.ended); stat_add("tool_runs", t_runs); stat_add("system_calls", t_sys); sample("%s: %llu histories, %llu distinct states after kill or power loss", w.ctx.c_str(), (ull)n_plans, (ull)w.images);
}
static Reg c17("C17", {[](bool th, Out out) {
  struct S { const char *sp; char t; const char *pos; }; std::vector<S> v = {{"x:1", 'n', "0"}, {"x:1", 'n', "255"}, {"x:1", 'n', "-1"}, {"m:2", 'n', "31"}, {"m:2", 'n', "65535"}, {"m:2", 'n', "-1"}, {"x:1", 'f', "0"}, {"x:1", 'f', "511"}, {"x:1", 'f', "-1"}, {"m:2", 'f', "0"}, {"m:2", 'f', "30"}, {"m:2", 'f', "31"}, {"m:2", 'f', "32"}, {"m:2", 'f', "1023"}, {"x:4", 'f', "3"}, {"m:34", 'f', "31"}, {"m:5", 'f', "31"}, {"m:5", 'f', "1023"}, {"x:13", 'n', "7"}};
  for (auto &s : v) { bool mt = s.sp[0] == 'm' && s.t == 'f'; out(mt ? 10 : 4, js("F %s %c %s %d %d", s.sp, s.t, s.pos, th ? 2 : 1, 1)); if (!mt || th) out(mt ? 60 : 20, js("F %s %c %s 2 %d", s.sp, s.t, s.pos, th ? 1 : 0)); for (int f = 0; f < 2; f++) { if (!strcmp(s.sp, "m:5")) continue; out(mt ? 30 : 8, js("I %s %c %s %d 0 2 %d 0 1", s.sp, s.t, s.pos, th ? 3 : 2, f)); bool pick = th || !strcmp(s.pos, "31") || (s.sp[0] == 'x' && (!strcmp(s.pos, "0") || !strcmp(s.pos, "511") || s.pos[0] == '-')); if (f == 0 && pick) out(mt ? 30 : 15, js("I %s %c %s %d 0 2 %d 1 %d", s.sp, s.t, s.pos, th || !mt ? 2 : 1, f, mt && !th ? 1 : 1)); } }
  for (auto &s : std::vector<S>{{"x:1", 'n', "9"}, {"m:2", 'n', "31"}, {"m:2", 'f', "31"}}) for (int f = 0; f < (th ? 3 : 1); f++) out(60, js("I %s %c %s %d 0 3 %d 0 0", s.sp, s.t, s.pos, th ? 3 : 2, f));
  for (auto &s : std::vector<S>{{"m:2", 'f', "31"}, {"m:2", 'n', "31"}, {"x:1", 'f', "5"}}) { out(20, js("R %s %c %s 1 %d", s.sp, s.t, s.pos, th)); out(20, js("RI %s %c %s %d 0 2 0 0", s.sp, s.t, s.pos, th ? 2 : 1)); }
}, c17_run});
