// P16 incremental evaluation, P17 agreement of evaluation paths.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/internal/evaluate_prg_hwy.h"
#include "dpf_plan.h"
#include "dpf_world.h"
#include "pir_world.h"

namespace sim {
namespace {
typedef std::unique_ptr<d::DistributedPointFunction> DpfPtr;

absl::StatusOr<Flat> Exec(const d::DistributedPointFunction& dpf, const Step& st, d::EvaluationContext& ctx) {
  switch (st.op) {
    case Step::kUntil: return st.type->Until(dpf, st.level, st.pts, ctx);
    case Step::kNext: return st.type->Next(dpf, st.pts, ctx);
    case Step::kAt: return st.type->AtCtx(dpf, st.level, st.pts, ctx);
  }
  return absl::InternalError("");
}
const char* OpName(const Step& st) {
  static const char* n[] = {"EvaluateUntil", "EvaluateNext", "EvaluateAt"};
  return n[st.op];
}

struct Party {
  int id;
  Node* node;
  DpfPtr dpf;
  d::EvaluationContext live;
  std::map<int, std::string> saved;  // next step -> stored context
  std::vector<Flat> results;         // by step
  std::vector<bool> have;
};
}  // namespace

SCENARIO(P16, checkpoints, 10) {
  auto st = std::make_shared<Stream>(16);
  DpfOpts o;
  auto setup = std::make_shared<DpfSetup>(DrawDpfSetup(o));
  Node* dealer = NewNode("dealer");
  dealer->simd = Draw(SimdTargets());
  auto pair = std::make_shared<DpfPair>();
  {
    NodeScope ns(dealer);
    int fault = Chance(1, 3) ? 2 : 0;
    auto dpf = OpenDpf(*setup, true, fault);
    *pair = DealDpf(*setup, dpf.get(), *st, fault);
  }
  Log("levels %s alpha %s", setup->Describe().c_str(), Show(pair->alpha).c_str());
  Planner pl(*setup, *pair, st.get());
  pl.Run();
  auto plan = std::make_shared<std::vector<Step>>(pl.plan);
  auto parties = std::make_shared<std::vector<Party>>(2);
  unsigned crash = Draw(4), faults = Draw(3);
  for (int i = 0; i < 2; i++) {
    Party& p = (*parties)[i];
    p.id = i;
    p.node = NewNode(i ? "party1" : "party0");
    p.node->simd = Draw(SimdTargets());
    p.results.resize(plan->size());
    p.have.resize(plan->size());
    Spawn(p.node->name, p.node, [=] {
      Party& p = (*parties)[i];
      auto open = [&](int next) {
        p.dpf = OpenDpf(*setup);
        auto it = p.saved.find(next);
        SIM_ASSERT(it != p.saved.end());
        d::EvaluationContext c;
        SIM_ASSERT(c.ParseFromString(it->second));
        p.live = std::move(c);
      };
      {
        auto dpf = OpenDpf(*setup);
        auto ctx = dpf->CreateEvaluationContext(LoadKey(pair->key[p.id]));
        if (!ctx.ok()) Violate("dpf-context", "context for a valid key refused: %s", StatusStr(ctx.status()).c_str());
        p.saved[0] = ctx->SerializeAsString();
      }
      open(0);
      int restarts = 0;
      for (int k = 0; k < (int)plan->size(); k++) {
        Span sp;
        Yield();
        if (crash && restarts < 6 && Chance(crash, 10)) {  // lose everything in memory, reload some stored context
          Count("fault:crash-restart");
          NonTrivial();
          restarts++;
          p.node->simd = Draw(SimdTargets());
          ApplySimd();
          int back = Draw(p.saved.size());
          auto it = p.saved.rbegin();
          std::advance(it, back);
          if (back) Count("fault:stale-checkpoint");
          k = it->first;
          open(k);
          Log("party%d restarts at step %d", p.id, k);
          if (k >= (int)plan->size()) break;
        }
        const Step& s = (*plan)[k];
        if (s.illegal) {
          d::EvaluationContext copy = p.live;
          auto r = Exec(*p.dpf, s, copy);
          Log("party%d step %d illegal %s level %d (%s): %s", p.id, k, OpName(s), s.level, s.why, r.ok() ? "ok" : StatusStr(r.status()).c_str());
          NonTrivial();
          Count("fault:illegal-step");
          if (r.ok()) Violate("dpf-illegal-accepted", "%s at level %d was accepted: %s (levels %s)", OpName(s), s.level, s.why, setup->Describe().c_str());
          if (r.status().code() != absl::StatusCode::kInvalidArgument)
            Violate("dpf-illegal-status", "%s (%s) failed with %s instead of INVALID_ARGUMENT", OpName(s), s.why, r.status().ToString().c_str());
          if (Chance(1, 8)) p.saved[k + 1] = p.live.SerializeAsString();
          continue;
        }
        std::string before = p.live.SerializeAsString();
        absl::StatusOr<Flat> r = absl::InternalError("");
        for (int attempt = 0;; attempt++) {
          CallFault af(p.node, faults && attempt < 3 && Chance(faults, 8));
          r = Exec(*p.dpf, s, p.live);
          if (r.ok()) break;
          if (!af.fired())
            Violate("dpf-refused", "%s at level %d with %zu points refused at step %d (levels %s): %s", OpName(s), s.level, s.pts.size(), k,
                    setup->Describe().c_str(), r.status().ToString().c_str());
          af.Check(r.status(), "call");
          NonTrivial();
          Log("party%d step %d: out of memory, retry", p.id, k);
          SIM_ASSERT(p.live.ParseFromString(before));
        }
        size_t want = s.outs.size() * s.type->leaves.size();
        if (r->size() != want) Violate("dpf-size", "%s returned %zu values instead of %zu", OpName(s), r->size() / s.type->leaves.size(), s.outs.size());
        Log("party%d step %d %s level %d points %zu", p.id, k, OpName(s), s.level, s.pts.size());
        State(Mix(Mix(s.op, s.level), Mix(s.pts.size() > 64, setup->levels())));
        if (p.have[k] && p.results[k] != *r) Violate("dpf-replay", "step %d gives other results after a restart (levels %s)", k, setup->Describe().c_str());
        p.have[k] = true;
        p.results[k] = *r;
        if (Chance(1, 2)) p.saved[k + 1] = p.live.SerializeAsString();
        if (Chance(1, 4)) SIM_ASSERT(p.live.ParseFromString(p.live.SerializeAsString()));
      }
    });
  }
  RunAll();
  for (size_t k = 0; k < plan->size(); k++) {
    const Step& s = (*plan)[k];
    if (s.illegal) continue;
    size_t nl = s.type->leaves.size();
    for (size_t i = 0; i < s.outs.size(); i++) {
      Flat sum = AddLeaves(*s.type, Slice((*parties)[0].results[k], i, nl), Slice((*parties)[1].results[k], i, nl));
      Flat want = DpfExpect(*setup, *pair, s.level, s.outs[i]);
      if (sum != want)
        Violate("dpf-sum", "step %zu: %s at level %d (levels %s): shares at %s add up to %s instead of %s (alpha %s)", k, OpName(s), s.level,
                setup->Describe().c_str(), Show(s.outs[i]).c_str(), ShowFlat(sum).c_str(), ShowFlat(want).c_str(), Show(pair->alpha).c_str());
    }
  }
}

// ------------------------------------------------------------------- P17
namespace {
struct PathWorld {
  DpfSetup s;
  std::vector<DpfPair> pairs;
  const DpfType* t;
  struct Machine {
    Node* node;
    DpfPtr dpf;
  };
  std::vector<Machine> machines;
  std::map<std::tuple<int, int, U128>, Flat> share[2];  // (pair, level, point)
  unsigned faults;

  void Record(int pair, int party, int level, U128 x, const Flat& v, const char* path) {
    auto key = std::make_tuple(pair, level, x);
    auto it = share[party].emplace(key, v);
    if (!it.second) {
      if (it.first->second != v)
        Violate("dpf-paths", "%s gives %s at %s on level %d (levels %s, party %d) where an earlier evaluation gave %s", path, ShowFlat(v).c_str(),
                Show(x).c_str(), level, s.Describe().c_str(), party, ShowFlat(it.first->second).c_str());
    }
    auto other = share[1 - party].find(key);
    if (other == share[1 - party].end()) return;
    Flat sum = AddLeaves(*t, v, other->second), want = DpfExpect(s, pairs[pair], level, x);
    if (sum != want)
      Violate("dpf-sum", "%s: shares at %s on level %d (levels %s) add up to %s instead of %s (alpha %s)", path, Show(x).c_str(), level,
              s.Describe().c_str(), ShowFlat(sum).c_str(), ShowFlat(want).c_str(), Show(pairs[pair].alpha).c_str());
  }
  // Runs a call until it succeeds, perhaps failing allocations on the way.
  absl::Status Attempt(Node* n, const std::function<absl::Status()>& call) {
    for (int attempt = 0;; attempt++) {
      CallFault af(n, faults && attempt < 3 && Chance(faults, 6));
      absl::Status r = call();
      if (r.ok() || !af.fired()) return r;
      af.Check(r, "call");
      NonTrivial();
      Yield();
    }
  }
};

void PathOp(PathWorld* w, Stream& st) {
  auto& m = w->machines[Draw(w->machines.size())];
  NodeScope ns(m.node);
  int n = w->s.levels();
  size_t nl = w->t->leaves.size();
  int pi = Draw(w->pairs.size()), party = Draw(2), level = Draw(n);
  const DpfPair& pair = w->pairs[pi];
  int log = w->s.logs[level];
  U128 hot = Shr(pair.alpha, w->s.logs.back() - log);
  int path = Draw(6);
  if (Chance(1, 15)) {  // the process restarts on a lesser or better machine
    Count("fault:crash-restart");
    NonTrivial();
    m.node->simd = Draw(SimdTargets());
    ApplySimd();
    m.dpf = OpenDpf(w->s, false, w->faults ? 3 : 0);
  }
  auto expect_refusal = [&](const absl::Status& s, const char* what) {
    NonTrivial();
    Count("fault:bad-argument");
    if (s.code() != absl::StatusCode::kInvalidArgument) Violate("dpf-bad-argument", "%s: got %s instead of INVALID_ARGUMENT (levels %s)", what, s.ToString().c_str(), w->s.Describe().c_str());
  };
  auto fail = [&](const char* what, const absl::Status& s) {
    Violate("dpf-refused", "%s refused on level %d (levels %s): %s", what, level, w->s.Describe().c_str(), s.ToString().c_str());
  };
  if (path == 0 && log <= 11) {  // the whole domain
    absl::StatusOr<Flat> r = absl::InternalError("");
    absl::Status s = w->Attempt(m.node, [&] {
      auto ctx = m.dpf->CreateEvaluationContext(LoadKey(pair.key[party]));
      if (!ctx.ok()) return ctx.status();
      r = w->t->Until(*m.dpf, level, {}, *ctx);
      return r.status();
    });
    Log("full level %d pair %d party %d simd %d: %s", level, pi, party, m.node->simd, StatusStr(s).c_str());
    if (!s.ok()) fail("EvaluateUntil", s);
    if (r->size() != nl << log) Violate("dpf-size", "full evaluation of 2^%d returned %zu values", log, r->size() / nl);
    for (uint64_t x = 0; x < uint64_t(1) << log; x++) w->Record(pi, party, level, x, Slice(*r, x, nl), "full evaluation");
    State(Mix(Mix(1, log), m.node->simd));
  } else if (path <= 2) {  // one key at points, with and without a context
    bool ctx_path = path == 1;
    int k = DrawCount(Chance(1, 12) ? 1600 : 200);
    // The harness's copy of the points may be unaligned.
    std::vector<U128> pts;
    for (int i = 0; i < k; i++) pts.push_back(DrawPoint(st, log, hot));
    absl::StatusOr<Flat> r = absl::InternalError("");
    if (log < 128 && Chance(1, 12)) {
      pts.insert(pts.begin() + st.Below(k + 1), BeyondDomain(st, log, hot));
      expect_refusal(w->t->At(*m.dpf, LoadKey(pair.key[party]), level, pts).status(), "EvaluateAt outside the domain");
      return;
    }
    if (Chance(1, 20)) {
      expect_refusal(w->t->At(*m.dpf, LoadKey(pair.key[party]), Chance(1, 2) ? n : -1, pts).status(), "EvaluateAt at a level out of range");
      return;
    }
    absl::Status s = w->Attempt(m.node, [&] {
      d::DpfKey key = LoadKey(pair.key[party]);
      if (ctx_path) {
        auto ctx = m.dpf->CreateEvaluationContext(key);
        if (!ctx.ok()) return ctx.status();
        r = w->t->AtCtx(*m.dpf, level, pts, *ctx);
      } else {
        r = w->t->At(*m.dpf, key, level, pts);
      }
      return r.status();
    });
    Log("at level %d pair %d party %d points %d simd %d: %s", level, pi, party, k, m.node->simd, StatusStr(s).c_str());
    if (!s.ok()) fail("EvaluateAt", s);
    if (r->size() != pts.size() * nl) Violate("dpf-size", "EvaluateAt returned %zu values for %zu points", r->size() / nl, pts.size());
    for (size_t i = 0; i < pts.size(); i++) w->Record(pi, party, level, pts[i], Slice(*r, i, nl), ctx_path ? "EvaluateAt(ctx)" : "EvaluateAt");
    State(Mix(Mix(2, log), Mix(k, m.node->simd)));
  } else {  // a batch of keys, each at its own point, on all levels
    int k = DrawCount(Chance(1, 12) ? 1600 : 300);
    int top = w->s.logs.back();
    int shift = top < 128 && Chance(1, 3) ? Draw(std::min(128 - top, 20) + 1) : 0;
    std::vector<d::DpfKey> parsed[2];
    for (auto& p : w->pairs)
      for (int b = 0; b < 2; b++) parsed[b].push_back(LoadKey(p.key[b]));
    std::vector<const d::DpfKey*> keys;
    std::vector<std::pair<int, int>> who;
    std::vector<U128> pts;
    for (int i = 0; i < k; i++) {
      int q = st.Below(w->pairs.size()), b = st.Below(2);
      who.emplace_back(q, b);
      keys.push_back(&parsed[b][q]);
      U128 x = DrawPoint(st, top, w->pairs[q].alpha);
      pts.push_back(Shl(x, shift) | (shift ? Rand128(st, shift) : U128(0)));
    }
    bool ptrs = Chance(1, 2);
    if (Chance(1, 12)) {
      auto nop = [](const Flat&) { return true; };
      if (top + shift < 128 && k && Chance(1, 2)) {
        {
          U128& x = pts[st.Below(k)];
          x = BeyondDomain(st, top + shift, x);
        }
        expect_refusal(w->t->Apply(*m.dpf, keys, ptrs, pts, nop, shift), "EvaluateAndApply outside the domain");
      } else {
        pts.push_back(0);
        expect_refusal(w->t->Apply(*m.dpf, keys, ptrs, pts, nop, shift), "EvaluateAndApply with one point too many");
      }
      return;
    }
    int stop = Chance(1, 5) ? Draw(n) : n;  // the callback gives up after this level
    std::vector<Flat> got;
    bool stopped = false;
    absl::Status s = w->Attempt(m.node, [&] {
      got.clear();
      stopped = false;
      return w->t->Apply(*m.dpf, keys, ptrs, pts, [&](const Flat& f) {
        if (stopped) Violate("dpf-apply-stop", "the callback was called again after it returned false");
        got.push_back(f);
        if ((int)got.size() == stop + 1) stopped = true;
        return !stopped;
      }, shift);
    });
    Log("apply keys %d shift %d stop %d simd %d: %s", k, shift, stop, m.node->simd, StatusStr(s).c_str());
    if (!s.ok()) fail("EvaluateAndApply", s);
    if (k && (int)got.size() != std::min(n, stop + 1)) Violate("dpf-apply-levels", "the callback was called %zu times for %d levels", got.size(), n);
    for (int l = 0; l < (int)got.size(); l++) {
      if (got[l].size() != k * nl) Violate("dpf-size", "EvaluateAndApply passed %zu values for %d keys", got[l].size() / nl, k);
      for (int i = 0; i < k; i++)
        w->Record(who[i].first, who[i].second, l, Shr(pts[i], shift + top - w->s.logs[l]), Slice(got[l], i, nl), "EvaluateAndApply");
    }
    State(Mix(Mix(3, top), Mix(k, m.node->simd)));
  }
}
}  // namespace

// The seed expansion underneath all paths, on machines with and without SIMD, for
// buffers SIMD can and cannot use directly.
SCENARIO(P17, expansion, 1) {
  namespace di = d::dpf_internal;
  auto st = std::make_shared<Stream>(170);
  NonTrivial();
  auto h0 = d::Aes128FixedKeyHash::Create(Rand128(*st, 128)), h1 = d::Aes128FixedKeyHash::Create(Rand128(*st, 128));
  SIM_ASSERT(h0.ok() && h1.ok());
  int n = Chance(1, 6) ? Draw(1500) : DrawCount(300), levels = Draw(4) ? Draw(8) : Draw(129);
  bool per_seed = Chance(1, 2);
  int cws = per_seed ? n * levels : levels, shift = Chance(1, 3) ? Draw(140) : 0;
  std::vector<U128> seeds(n), paths(n), cs(cws);
  std::string controls = st->Bytes(n), cl = st->Bytes(cws), cr = st->Bytes(cws);
  for (auto& v : seeds) v = Rand128(*st, 128);
  for (auto& v : paths) v = Rand128(*st, 128);
  for (auto& v : cs) v = Rand128(*st, 128);
  for (std::string* b : {&controls, &cl, &cr})
    for (char& c : *b) c &= 1;
  // The definition, one seed at a time.
  std::vector<U128> want(n);
  std::string want_control(n, 0);
  for (int i = 0; i < n; i++) {
    U128 v = seeds[i];
    bool c = controls[i];
    for (int l = 0; l < levels; l++) {
      int bit = levels - l - 1 + shift;
      bool right = bit < 128 && (Shr(paths[i], bit) & 1) != 0;
      int k = cws > levels ? l * n + i : l;
      U128 o;
      SIM_ASSERT((right ? *h1 : *h0).Evaluate(absl::MakeConstSpan(&v, 1), absl::MakeSpan(&o, 1)).ok());
      if (c) o ^= cs[k];
      bool nc = (o & 1) != 0;
      o &= ~U128(1);
      if (c) nc ^= right ? cr[k] : cl[k];
      v = o;
      c = nc;
    }
    want[i] = v;
    want_control[i] = c;
  }
  int machines = 2 + Draw(3);
  for (int m = 0; m < machines; m++) {
    Node* node = NewNode("machine");
    node->simd = Draw(SimdTargets());
    NodeScope ns(node);
    bool nohwy = Chance(1, 3), in_place = Chance(1, 4);
    // SIMD only takes buffers aligned for it.
    std::vector<U128> hold[8];
    int held = 0;
    unsigned off = Draw(4) == 3 ? Draw(16) : 0;
    auto place = [&](const std::vector<U128>& v) {
      auto& h = hold[held];
      h.resize(v.size() + 17);
      U128* q = (U128*)(((uintptr_t)h.data() + 127) & ~uintptr_t(127)) + (off >> held++ & 1);
      std::copy(v.begin(), v.end(), q);
      return q;
    };
    U128 *in = place(seeds), *path = place(paths), *cw = place(cs), *out = in_place ? in : place(std::vector<U128>(n));
    std::string oc = in_place ? controls : std::string(n, 2);
    auto* f = nohwy ? &di::EvaluateSeedsNoHwy : &di::EvaluateSeeds;
    auto b = [](std::string& x) { return (bool*)x.data(); };
    absl::Status s = f(n, levels, cws, in, in_place ? b(oc) : b(controls), path, shift, cw, b(cl), b(cr), *h0, *h1, out, b(oc));
    Log("machine simd %d%s: %d seeds %d levels %d correction words shift %d: %s", node->simd, nohwy ? " (no SIMD)" : "", n, levels, cws, shift, StatusStr(s).c_str());
    if (!s.ok()) Violate("expand-refused", "%s", s.ToString().c_str());
    // Correction words that fit neither all seeds nor each of them.
    int bad = Chance(1, 4) && !nohwy ? Draw(cws + 1) : -1;
    if (bad >= 0 && bad != levels && (int64_t)bad != (int64_t)n * levels) {
      Count("fault:bad-argument");
      std::vector<U128> trash(n + 1);
      std::string tc(n + 1, 0);
      absl::Status bs = f(n, levels, bad, place(seeds), b(controls), place(paths), shift, cw, b(cl), b(cr), *h0, *h1, trash.data(), b(tc));
      if (bs.code() != absl::StatusCode::kInvalidArgument) Violate("expand-bad-count", "%d correction words for %d seeds over %d levels: %s", bad, n, levels, StatusStr(bs).c_str());
    }
    if (levels == 0 && !in_place) continue;  // nothing to expand: the output is not specified
      for (int i = 0; i < n; i++)
        if (out[i] != want[i] || oc[i] != want_control[i])
          Violate("expand-value", "seed %d of %d over %d levels (%d correction words, shift %d, simd %d%s) expands to %s/%d instead of %s/%d", i, n, levels, cws, shift, node->simd, nohwy ? ", no SIMD" : "",
                  Show(out[i]).c_str(), oc[i], Show(want[i]).c_str(), want_control[i]);
    State(Mix(Mix(n > 64, levels), Mix(per_seed, node->simd)));
  }
}

SCENARIO(P17, paths, 10) {
  auto st = std::make_shared<Stream>(17);
  auto w = std::make_shared<PathWorld>();
  DpfOpts o;
  o.same_type = true;
  o.max_levels = 4;
  if (Chance(1, 2)) o.max_log = 12;
  w->s = DrawDpfSetup(o);
  w->t = w->s.types[0];
  w->faults = Draw(3);
  Node* dealer = NewNode("dealer");
  dealer->simd = Draw(SimdTargets());
  int np = 1 + Draw(3);
  {
    NodeScope ns(dealer);
    int fault = w->faults ? 3 : 0;
    auto dpf = OpenDpf(w->s, true, fault);
    for (int i = 0; i < np; i++) w->pairs.push_back(DealDpf(w->s, dpf.get(), *st, fault));
  }
  Log("levels %s", w->s.Describe().c_str());
  int nm = 1 + Draw(4);
  if (nm > 1) NonTrivial();
  for (int i = 0; i < nm; i++) {
    Node* n = NewNode("machine");
    n->simd = Draw(SimdTargets());
    NodeScope ns(n);
    w->machines.push_back({n, OpenDpf(w->s)});
  }
  int tasks = 1 + Draw(3);
  for (int t = 0; t < tasks; t++) {
    int ops = 1 + Draw(10);
    Spawn("worker", dealer, [=] {
      for (int i = 0; i < ops; i++) {
        Span sp;
        PathOp(w.get(), *st);
        Yield();
      }
    });
  }
  RunAll();
}
}  // namespace sim
