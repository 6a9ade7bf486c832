// P30 work, keys and checkpoints stay proportional to what is asked.
//
// The simulated machines meter every AES block computed for a call: blocks
// hashed through the AES provider and tree nodes walked by the vectorised
// evaluator.  Oracle: the cost of the textbook evaluation from what the saved
// context already holds.
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dpf_plan.h"
#include "dpf_world.h"
#include "pir_world.h"
#include "ref_release.h"

namespace sim {
namespace {
namespace g = d::fss_gates;

struct Meter {
  explicit Meter(Node* n) : n(n), start(n->aes_blocks) {}
  uint64_t Read() const { return n->aes_blocks - start; }
  Node* n;
  uint64_t start;
};
// A quarter more than needed, and a little for rounding to whole vectors.
void CheckWork(uint64_t used, uint64_t need, const std::string& what) {
  Count("probe:metered");
  if (used > need + need / 4 + 64)
    Violate("cost-work", "%s computed %llu AES blocks where %llu do", what.c_str(), (unsigned long long)used, (unsigned long long)need);
}
// Nodes of a full expansion by `levels` below `roots`, two blocks per parent.
uint64_t Expand(uint64_t roots, int levels) { return roots * 2 * ((uint64_t(1) << levels) - 1); }

void CheckSize(const d::DpfKey& k, const DpfSetup& s, const ref::Fss& f) {
  int words = f.tree(s.levels() - 1), values = 0, need = 0;
  if (k.correction_words_size() > words) Violate("cost-key", "%d correction words for a tree of %d levels (%s)", k.correction_words_size(), words, s.Describe().c_str());
  for (auto& w : k.correction_words()) values += w.value_correction_size();
  values += k.last_level_value_correction_size();
  uint64_t bytes = 64 + 40 * words;
  for (int l = 0; l < s.levels(); l++) {
    need += f.per_block(l);
    bytes += f.per_block(l) * (16 + 32 * s.types[l]->leaves.size());
  }
  if (values > need) Violate("cost-key", "%d value corrections instead of %d (%s)", values, need, s.Describe().c_str());
  if (k.ByteSizeLong() > bytes) Violate("cost-key", "a key of %zu bytes (%s)", k.ByteSizeLong(), s.Describe().c_str());
}
}  // namespace

SCENARIO(P30, checkpoints, 5) {
  Stream st(30);
  DpfOpts o;
  DpfSetup s = DrawDpfSetup(o);
  ref::Fss f(s.params);
  Node* dealer = NewNode("dealer");
  DpfPair pair;
  {
    NodeScope ns(dealer);
    auto dpf = OpenDpf(s, true);
    Meter m(dealer);
    pair = DealDpf(s, dpf.get(), st);
    uint64_t need = 4 * f.tree(s.levels() - 1);
    for (int l = 0; l < s.levels(); l++) need += 2 * f.blocks(l);
    CheckWork(m.Read(), need, "dealing");
  }
  d::DpfKey keys[2] = {LoadKey(pair.key[0]), LoadKey(pair.key[1])};
  for (auto& k : keys) CheckSize(k, s, f);
  Planner pl(s, pair, &st);
  pl.Run();
  const std::vector<Step>& plan = pl.plan;
  int b = Draw(2);
  Node* n = NewNode("party");
  n->simd = Draw(SimdTargets());
  NodeScope ns(n);
  auto dpf = OpenDpf(s);
  struct Saved {
    std::string ctx;
    int prev = -1, at = -1;  // last level, and the level evaluations are saved for
    uint64_t parts = 0;
  };
  std::map<int, Saved> disk;
  Saved now;
  {
    auto c = dpf->CreateEvaluationContext(keys[b]);
    if (!c.ok()) Violate("dpf-context", "context for a valid key refused: %s", StatusStr(c.status()).c_str());
    now.ctx = c->SerializeAsString();
  }
  disk[0] = now;
  size_t fixed = 64 + keys[b].ByteSizeLong();
  for (auto& p : s.params) fixed += p.ByteSizeLong() + 16;
  int restarts = 0, faults = Draw(3);
  for (int k = 0; k < (int)plan.size(); k++) {
    Span sp;
    if (restarts < 4 && Chance(1, 8)) {
      Count("fault:crash-restart");
      NonTrivial();
      restarts++;
      auto it = disk.begin();
      std::advance(it, Draw(disk.size()));
      k = it->first, now = it->second;
      n->simd = Draw(SimdTargets());
      ApplySimd();
      dpf = OpenDpf(s);
      if (k >= (int)plan.size()) break;
    }
    const Step& q = plan[k];
    if (q.illegal) continue;
    uint64_t need = 0;
    int tree = f.tree(q.level), from = now.parts ? f.tree(now.at) : 0;
    Saved next = now;
    next.prev = q.level;
    if (q.op == Step::kAt) {
      if (q.pts.empty()) next = now;
      if (from > tree) from = 0;
      need = q.pts.size() * (tree - from + f.blocks(q.level));
      if (q.pts.size()) next.at = q.level, next.parts = q.pts.size();
    } else if (now.prev < 0) {
      need = Expand(1, tree) + (uint64_t(1) << tree) * f.blocks(q.level);
    } else {
      int ptree = f.tree(now.prev);
      std::set<U128> roots;
      for (U128 p : q.pts) roots.insert(Shr(p, s.logs[now.prev] - ptree));
      need = roots.size() * (ptree - from) + Expand(roots.size(), tree - ptree) + (roots.size() << (tree - ptree)) * f.blocks(q.level);
      next.at = now.prev;
      next.parts = q.level == s.levels() - 1 ? 0 : roots.size();  // nothing left to continue
    }
    d::EvaluationContext c;
    SIM_ASSERT(c.ParseFromString(now.ctx));
    for (int attempt = 0;; attempt++) {
      d::EvaluationContext copy = c;
      CallFault cf(n, faults && attempt < 2 && Chance(faults, 8));
      Meter m(n);
      absl::Status r = q.op == Step::kUntil ? q.type->Until(*dpf, q.level, q.pts, copy).status()
                       : q.op == Step::kNext ? q.type->Next(*dpf, q.pts, copy).status()
                                             : q.type->AtCtx(*dpf, q.level, q.pts, copy).status();
      std::string what = "step " + std::to_string(k) + " (level " + std::to_string(q.level) + ", " + std::to_string(q.pts.size()) + " points, saved " +
                         std::to_string(now.parts) + " at level " + std::to_string(now.at) + ") of " + s.Describe();
      Log("%s: %llu of %llu %s", what.c_str(), (unsigned long long)m.Read(), (unsigned long long)need, StatusStr(r).c_str());
      CheckWork(m.Read(), need, what);
      if (r.ok()) {
        next.ctx = copy.SerializeAsString();
        break;
      }
      if (!cf.fired()) Violate("dpf-refused", "%s refused: %s", what.c_str(), StatusStr(r).c_str());
      NonTrivial();
    }
    if (next.ctx.size() > fixed + 64 * next.parts)
      Violate("cost-context", "after step %d a context for %llu prefixes and a key of %zu bytes has %zu bytes (%s)", k, (unsigned long long)next.parts, keys[b].ByteSizeLong(),
              next.ctx.size(), s.Describe().c_str());
    now = next;
    if (Chance(2, 3)) disk[k + 1] = now;
    NonTrivial();
    State(Mix(Mix(q.op, now.parts), tree - from));
  }
}

SCENARIO(P30, points, 3) {
  Stream st(301);
  NonTrivial();
  DpfOpts o;
  o.same_type = Chance(1, 2);
  DpfSetup s = DrawDpfSetup(o);
  ref::Fss f(s.params);
  Node* n = NewNode("party");
  n->simd = Draw(SimdTargets());
  NodeScope ns(n);
  auto dpf = OpenDpf(s, true);
  std::vector<d::DpfKey> keys;
  std::vector<U128> alphas;
  for (int k = 1 + Draw(2); k > 0; k--) {
    DpfPair p = DealDpf(s, dpf.get(), st);
    for (auto& b : p.key) keys.push_back(LoadKey(b)), alphas.push_back(p.alpha);
  }
  for (int k = 1 + Draw(4); k > 0; k--) {
    Span sp;
    if (Chance(1, 3)) {
      n->simd = Draw(SimdTargets());
      ApplySimd();
    }
    int count = DrawCount(200);
    if (Chance(1, 2)) {
      int level = Draw(s.levels());
      std::vector<U128> pts;
      int who = Draw(keys.size());
      for (int i = 0; i < count; i++) pts.push_back(DrawPoint(st, s.logs[level], Shr(alphas[who], s.logs.back() - s.logs[level])));
      Meter m(n);
      auto r = s.types[level]->At(*dpf, keys[who], level, pts);
      if (!r.ok()) Violate("dpf-refused", "EvaluateAt refused: %s", StatusStr(r.status()).c_str());
      CheckWork(m.Read(), uint64_t(count) * (f.tree(level) + f.blocks(level)), "EvaluateAt of " + std::to_string(count) + " points at level " + std::to_string(level) + " of " + s.Describe());
    } else if (o.same_type) {
      std::vector<const d::DpfKey*> batch;
      std::vector<U128> pts;
      for (int i = 0; i < count; i++) {
        int who = st.Below(keys.size());
        batch.push_back(&keys[who]);
        pts.push_back(DrawPoint(st, s.logs.back(), alphas[who]));
      }
      int stop = Draw(s.levels()), level = 0;
      Meter m(n);
      auto r = s.types[0]->Apply(*dpf, batch, Chance(1, 2), pts, [&](const Flat&) { return level++ < stop; }, 0);
      if (!r.ok()) Violate("dpf-refused", "EvaluateAndApply refused: %s", StatusStr(r).c_str());
      uint64_t need = f.tree(stop);
      for (int l = 0; l <= stop; l++) need += f.blocks(l);
      CheckWork(m.Read(), count * need, "EvaluateAndApply of " + std::to_string(count) + " keys up to level " + std::to_string(stop) + " of " + s.Describe());
      if (count && level != stop + 1) Violate("cost-calls", "EvaluateAndApply called back %d times instead of %d", level, stop + 1);
    }
    State(Mix(count, f.tree(s.levels() - 1)));
  }
}

SCENARIO(P30, comparisons, 3) {
  Stream st(302);
  NonTrivial();
  Node* n = NewNode("machine");
  n->simd = Draw(SimdTargets());
  NodeScope ns(n);
  bool gate = Chance(1, 2);
  const DpfType* t = Types()[Draw(Types().size())];
  if (gate)
    for (auto* x : Types())
      if (x->vt.has_integer() && x->vt.integer().bitsize() == 128) t = x;
  int log = 1 + Draw(gate ? 127 : std::min(t->max_domain, 128));
  // Textbook: one level of the tree and one value per input bit.
  std::vector<d::DpfParameters> levels;
  for (int i = 0; i < log; i++) {
    levels.emplace_back();
    levels.back().set_log_domain_size(i);
    *levels.back().mutable_value_type() = t->vt;
  }
  ref::Fss f(levels);
  uint64_t one = f.tree(log - 1), deal = 4 * f.tree(log - 1);
  for (int i = 0; i < log; i++) one += f.blocks(i), deal += 2 * f.blocks(i);
  std::string of = " of " + std::to_string(log) + " bits, " + t->name;
  auto size = [&](const d::DpfKey& k) {
    int values = k.last_level_value_correction_size(), need = 0;
    for (auto& w : k.correction_words()) values += w.value_correction_size();
    for (int i = 0; i < log; i++) need += f.per_block(i);
    if (k.correction_words_size() > f.tree(log - 1) || values > need)
      Violate("cost-key", "%d correction words and %d values instead of %d and %d%s", k.correction_words_size(), values, f.tree(log - 1), need, of.c_str());
  };
  if (!gate) {
    d::DcfParameters p;
    p.mutable_parameters()->set_log_domain_size(log);
    *p.mutable_parameters()->mutable_value_type() = t->vt;
    auto dcf = d::DistributedComparisonFunction::Create(p);
    if (!dcf.ok()) Violate("dcf-create", "valid parameters refused: %s", StatusStr(dcf.status()).c_str());
    U128 alpha = DrawPoint(st, log, 0);
    Meter m(n);
    auto keys = t->DcfGen(**dcf, alpha, RandomLeaves(*t, st, 0).data());
    if (!keys.ok()) Violate("dcf-create", "no keys: %s", StatusStr(keys.status()).c_str());
    CheckWork(m.Read(), deal, "dealing a comparison" + of);
    size(keys->first.key());
    size(keys->second.key());
    for (int k = 1 + Draw(4); k > 0; k--) {
      Span sp;
      int count = Chance(1, 3) ? 1 : DrawCount(100);
      std::vector<const d::DcfKey*> batch;
      std::vector<U128> pts;
      for (int i = 0; i < count; i++) {
        batch.push_back(st.Below(2) ? &keys->first : &keys->second);
        pts.push_back(DrawPoint(st, log, alpha));
      }
      bool single = count == 1 && Chance(1, 2);
      Meter m(n);
      auto r = single ? t->DcfEval(**dcf, *batch[0], pts[0]) : t->DcfBatch(**dcf, batch, Draw(3), pts);
      if (!r.ok()) Violate("dcf-refused", "evaluation refused: %s", StatusStr(r.status()).c_str());
      CheckWork(m.Read(), count * one, (single ? "one evaluation" : "a batch of " + std::to_string(count)) + of);
    }
  } else {
    g::MicParameters p;
    p.set_log_group_size(log);
    int iv = Draw(8);
    for (int i = 0; i < iv; i++) {
      U128 lo = DrawPoint(st, log, 0), hi = DrawPoint(st, log, lo);
      if (lo > hi) std::swap(lo, hi);
      auto* in = p.add_intervals();
      auto put = [](d::Value::Integer* v, U128 x) {
        v->mutable_value_uint128()->set_high(absl::Uint128High64(x));
        v->mutable_value_uint128()->set_low(absl::Uint128Low64(x));
      };
      put(in->mutable_lower_bound(), lo);
      put(in->mutable_upper_bound(), hi);
    }
    auto gate = g::MultipleIntervalContainmentGate::Create(p);
    if (!gate.ok()) Violate("mic-create", "valid parameters refused: %s", StatusStr(gate.status()).c_str());
    std::vector<U128> out;
    for (int i = 0; i < iv; i++) out.push_back(DrawPoint(st, log, 0));
    Meter m(n);
    auto keys = (*gate)->Gen(DrawPoint(st, log, 0), out);
    if (!keys.ok()) Violate("mic-create", "no keys: %s", StatusStr(keys.status()).c_str());
    CheckWork(m.Read(), deal, "dealing a gate" + of);
    size(keys->first.dcfkey().key());
    size(keys->second.dcfkey().key());
    for (auto* k : {&keys->first, &keys->second})
      if (k->output_mask_share_size() > iv) Violate("cost-key", "%d mask shares for %d intervals", k->output_mask_share_size(), iv);
    for (int k = 1 + Draw(3); k > 0; k--) {
      Span sp;
      Meter m(n);
      int count = Chance(1, 2) ? 1 : DrawCount(20);
      std::vector<g::MicKey> batch;
      std::vector<U128> pts;
      for (int i = 0; i < count; i++) {
        batch.push_back(st.Below(2) ? keys->first : keys->second);
        pts.push_back(DrawPoint(st, log, 0));
      }
      auto r = (*gate)->BatchEval(batch, pts);
      if (!r.ok()) Violate("mic-refused", "evaluation refused: %s", StatusStr(r.status()).c_str());
      CheckWork(m.Read(), uint64_t(count) * iv * 2 * one, "a gate with " + std::to_string(iv) + " intervals at " + std::to_string(count) + " points" + of);
    }
  }
  State(Mix(log, t->leaves.size()));
}

SCENARIO(P30, retrieval, 3) {
  Stream st(303);
  NonTrivial();
  Kind kind = (Kind)Draw(3);
  DataShape shape;
  shape.max_records = Chance(1, 4) ? 3000 : 300;
  shape.max_value = 40;
  Dataset ds = MakeDataset(kind, 30, shape);
  Node *sn = NewNode("server"), *cn = NewNode("client");
  sn->simd = Draw(SimdTargets());
  Params p;
  absl::StatusOr<std::unique_ptr<d::PirServer>> server = absl::InternalError("");
  {
    NodeScope ns(sn);
    p = MakeParams(ds);
    server = MakeServer(p, ds.records, Role::kPlain, {});
    if (!server.ok()) Violate("config-serve", "valid parameters are refused: %s", server.status().ToString().c_str());
  }
  auto enc = [](absl::string_view s, absl::string_view) -> absl::StatusOr<std::string> { return std::string(s); };
  int64_t rows = kind == Kind::kDense ? (int64_t)ds.records.size() : kind == Kind::kCuckoo ? p.cuckoo.num_buckets() : p.simple.num_buckets();
  int per_query = kind == Kind::kCuckoo ? p.cuckoo.num_hash_functions() : 1;
  int tree = 0;  // the clients and servers use one point per row
  while ((int64_t(1) << tree) < rows) tree++;
  uint64_t key_bytes = 64 + 40 * tree + 48 + 16;
  std::string of = std::string(" of a ") + KindName(kind) + " database with " + std::to_string(rows) + " rows";
  for (int k = 1 + Draw(3); k > 0; k--) {
    Span sp;
    std::vector<std::string> queries;
    for (int i = 1 + Draw(8); i > 0; i--) queries.push_back(kind == Kind::kDense || Chance(1, 2) ? ds.PresentQuery(st) : ds.AbsentQuery(st));
    uint64_t dpfs = queries.size() * per_query;
    PirRequest req;
    {
      NodeScope ns(cn);
      auto c = MakeClient(p, enc);
      if (!c.ok()) Violate("config-verdict", "a client refuses valid parameters: %s", c.status().ToString().c_str());
      Meter m(cn);
      auto r = (*c)->CreatePlain(queries);
      if (!r.ok()) Violate("config-serve", "no request: %s", r.status().ToString().c_str());
      CheckWork(m.Read(), dpfs * (4 * tree + 2), "a request of " + std::to_string(queries.size()) + of);
      auto& [a, h, state] = *r;
      *req.mutable_dpf_pir_request()->mutable_plain_request() = Chance(1, 2) ? a : h.plain_request();
    }
    if (req.ByteSizeLong() > 128 + dpfs * key_bytes)
      Violate("cost-request", "a request of %zu bytes for %zu queries%s", req.ByteSizeLong(), queries.size(), of.c_str());
    NodeScope ns(sn);
    Meter m(sn);
    auto r = (*server)->HandleRequest(req);
    if (!r.ok()) Violate("config-serve", "no answer: %s", r.status().ToString().c_str());
    CheckWork(m.Read(), dpfs * (Expand(1, tree) + (uint64_t(1) << tree)), "answering " + std::to_string(queries.size()) + " queries" + of);
    State(Mix(tree, queries.size()));
  }
}
}  // namespace sim
