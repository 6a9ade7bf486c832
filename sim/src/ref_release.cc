#include "ref_release.h"

#include <algorithm>

#include "google/protobuf/descriptor.pb.h"
#include "google/protobuf/dynamic_message.h"
#include "google/protobuf/io/coded_stream.h"
#include "openssl/aes.h"
#include "openssl/sha.h"
#include "pinned_schema.inc"

namespace sim {
namespace ref {
namespace {
void PutLe(U128 v, uint8_t* p) {
  for (int i = 0; i < 16; i++) p[i] = (uint8_t)absl::Uint128Low64(v >> (8 * i));
}
U128 GetLe(const uint8_t* p, size_t n) {
  U128 r = 0;
  for (size_t i = n; i-- > 0;) r = (r << 8) | p[i];
  return r;
}
U128 BlockOf(const d::Block& b) { return absl::MakeUint128(b.high(), b.low()); }
void SetBlock(U128 v, d::Block* b) {
  b->set_high(absl::Uint128High64(v));
  b->set_low(absl::Uint128Low64(v));
}
struct FixedKeys {
  AES_KEY k[3];
  FixedKeys() {
    const U128 keys[3] = {absl::MakeUint128(0x5be037ccf6a03de5ull, 0x935f08d0a5b6a2fdull),
                          absl::MakeUint128(0xef94b6aedebb026cull, 0xe2ea1fe0f66f4d0bull),
                          absl::MakeUint128(0x05a5d1588c5423e3ull, 0x46a31101b21d1c98ull)};
    for (int i = 0; i < 3; i++) {
      uint8_t b[16];
      PutLe(keys[i], b);
      AES_set_encrypt_key(b, 128, &k[i]);
    }
  }
};
enum { kLeft, kRight, kValue };
U128 Prg(int which, U128 x) {
  static const FixedKeys* f = [] {
    NoPreempt np;
    return new FixedKeys;
  }();
  uint64_t hi = absl::Uint128High64(x), lo = absl::Uint128Low64(x);
  U128 sigma = absl::MakeUint128(hi ^ lo, hi);
  uint8_t in[16], out[16];
  PutLe(sigma, in);
  AES_encrypt(in, out, &f->k[which]);
  return GetLe(out, 16) ^ sigma;
}
U128 IntOf(const d::Value::Integer& i) { return i.has_value_uint128() ? BlockOf(i.value_uint128()) : U128(i.value_uint64()); }
void SetInt(U128 v, d::Value::Integer* i) {
  if (absl::Uint128High64(v) == 0) i->set_value_uint64(absl::Uint128Low64(v));
  else SetBlock(v, i->mutable_value_uint128());
}
void LeavesOf(const d::ValueType& t, std::vector<Leaf>* out) {
  switch (t.type_case()) {
    case d::ValueType::kInteger: out->push_back({t.integer().bitsize(), 0, false}); break;
    case d::ValueType::kXorWrapper: out->push_back({t.xor_wrapper().bitsize(), 0, true}); break;
    case d::ValueType::kIntModN:
      out->push_back({t.int_mod_n().base_integer().bitsize(), IntOf(t.int_mod_n().modulus()), false});
      break;
    case d::ValueType::kTuple:
      for (auto& e : t.tuple().elements()) LeavesOf(e, out);
      break;
    default: SIM_ASSERT(false);
  }
}
void ReadValue(const d::ValueType& t, const d::Value& v, Flat* out) {
  switch (t.type_case()) {
    case d::ValueType::kInteger: out->push_back(IntOf(v.integer())); break;
    case d::ValueType::kXorWrapper: out->push_back(IntOf(v.xor_wrapper())); break;
    case d::ValueType::kIntModN: out->push_back(IntOf(v.int_mod_n())); break;
    default:
      if (v.tuple().elements_size() != t.tuple().elements_size()) Violate("release-key", "a stored value has the wrong number of elements");
      for (int i = 0; i < t.tuple().elements_size(); i++) ReadValue(t.tuple().elements(i), v.tuple().elements(i), out);
  }
}
d::Value WriteValue(const d::ValueType& t, const U128*& l) {
  d::Value v;
  switch (t.type_case()) {
    case d::ValueType::kInteger: SetInt(*l++, v.mutable_integer()); break;
    case d::ValueType::kXorWrapper: SetInt(*l++, v.mutable_xor_wrapper()); break;
    case d::ValueType::kIntModN: SetInt(*l++, v.mutable_int_mod_n()); break;
    default:
      v.mutable_tuple();
      for (auto& e : t.tuple().elements()) *v.mutable_tuple()->add_elements() = WriteValue(e, l);
  }
  return v;
}
bool Direct(const d::ValueType& t) {
  if (t.has_int_mod_n()) return false;
  if (t.has_tuple())
    for (auto& e : t.tuple().elements())
      if (!Direct(e)) return false;
  return true;
}
int Bits(const d::ValueType& t) {
  if (t.has_integer()) return t.integer().bitsize();
  if (t.has_xor_wrapper()) return t.xor_wrapper().bitsize();
  if (t.has_int_mod_n()) return 128;
  int mods = 0, base = 0, other = 0, bits = 0;
  for (auto& e : t.tuple().elements()) {
    if (e.has_int_mod_n()) {
      mods++;
      base = e.int_mod_n().base_integer().bitsize();
    } else {
      other++;
      bits += Bits(e);
    }
  }
  if (mods) bits += 128 + base * (mods - 1) + (other ? base : 0);
  return bits;
}
struct Bytes {
  const std::vector<uint8_t>& b;
  size_t at;
  U128 Take(size_t n) {
    SIM_ASSERT(at + n <= b.size());
    at += n;
    return GetLe(&b[at - n], n);
  }
};
// Values that are not read off directly are drawn from a running block, which
// is topped up after each value but the last.
void Sample(const d::ValueType& t, bool more, U128& block, Bytes& in, Flat* out) {
  if (t.has_tuple()) {
    int n = t.tuple().elements_size(), i = 0;
    for (auto& e : t.tuple().elements()) Sample(e, more || ++i < n, block, in, out);
    return;
  }
  if (t.has_int_mod_n()) {
    U128 n = IntOf(t.int_mod_n().modulus());
    int bits = t.int_mod_n().base_integer().bitsize();
    out->push_back(block % n);
    if (more) block = Shl(block / n, bits) | in.Take(bits / 8);
    return;
  }
  int bits = t.has_integer() ? t.integer().bitsize() : t.xor_wrapper().bitsize();
  U128 low = bits == 128 ? absl::Uint128Max() : Pow2(bits) - 1;
  out->push_back(block & low);
  if (more) block = (block & ~low) | in.Take(bits / 8);
}
Flat Combine(const std::vector<Leaf>& l, const Flat& a, const Flat& b, bool neg_b) {
  Flat r;
  for (size_t i = 0; i < a.size(); i++) {
    const Leaf& lf = l[i % l.size()];
    r.push_back(LeafAdd(lf, a[i], neg_b ? LeafNeg(lf, b[i]) : b[i]));
  }
  return r;
}
}  // namespace

namespace {
namespace pb = ::google::protobuf;
struct Pinned {
  pb::DescriptorPool pool;
  pb::DynamicMessageFactory factory{&pool};
  Pinned() {
    pb::FileDescriptorSet s;
    SIM_ASSERT(s.ParseFromArray(kPinnedSchema, sizeof kPinnedSchema));
    for (auto& f : s.file()) SIM_ASSERT(pool.BuildFile(f));
  }
};
Pinned* ThePinned() {
  static Pinned* p = new Pinned;
  return p;
}
pb::Message* NewPinned(const pb::Message& like) {
  Pinned* p = ThePinned();
  const pb::Descriptor* desc = p->pool.FindMessageTypeByName(like.GetTypeName());
  SIM_ASSERT(desc);
  return p->factory.GetPrototype(desc)->New();
}
// Built once, before runs are forked off.
struct Warm {
  Warm() {
    Pinned* p = ThePinned();
    std::vector<const pb::Descriptor*> todo;
    for (const pb::Message* m : std::initializer_list<const pb::Message*>{&d::DpfKey::default_instance(), &d::EvaluationContext::default_instance(), &d::DcfKey::default_instance(),
                                                                         &d::fss_gates::MicKey::default_instance(), &PirRequest::default_instance(), &PirResponse::default_instance(),
                                                                         &PirRequestClientState::default_instance(), &d::HashedPirDatabaseBucket::default_instance()}) {
      m->GetReflection();
      todo.push_back(p->pool.FindMessageTypeByName(m->GetTypeName()));
    }
    std::set<const pb::Descriptor*> seen;
    while (!todo.empty()) {
      const pb::Descriptor* t = todo.back();
      todo.pop_back();
      if (!t || !seen.insert(t).second) continue;
      delete p->factory.GetPrototype(t)->New();
      for (int i = 0; i < t->field_count(); i++)
        if (t->field(i)->message_type()) todo.push_back(t->field(i)->message_type());
    }
  }
} warm;
// Copies by field name.
void CopyByName(const pb::Message& a, pb::Message* b) {
  const pb::Reflection *ra = a.GetReflection(), *rb = b->GetReflection();
  std::vector<const pb::FieldDescriptor*> fields;
  ra->ListFields(a, &fields);
  for (auto* f : fields) {
    const pb::FieldDescriptor* t = b->GetDescriptor()->FindFieldByName(f->name());
    if (!t) continue;  // an addition the other side does not know
    if (t->cpp_type() != f->cpp_type() || t->is_repeated() != f->is_repeated()) Violate("release-schema", "field %s changed its type", f->full_name().c_str());
    int n = f->is_repeated() ? ra->FieldSize(a, f) : 1;
    for (int i = 0; i < n; i++) {
#define SIM_COPY(TYPE, NAME)                                                                    \
  case pb::FieldDescriptor::CPPTYPE_##TYPE:                                                     \
    if (f->is_repeated()) rb->Add##NAME(b, t, ra->GetRepeated##NAME(a, f, i));                  \
    else rb->Set##NAME(b, t, ra->Get##NAME(a, f));                                              \
    break;
      switch (f->cpp_type()) {
        SIM_COPY(INT32, Int32)
        SIM_COPY(INT64, Int64)
        SIM_COPY(UINT32, UInt32)
        SIM_COPY(UINT64, UInt64)
        SIM_COPY(DOUBLE, Double)
        SIM_COPY(FLOAT, Float)
        SIM_COPY(BOOL, Bool)
        SIM_COPY(STRING, String)
        case pb::FieldDescriptor::CPPTYPE_ENUM:
          if (f->is_repeated()) rb->AddEnumValue(b, t, ra->GetRepeatedEnumValue(a, f, i));
          else rb->SetEnumValue(b, t, ra->GetEnumValue(a, f));
          break;
        case pb::FieldDescriptor::CPPTYPE_MESSAGE:
          if (f->is_repeated()) CopyByName(ra->GetRepeatedMessage(a, f, i), rb->AddMessage(b, t));
          else CopyByName(ra->GetMessage(a, f), rb->MutableMessage(b, t));
      }
#undef SIM_COPY
    }
  }
}
}  // namespace
bool ReadInto(const std::string& bytes, pb::Message* m) {
  std::unique_ptr<pb::Message> p(NewPinned(*m));
  if (!p->ParseFromString(bytes)) return false;
  m->Clear();
  CopyByName(*p, m);
  return true;
}
std::string Write(const pb::Message& m) {
  std::unique_ptr<pb::Message> p(NewPinned(m));
  CopyByName(m, p.get());
  std::string s;
  SIM_ASSERT(p->SerializeToString(&s));
  return s;
}
d::Value MakeValue(const d::ValueType& t, const Flat& leaves) {
  const U128* p = leaves.data();
  return WriteValue(t, p);
}
Fss::Fss(const std::vector<d::DpfParameters>& params) : params_(params) {
  int next = 0;
  for (auto& p : params_) {
    if (p.security_parameter() == 0) p.set_security_parameter(40 + p.log_domain_size());
    Level l;
    l.log = p.log_domain_size();
    l.vt = p.value_type();
    LeavesOf(l.vt, &l.leaves);
    int bits = Bits(l.vt), log_bits = 0;
    while ((1 << log_bits) < bits) log_bits++;
    l.tree = std::max(next, l.log - 7 + std::min(log_bits, 7));
    l.blocks = (bits + 127) / 128;
    l.per_block = Direct(l.vt) && bits <= 128 ? 128 / bits : 1;
    next = l.tree + 1;
    g_.push_back(l);
  }
}
Flat Fss::Elements(const Level& l, U128 seed) const {
  std::vector<uint8_t> bytes(16 * l.blocks);
  for (int i = 0; i < l.blocks; i++) PutLe(Prg(kValue, seed + i), &bytes[16 * i]);
  Flat r;
  Bytes in{bytes, 0};
  if (!Direct(l.vt)) {
    U128 block = in.Take(16);
    Sample(l.vt, false, block, in, &r);
    return r;
  }
  for (int i = 0; i < l.per_block; i++)
    for (auto& lf : l.leaves) r.push_back(in.Take(lf.bits / 8));
  return r;
}
void Fss::Correction(int level, const Node n[2], U128 index, const d::Value& beta, google::protobuf::RepeatedPtrField<d::Value>* out) const {
  const Level& l = g_[level];
  Flat a = Elements(l, n[0].seed), b = Elements(l, n[1].seed), want;
  ReadValue(l.vt, beta, &want);
  int in_block = l.log - l.tree;
  size_t at = in_block ? (size_t)absl::Uint128Low64(index & (Pow2(in_block) - 1)) : 0;
  for (size_t i = 0; i < want.size(); i++) {
    U128& v = b[at * want.size() + i];
    v = LeafAdd(l.leaves[i], v, want[i]);
  }
  Flat c = Combine(l.leaves, b, a, true);
  if (n[1].t)
    for (size_t i = 0; i < c.size(); i++) c[i] = LeafNeg(l.leaves[i % l.leaves.size()], c[i]);
  const U128* p = c.data();
  for (int i = 0; i < l.per_block; i++) *out->Add() = WriteValue(l.vt, p);
}
void Fss::Gen(U128 alpha, const std::vector<d::Value>& betas, Stream& st, d::DpfKey out[2]) const {
  Node n[2];
  for (int i = 0; i < 2; i++) {
    out[i].Clear();
    n[i] = {Rand128(st, 128), i == 1};
    out[i].set_party(i);
    SetBlock(n[i].seed, out[i].mutable_seed());
  }
  int top = g_.back().log, last = g_.back().tree;
  size_t level = 0;
  for (int depth = 0; depth < last; depth++) {
    d::CorrectionWord cw;
    if (g_[level].tree == depth) {
      Correction(level, n, Shr(alpha, top - g_[level].log), betas[level], cw.mutable_value_correction());
      level++;
    }
    bool bit = (Shr(alpha, top - depth - 1) & 1) != 0;
    U128 s[2][2];  // branch, party
    bool t[2][2];
    for (int br = 0; br < 2; br++)
      for (int i = 0; i < 2; i++) {
        s[br][i] = Prg(br ? kRight : kLeft, n[i].seed);
        t[br][i] = (s[br][i] & 1) != 0;
        s[br][i] &= ~U128(1);
      }
    U128 cs = s[!bit][0] ^ s[!bit][1];
    bool ct[2] = {bool(t[0][0] ^ t[0][1] ^ bit ^ 1), bool(t[1][0] ^ t[1][1] ^ bit)};
    SetBlock(cs, cw.mutable_seed());
    cw.set_control_left(ct[0]);
    cw.set_control_right(ct[1]);
    for (int i = 0; i < 2; i++) {
      bool was = n[i].t;
      n[i] = {was ? s[bit][i] ^ cs : s[bit][i], bool(t[bit][i] ^ (was && ct[bit]))};
      *out[i].add_correction_words() = cw;
    }
  }
  Correction(g_.size() - 1, n, alpha, betas.back(), out[0].mutable_last_level_value_correction());
  *out[1].mutable_last_level_value_correction() = out[0].last_level_value_correction();
}
Fss::Node Fss::Walk(const d::DpfKey& key, Memo& m, int tree_level, U128 prefix) const {
  auto it = m.find({tree_level, prefix});
  if (it != m.end()) return it->second;
  if (tree_level == 0) return {BlockOf(key.seed()), key.party() == 1};
  Node p = Walk(key, m, tree_level - 1, prefix >> 1);
  if (key.correction_words_size() < tree_level) Violate("release-key", "a key has %d correction words", key.correction_words_size());
  const d::CorrectionWord& cw = key.correction_words(tree_level - 1);
  bool right = (prefix & 1) != 0;
  U128 s = Prg(right ? kRight : kLeft, p.seed);
  if (p.t) s ^= BlockOf(cw.seed());
  bool t = (s & 1) != 0;
  if (p.t) t ^= right ? cw.control_right() : cw.control_left();
  Node r{s & ~U128(1), t};
  m[{tree_level, prefix}] = r;
  return r;
}
Flat Fss::Share(const d::DpfKey& key, Memo& m, int level, U128 x) const {
  const Level& l = g_[level];
  int in_block = l.log - l.tree;
  Node n = Walk(key, m, l.tree, Shr(x, in_block));
  size_t at = in_block ? (size_t)absl::Uint128Low64(x & (Pow2(in_block) - 1)) : 0, k = l.leaves.size();
  Flat v = Slice(Elements(l, n.seed), at, k);
  if (n.t) {
    bool last = level + 1 == (int)g_.size();
    if (!last && key.correction_words_size() <= l.tree) Violate("release-key", "a key has %d correction words", key.correction_words_size());
    auto& vc = last ? key.last_level_value_correction() : key.correction_words(l.tree).value_correction();
    if (vc.size() != l.per_block) Violate("release-key", "a key carries %d value corrections where %d are due", vc.size(), l.per_block);
    Flat c;
    ReadValue(l.vt, vc[at], &c);
    v = Combine(l.leaves, v, c, false);
  }
  if (key.party() == 1)
    for (size_t i = 0; i < k; i++) v[i] = LeafNeg(l.leaves[i], v[i]);
  return v;
}
Flat Fss::At(const d::DpfKey& key, int level, U128 x) const {
  Memo m;
  return Share(key, m, level, x);
}
d::EvaluationContext Fss::Context(const d::DpfKey& key) const {
  d::EvaluationContext c;
  for (auto& p : params_) *c.add_parameters() = p;
  *c.mutable_key() = key;
  c.set_previous_hierarchy_level(-1);
  return c;
}
Flat Fss::Run(const Step& s, d::EvaluationContext& ctx) const {
  // Only what the context itself says is used, never the key where partial
  // evaluations apply.
  if (ctx.parameters_size() != (int)params_.size() || !ctx.has_key()) Violate("release-context", "a stored context carries %d parameters, %s key", ctx.parameters_size(), ctx.has_key() ? "a" : "no");
  for (size_t i = 0; i < params_.size(); i++) {
    auto& p = ctx.parameters(i);
    if (p.log_domain_size() != params_[i].log_domain_size() || Write(p.value_type()) != Write(params_[i].value_type()) ||
        std::abs((p.security_parameter() ? p.security_parameter() : 40 + p.log_domain_size()) - params_[i].security_parameter()) > 1e-3)
      Violate("release-context", "a stored context carries other parameters at level %zu", i);
  }
  Memo m;
  int known = -1;
  if (ctx.partial_evaluations_size()) {
    known = ctx.partial_evaluations_level();
    if (known < 0 || known >= (int)g_.size() || known > ctx.previous_hierarchy_level())
      Violate("release-context", "a stored context says its partial evaluations are of level %d", known);
    for (auto& e : ctx.partial_evaluations()) m[{g_[known].tree, BlockOf(e.prefix())}] = {BlockOf(e.seed()), e.control_bit()};
  }
  auto check = [&](int level, U128 tree_index) {
    if (known < 0 || g_[known].tree > g_[level].tree) return;
    if (!m.count({g_[known].tree, Shr(tree_index, g_[level].tree - g_[known].tree)}))
      Violate("release-context", "a stored context lacks the partial evaluation of a prefix that was evaluated (step at level %d)", s.level);
  };
  Flat out;
  std::vector<U128> keep;  // tree indices to store
  int keep_level = s.level;
  int prev = ctx.previous_hierarchy_level();
  if (s.op == Step::kAt) {
    for (U128 x : s.pts) keep.push_back(Shr(x, g_[s.level].log - g_[s.level].tree));
  } else if (prev >= 0) {
    keep_level = prev;
    for (U128 x : s.pts) keep.push_back(Shr(x, g_[prev].log - g_[prev].tree));
  }
  if (s.op == Step::kAt && s.pts.empty()) return out;
  if (keep_level >= 0)
    for (U128 t : keep) check(keep_level, t);
  for (U128 x : s.outs) {
    Flat v = Share(ctx.key(), m, s.level, x);
    out.insert(out.end(), v.begin(), v.end());
  }
  d::EvaluationContext next = ctx;
  next.clear_partial_evaluations();
  if (s.op == Step::kAt || (prev >= 0 && s.level + 1 < (int)g_.size())) {
    std::set<U128> seen;
    for (U128 t : keep) {
      if (!seen.insert(t).second) continue;
      Node n = Walk(ctx.key(), m, g_[keep_level].tree, t);
      auto* e = next.add_partial_evaluations();
      SetBlock(t, e->mutable_prefix());
      SetBlock(n.seed, e->mutable_seed());
      e->set_control_bit(n.t);
    }
  }
  if (s.op == Step::kAt || prev >= 0) next.set_partial_evaluations_level(keep_level);
  next.set_previous_hierarchy_level(s.level);
  ctx = next;
  return out;
}

namespace {
std::vector<d::DpfParameters> CmpLevels(const d::DpfParameters& p) {
  std::vector<d::DpfParameters> r;
  for (int i = 0; i < p.log_domain_size(); i++) {
    r.push_back(p);
    r.back().set_log_domain_size(i);
  }
  return r;
}
}  // namespace
Cmp::Cmp(const d::DpfParameters& p) : log_(p.log_domain_size()), fss_(CmpLevels(p)) { LeavesOf(p.value_type(), &leaves_); }
void Cmp::Gen(U128 alpha, const d::Value& beta, Stream& st, d::DcfKey out[2]) const {
  std::function<void(d::Value*)> clear = [&](d::Value* v) {
    if (v->has_integer()) v->mutable_integer()->set_value_uint64(0);
    if (v->has_int_mod_n()) v->mutable_int_mod_n()->set_value_uint64(0);
    if (v->has_xor_wrapper()) v->mutable_xor_wrapper()->set_value_uint64(0);
    if (v->has_tuple())
      for (auto& e : *v->mutable_tuple()->mutable_elements()) clear(&e);
  };
  std::vector<d::Value> betas(log_, beta);
  for (int i = 0; i < log_; i++)
    if ((Shr(alpha, log_ - 1 - i) & 1) == 0) clear(&betas[i]);
  d::DpfKey k[2];
  fss_.Gen(alpha >> 1, betas, st, k);
  for (int i = 0; i < 2; i++) *out[i].mutable_key() = k[i];
}
Flat Cmp::At(const d::DcfKey& key, U128 x) const {
  Flat sum(leaves_.size(), U128(0));
  for (int i = 0; i < log_; i++)
    if ((Shr(x, log_ - 1 - i) & 1) == 0) sum = Combine(leaves_, sum, fss_.At(key.key(), i, Shr(x, log_ - i)), false);
  return sum;
}
namespace {
d::DpfParameters MicCmp(const d::fss_gates::MicParameters& p) {
  d::DpfParameters r;
  r.set_log_domain_size(p.log_group_size());
  r.mutable_value_type()->mutable_integer()->set_bitsize(128);
  return r;
}
}  // namespace
Mic::Mic(const d::fss_gates::MicParameters& p) : n_(Pow2(p.log_group_size())), cmp_(MicCmp(p)) {
  for (auto& i : p.intervals()) iv_.emplace_back(IntOf(i.lower_bound()), IntOf(i.upper_bound()));
}
void Mic::Gen(U128 r_in, const std::vector<U128>& r_out, Stream& st, d::fss_gates::MicKey out[2]) const {
  d::Value one;
  one.mutable_integer()->set_value_uint64(1);
  d::DcfKey k[2];
  cmp_.Gen((n_ - 1 + r_in) % n_, one, st, k);
  for (int i = 0; i < 2; i++) {
    out[i].Clear();
    *out[i].mutable_dcfkey() = k[i];
  }
  for (size_t j = 0; j < iv_.size(); j++) {
    auto [p, q] = iv_[j];
    U128 q1 = (q + 1) % n_, ap = (p + r_in) % n_, aq = (q + r_in) % n_, aq1 = (q + 1 + r_in) % n_;
    U128 z = r_out[j];
    if (ap > aq) z += 1;
    if (ap > p) z += n_ - 1;
    if (aq1 > q1) z += 1;
    if (aq == n_ - 1) z += 1;
    z %= n_;
    U128 z0 = Rand128(st, 128) % n_, z1 = (z + n_ - z0) % n_;
    SetBlock(z0, out[0].add_output_mask_share()->mutable_value_uint128());
    SetBlock(z1, out[1].add_output_mask_share()->mutable_value_uint128());
  }
}
std::vector<U128> Mic::Eval(const d::fss_gates::MicKey& key, U128 x) const {
  if (key.output_mask_share_size() != (int)iv_.size()) Violate("release-key", "a gate key has %d mask shares", key.output_mask_share_size());
  std::vector<U128> r;
  for (size_t j = 0; j < iv_.size(); j++) {
    auto [p, q] = iv_[j];
    U128 q1 = (q + 1) % n_;
    U128 sp = cmp_.At(key.dcfkey(), (x + n_ - 1 - p) % n_)[0] % n_, sq = cmp_.At(key.dcfkey(), (x + n_ - 1 - q1) % n_)[0] % n_;
    U128 y = BlockOf(key.output_mask_share(j).value_uint128()) % n_;
    if (key.dcfkey().key().party() == 1) {
      if (x > p) y += 1;
      if (x > q1) y += n_ - 1;
    }
    r.push_back((y + (n_ - sp) + sq) % n_);
  }
  return r;
}

// ------------------------------------------------------------------ hashing
int Sha256Bucket(const std::string& seed, const std::string& input, int upper_bound) {
  std::string m = seed + input;
  uint8_t h[32];
  SHA256((const uint8_t*)m.data(), m.size(), h);
  // The digest is a little-endian number.
  unsigned __int128 r = 0;
  for (int i = 31; i >= 0; i--) r = (r * 256 + h[i]) % (unsigned)upper_bound;
  return (int)r;
}
int BucketOf(const d::HashFamilyConfig& c, int function, const std::string& key, int num_buckets) {
  return Sha256Bucket(c.seed() + std::to_string(function), key, num_buckets);
}
std::string Pad(const std::string& seed, size_t n) {
  AES_KEY k;
  {
    NoPreempt np;
    AES_set_encrypt_key((const uint8_t*)seed.data(), 128, &k);
  }
  uint8_t ctr[16] = {0}, block[16];
  std::string r;
  while (r.size() < n) {
    AES_encrypt(ctr, block, &k);
    r.append((char*)block, std::min<size_t>(16, n - r.size()));
    for (int i = 15; i >= 0 && !++ctr[i]; i--) {
    }
  }
  return r;
}

// ------------------------------------------------------ information retrieval
namespace {
int64_t Elements(const Params& p) {
  return p.kind == Kind::kDense ? p.dense.dense_dpf_pir_config().num_elements() : p.kind == Kind::kCuckoo ? p.cuckoo.num_buckets() : p.simple.num_buckets();
}
const d::HashFamilyConfig& Hashing(const Params& p) { return p.kind == Kind::kCuckoo ? p.cuckoo.hash_family_config() : p.simple.hash_family_config(); }
Fss Selector(int64_t n) {
  d::DpfParameters p;
  int log = 0;
  while ((int64_t(1) << log) < n) log++;
  p.set_log_domain_size(log);
  p.mutable_value_type()->mutable_xor_wrapper()->set_bitsize(128);
  return Fss({p});
}
const char* Context(Kind k) {
  return k == Kind::kDense ? "DenseDpfPirServer" : k == Kind::kCuckoo ? "CuckooHashingSparseDpfPirServer" : "SimpleHashingSparseDpfPirServer";
}
// Applies the pad to the entries one after the other.
void ApplyPad(const std::string& seed, google::protobuf::RepeatedPtrField<std::string>* v) {
  size_t total = 0, at = 0;
  for (auto& s : *v) total += s.size();
  std::string pad = Pad(seed, total);
  for (auto& s : *v)
    for (auto& c : s) c ^= pad[at++];
}
int Fingerprint(const Params& p) { return Sha256Bucket("", Hashing(p).seed(), 2147483647); }
}  // namespace

std::pair<PirRequest, PirRequestClientState> Client::Create(const std::vector<std::string>& q, Stream& st) const {
  std::vector<int64_t> idx;
  for (auto& s : q) {
    if (p.kind == Kind::kDense) idx.push_back(atoi(s.c_str()));
    int fns = p.kind == Kind::kCuckoo ? p.cuckoo.num_hash_functions() : p.kind == Kind::kSimple ? 1 : 0;
    for (int f = 0; f < fns; f++) idx.push_back(BucketOf(Hashing(p), f, s, Elements(p)));
  }
  Fss sel = Selector(Elements(p));
  d::DpfPirRequest::HelperRequest helper;
  PirRequest req;
  auto* leader = req.mutable_dpf_pir_request()->mutable_leader_request();
  for (int64_t i : idx) {
    d::Value v;
    SetInt(Pow2(i % 128), v.mutable_xor_wrapper());
    d::DpfKey k[2];
    sel.Gen(i / 128, {v}, st, k);
    *leader->mutable_plain_request()->add_dpf_key() = k[0];
    *helper.mutable_plain_request()->add_dpf_key() = k[1];
  }
  std::string seed = st.Bytes(16);
  helper.set_one_time_pad_seed(seed);
  if (p.kind != Kind::kDense) {
    leader->mutable_plain_request()->set_seed_fingerprint(Fingerprint(p));
    helper.mutable_plain_request()->set_seed_fingerprint(Fingerprint(p));
  }
  leader->mutable_encrypted_helper_request()->set_encrypted_request(encrypt(Write(helper), Context(p.kind)));
  PirRequestClientState state;
  switch (p.kind) {
    case Kind::kDense: state.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(seed); break;
    case Kind::kCuckoo: {
      auto* c = state.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state();
      c->set_one_time_pad_seed(seed);
      for (auto& s : q) c->add_query_strings(s);
      break;
    }
    default: {
      auto* c = state.mutable_simple_hashing_sparse_dpf_pir_request_client_state();
      c->set_one_time_pad_seed(seed);
      for (auto& s : q) c->add_query_strings(s);
    }
  }
  return {req, state};
}
std::vector<absl::optional<std::string>> Client::Handle(const PirResponse& r, const PirRequestClientState& s) const {
  auto v = r.dpf_pir_response().masked_response();
  std::vector<absl::optional<std::string>> out;
  std::vector<std::string> q;
  std::string seed;
  auto load = [&](auto& st) {
    seed = st.one_time_pad_seed();
    q.assign(st.query_strings().begin(), st.query_strings().end());
  };
  if (p.kind == Kind::kDense) seed = s.dense_dpf_pir_request_client_state().one_time_pad_seed();
  else if (p.kind == Kind::kCuckoo) load(s.cuckoo_hashing_sparse_dpf_pir_request_client_state());
  else load(s.simple_hashing_sparse_dpf_pir_request_client_state());
  if (seed.size() != 16) Violate("release-state", "a stored client state has a pad seed of %zu bytes", seed.size());
  ApplyPad(seed, &v);
  if (p.kind == Kind::kDense) {
    for (auto& e : v) out.push_back(e);
    return out;
  }
  size_t per = p.kind == Kind::kCuckoo ? 2 * p.cuckoo.num_hash_functions() : 1;
  if ((size_t)v.size() != per * q.size()) Violate("release-response", "%d replies for %zu queries", v.size(), q.size());
  for (size_t i = 0; i < q.size(); i++) {
    absl::optional<std::string> found;
    if (p.kind == Kind::kCuckoo) {
      for (size_t j = 0; j < per && !found; j += 2) {
        std::string k = v[i * per + j];
        if (k.size() < q[i].size()) continue;
        std::string want = q[i];
        want.resize(k.size(), 0);
        if (k == want) found = v[i * per + j + 1];
      }
    } else {
      d::HashedPirDatabaseBucket b;
      std::unique_ptr<pb::Message> raw(NewPinned(b));
      pb::io::CodedInputStream in((const uint8_t*)v[i].data(), v[i].size());
      raw->ParseFromCodedStream(&in);  // up to the padding
      CopyByName(*raw, &b);
      if (b.keys_size() != b.values_size()) Violate("release-response", "a bucket has %d keys and %d values", b.keys_size(), b.values_size());
      for (int j = 0; j < b.keys_size() && !found; j++)
        if (b.keys(j) == q[i]) found = b.values(j);
    }
    out.push_back(found);
  }
  return out;
}

bool Server::Build(const Params& params, const std::vector<std::pair<std::string, std::string>>& records, Stream& st) {
  p = params;
  int64_t n = Elements(p);
  if (p.kind == Kind::kDense) {
    tables.resize(1);
    for (auto& r : records) tables[0].push_back(r.second);
  } else if (p.kind == Kind::kSimple) {
    std::vector<d::HashedPirDatabaseBucket> b(n);
    for (auto& r : records) {
      auto& x = b[BucketOf(Hashing(p), 0, r.first, n)];
      x.add_keys(r.first);
      x.add_values(r.second);
    }
    tables.resize(1);
    for (auto& x : b) tables[0].push_back(Write(x));
  } else {
    std::vector<int> at(n, -1);
    for (int i = 0; i < (int)records.size(); i++) {
      int cur = i;
      bool done = false;
      for (int t = 0; t < 3000 && !done; t++) {
        int f = p.cuckoo.num_hash_functions(), b = 0;
        for (int j = 0; j < f && !done; j++) {
          b = BucketOf(Hashing(p), j, records[cur].first, n);
          if (at[b] < 0) {
            at[b] = cur;
            done = true;
          }
        }
        if (done) break;
        b = BucketOf(Hashing(p), st.Below(f), records[cur].first, n);
        std::swap(at[b], cur);
      }
      if (!done) return false;
    }
    tables.resize(2);
    for (int64_t b = 0; b < n; b++) {
      tables[0].push_back(at[b] < 0 ? "" : records[at[b]].first);
      tables[1].push_back(at[b] < 0 ? "" : records[at[b]].second);
    }
  }
  for (auto& t : tables) {
    width.push_back(0);
    for (auto& s : t) width.back() = std::max(width.back(), s.size());
  }
  return true;
}
PirResponse Server::Plain(const d::DpfPirRequest::PlainRequest& r) const {
  PirResponse out;
  Fss sel = Selector(Elements(p));
  if (p.kind != Kind::kDense && r.seed_fingerprint() != 0 && (int)r.seed_fingerprint() != Fingerprint(p))
    Violate("release-fingerprint", "a request for this deployment carries another seed fingerprint");
  for (auto& k : r.dpf_key()) {
    std::vector<std::string> sum;
    for (size_t w : width) sum.push_back(std::string(w, 0));
    Flat blocks;
    for (size_t i = 0; i < tables[0].size(); i++) {
      if (i % 128 == 0) blocks.push_back(sel.At(k, 0, i / 128)[0]);
      if ((Shr(blocks.back(), i % 128) & 1) == 0) continue;
      for (size_t t = 0; t < tables.size(); t++)
        for (size_t j = 0; j < tables[t][i].size(); j++) sum[t][j] ^= tables[t][i][j];
    }
    for (auto& s : sum) out.mutable_dpf_pir_response()->add_masked_response(s);
  }
  return out;
}
PirResponse Server::Helper(const d::DpfPirRequest::HelperRequest& r) const {
  if (r.one_time_pad_seed().size() != 16) Violate("release-request", "a request has a pad seed of %zu bytes", r.one_time_pad_seed().size());
  PirResponse p = Plain(r.plain_request());
  ApplyPad(r.one_time_pad_seed(), p.mutable_dpf_pir_response()->mutable_masked_response());
  return p;
}
PirResponse Server::Combine(const PirResponse& a, const PirResponse& b) {
  PirResponse r = a;
  auto& bv = b.dpf_pir_response().masked_response();
  if (r.dpf_pir_response().masked_response_size() != bv.size()) Violate("release-response", "the servers sent %d and %d replies", r.dpf_pir_response().masked_response_size(), bv.size());
  for (int i = 0; i < bv.size(); i++) {
    std::string* s = r.mutable_dpf_pir_response()->mutable_masked_response(i);
    if (s->size() != bv[i].size()) Violate("release-response", "the servers sent replies of %zu and %zu bytes", s->size(), bv[i].size());
    for (size_t j = 0; j < s->size(); j++) (*s)[j] ^= bv[i][j];
  }
  return r;
}
}  // namespace ref
}  // namespace sim
