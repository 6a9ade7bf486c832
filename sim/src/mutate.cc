#include "mutate.h"

#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>

#include "google/protobuf/descriptor.h"

namespace sim {
using google::protobuf::FieldDescriptor;
using google::protobuf::Message;
using google::protobuf::Reflection;

std::string DamageBytes(std::string s, const std::vector<std::string>& donors) {
  Span sp;
  size_t n = s.size();
  switch (Draw(8)) {
    case 0:  // lost tail
      s.resize(Draw(n + 1));
      Count("fault:truncated");
      break;
    case 1:  // bit flips
      for (int i = 0, k = 1 + Draw(4); i < k && n; i++) s[Draw(n)] ^= 1 << Draw(8);
      Count("fault:bit-flip");
      break;
    case 2: {  // torn write: the head of one version, the tail of another
      if (donors.empty()) break;
      const std::string& d = donors[Draw(donors.size())];
      size_t cut = Draw(std::min(n, d.size()) + 1);
      s = s.substr(0, cut) + d.substr(cut);
      Count("fault:torn-write");
      break;
    }
    case 3: {  // a sector of zeros
      size_t a = Draw(n + 1), l = Draw(n - a + 1);
      std::fill(s.begin() + a, s.begin() + a + l, 0);
      Count("fault:zeroed");
      break;
    }
    case 4: {  // a part written twice
      size_t a = Draw(n + 1), l = Draw(std::min<size_t>(n - a, 64) + 1);
      s.insert(a, s.substr(a, l));
      Count("fault:duplicated-bytes");
      break;
    }
    case 5: {  // misdirected write
      if (donors.empty()) break;
      const std::string& d = donors[Draw(donors.size())];
      if (d.empty()) break;
      size_t from = Draw(d.size()), l = std::min<size_t>(d.size() - from, 1 + Draw(40)), to = Draw(n + 1);
      s.replace(to, std::min(l, s.size() - to), d.substr(from, l));
      Count("fault:misdirected-write");
      break;
    }
    case 6: {  // a byte with an extreme value
      if (n) s[Draw(n)] = (char)std::vector<int>{0, 1, 127, 128, 255}[Draw(5)];
      Count("fault:byte");
      break;
    }
    case 7:  // appended: parsers merge two concatenated messages
      if (!donors.empty()) s += donors[Draw(donors.size())];
      Count("fault:concatenated");
      break;
  }
  return s;
}

namespace {
template <class T>
T Extreme(T old) {
  typedef std::numeric_limits<T> L;
  switch (Draw(10)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return (T)-1;
    case 3: return L::max();
    case 4: return L::min();
    case 5: return old + 1;
    case 6: return old - 1;
    case 7: return (T)Draw(300);
    case 8: return (T)-(int64_t)Draw(300);
    default: return (T)(uint64_t(1) << Draw(sizeof(T) * 8));
  }
}
double ExtremeF(double old) {
  static const double v[] = {0, 1e-300, 1, 40, 127.999999, 128, 128.5, 1e300, -1, INFINITY, NAN, 1e-9, 64.5, 100};
  int k = Draw(15);
  return k == 14 ? old / 2 : v[k];
}
void DamageScalar(Message* m, const FieldDescriptor* f, int i) {  // i < 0: singular
  const Reflection* r = m->GetReflection();
#define ONE(CPP, T, fn)                                                           \
  case FieldDescriptor::CPPTYPE_##CPP:                                            \
    if (i < 0) r->Set##T(m, f, fn(r->Get##T(*m, f)));                             \
    else r->SetRepeated##T(m, f, i, fn(r->GetRepeated##T(*m, f, i)));             \
    break;
  switch (f->cpp_type()) {
    ONE(INT32, Int32, Extreme<int32_t>)
    ONE(INT64, Int64, Extreme<int64_t>)
    ONE(UINT32, UInt32, Extreme<uint32_t>)
    ONE(UINT64, UInt64, Extreme<uint64_t>)
    ONE(DOUBLE, Double, ExtremeF)
    ONE(FLOAT, Float, ExtremeF)
    ONE(BOOL, Bool, !)
    case FieldDescriptor::CPPTYPE_ENUM: {
      int v = Draw(8) == 7 ? Extreme<int32_t>(0) : (int)Draw(4);
      if (i < 0) r->SetEnumValue(m, f, v);
      else r->SetRepeatedEnumValue(m, f, i, v);
      break;
    }
    case FieldDescriptor::CPPTYPE_STRING: {
      std::string s = i < 0 ? r->GetString(*m, f) : r->GetRepeatedString(*m, f, i);
      switch (Draw(5)) {
        case 0: s.clear(); break;
        case 1: s.resize(Draw(s.size() + 1)); break;
        case 2: s += Stream(Draw(1000), 0xe).Bytes(1 + Draw(40)); break;
        case 3: if (!s.empty()) s[Draw(s.size())] ^= 1 << Draw(8); break;
        case 4: s = Stream(Draw(1000), 0xf).Bytes(s.size()); break;
      }
      if (i < 0) r->SetString(m, f, s);
      else r->SetRepeatedString(m, f, i, s);
      break;
    }
    default: break;
  }
#undef ONE
}
}  // namespace

void DamageField(Message* m, const Message* donor) {
  Span sp;
  // Walk down: at each message, take one of its fields.
  for (int depth = 0; depth < 12; depth++) {
    const Reflection* r = m->GetReflection();
    const auto* d = m->GetDescriptor();
    if (d->field_count() == 0) return;
    if (donor && donor->GetDescriptor() != d) donor = nullptr;
    // Mostly fields that are present, sometimes any (switching oneofs).
    std::vector<const FieldDescriptor*> present;
    r->ListFields(*m, &present);
    const FieldDescriptor* f = present.empty() || Chance(1, 6) ? d->field(Draw(d->field_count())) : present[Draw(present.size())];
    bool msg = f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE;
    if (f->is_repeated()) {
      int n = r->FieldSize(*m, f);
      int how = Draw(8);
      if (n && how >= 4 && msg) {  // damage one element
        int i = Draw(n);
        const Message* di = donor && r->FieldSize(*donor, f) > i ? &r->GetRepeatedMessage(*donor, f, i) : nullptr;
        m = r->MutableRepeatedMessage(m, f, i);
        donor = di;
        continue;
      }
      if (n && how >= 4) {
        DamageScalar(m, f, Draw(n));
        return;
      }
      Count("fault:repeated-field");
      switch (how) {
        case 0:  // the last ones lost
          for (int k = 1 + Draw(n + 1); k > 0 && r->FieldSize(*m, f) > 0; k--) r->RemoveLast(m, f);
          return;
        case 1:
          if (n > 1) r->SwapElements(m, f, Draw(n), Draw(n));
          return;
        case 2:
          if (!msg) return;
          for (int k = 1 + Draw(4); k > 0; k--) {
            Message* e = r->AddMessage(m, f);
            if (n && Draw(2)) e->CopyFrom(r->GetRepeatedMessage(*m, f, Draw(n)));
          }
          return;
        case 3:
          if (donor) {
            r->ClearField(m, f);
            if (msg)
              for (int i = 0; i < r->FieldSize(*donor, f); i++) r->AddMessage(m, f)->CopyFrom(r->GetRepeatedMessage(*donor, f, i));
          } else {
            r->ClearField(m, f);
          }
          return;
        default:  // nothing to damage yet: add
          if (msg) r->AddMessage(m, f);
          return;
      }
    }
    if (msg) {
      int how = Draw(6);
      if (how == 0) {
        Count("fault:field-lost");
        r->ClearField(m, f);
        return;
      }
      if (how == 1 && donor && r->HasField(*donor, f)) {
        Count("fault:field-from-elsewhere");
        r->MutableMessage(m, f)->CopyFrom(r->GetMessage(*donor, f));
        return;
      }
      const Message* dn = donor && r->HasField(*donor, f) ? &r->GetMessage(*donor, f) : nullptr;
      bool had = r->HasField(*m, f);
      m = r->MutableMessage(m, f);
      donor = dn;
      if (!had && Draw(2)) return;  // an empty sub-message appears
      continue;
    }
    if (Draw(6) == 5) {
      Count("fault:field-lost");
      r->ClearField(m, f);
      return;
    }
    Count("fault:field-value");
    DamageScalar(m, f, -1);
    return;
  }
}

bool ReloadDamaged(const std::string& good, const std::vector<std::string>& donors, Message* out) {
  std::string s = good;
  if (Draw(3) == 2) {
    for (int k = 1 + Draw(2); k > 0; k--) s = DamageBytes(s, donors);
    if (!out->ParseFromString(s)) {
      Count("probe:unparsable");
      return false;
    }
    return true;
  }
  SIM_ASSERT(out->ParseFromString(good));
  std::unique_ptr<Message> donor(out->New());
  bool have = !donors.empty() && donor->ParseFromString(donors[Draw(donors.size())]);
  for (int k = 1 + Draw(3); k > 0; k--) DamageField(out, have ? donor.get() : nullptr);
  // As stored and read back.
  std::string t = out->SerializeAsString();
  SIM_ASSERT(out->ParseFromString(t));
  return true;
}
}  // namespace sim
