// P04: what a Leader does with whatever its Helper (and its transport) returns.
// P05: what a Helper does with whatever reaches it.
#include <string.h>

#include "openssl/aes.h"
#include "pir_world.h"

namespace sim {
namespace {
// Independent reference: AES-128 in counter mode from a zero counter block,
// one running stream over all entries.
struct RefCtr {
  AES_KEY key;
  uint8_t ctr[16], block[16];
  int used = 16;
  explicit RefCtr(const std::string& seed) {
    memset(ctr, 0, 16);
    SIM_ASSERT(seed.size() == 16);
    AES_set_encrypt_key((const uint8_t*)seed.data(), 128, &key);
  }
  std::string Xor(std::string s) {
    for (auto& c : s) {
      if (used == 16) {
        AES_encrypt(ctr, block, &key);
        for (int i = 15; i >= 0; i--)
          if (++ctr[i]) break;
        used = 0;
      }
      c ^= block[used++];
    }
    return s;
  }
};

// A server whose own share is scripted: any counts, sizes, errors and delays.
struct Scripted : d::DpfPirServer {
  std::map<std::string, absl::StatusOr<PirResponse>>* script;  // by serialized plain request
  uint64_t plain_calls = 0;
  const d::PirServerPublicParams& GetPublicParams() const override {
    static d::PirServerPublicParams p;
    return p;
  }
  absl::StatusOr<PirResponse> HandlePlainRequest(const PirRequest& r) const override {
    if (CurTask() >= 0 && Draw(2)) Yield();
    if (!r.dpf_pir_request().has_plain_request()) return absl::InvalidArgumentError("scripted: not a plain request");
    auto it = script->find(r.SerializeAsString());
    if (it == script->end()) return absl::NotFoundError("scripted: unknown request");
    return it->second;
  }
  static std::unique_ptr<Scripted> Leader(decltype(script) s, d::DpfPirServer::ForwardHelperRequestFn f) {
    auto r = std::make_unique<Scripted>();
    r->script = s;
    auto st = r->MakeLeader(std::move(f));
    if (!st.ok()) Violate("make-leader", "%s", st.ToString().c_str());
    return r;
  }
  static std::unique_ptr<Scripted> Helper(decltype(script) s, d::DpfPirServer::DecryptHelperRequestFn f, std::string ctx) {
    auto r = std::make_unique<Scripted>();
    r->script = s;
    auto st = r->MakeHelper(std::move(f), ctx);
    // The caller's buffer is reused after construction.
    for (auto& c : ctx) c = '#';
    if (!st.ok()) Violate("make-helper", "%s", st.ToString().c_str());
    return r;
  }
};

std::vector<std::string> Entries(const PirResponse& r) {
  auto& m = r.dpf_pir_response().masked_response();
  return {m.begin(), m.end()};
}
PirResponse RandomResponse(Stream& st) {
  PirResponse r;
  r.mutable_dpf_pir_response();
  int n = Draw(6), big = Draw(40);
  if (big == 39) n = 20 + Draw(600);
  for (int i = 0; i < n; i++) {
    size_t len = Draw(3) ? Draw(20) : Draw(200);
    if (big == 37 || (big == 38 && i == 0)) len += big == 37 ? Draw(9000) : 60000 + Draw(9000);
    r.mutable_dpf_pir_response()->add_masked_response(st.Bytes(len));
  }
  return r;
}
absl::Status RandomError() {
  return absl::Status((absl::StatusCode)(1 + Draw(16)), "sim: injected");
}
PirRequest PlainOf(const d::DpfPirRequest::PlainRequest& p) {
  PirRequest r;
  *r.mutable_dpf_pir_request()->mutable_plain_request() = p;
  return r;
}

// One request in flight at the Leader.
struct Flight {
  PirRequest request;
  std::string encrypted;
  bool valid_type = true;
  absl::StatusOr<PirResponse> own = absl::UnknownError("unset");      // own share
  absl::StatusOr<PirResponse> replied = absl::UnknownError("unset");  // what the sender returned
  int ran = 0;
  int sender_calls = 0;
};

struct LeaderWorld {
  Kind kind;
  bool scripted = false;
  Dataset ds;
  Params params;
  std::unique_ptr<d::PirServer> leader, plain, helper;
  std::map<std::string, absl::StatusOr<PirResponse>> script, helper_script;
  std::map<std::string, Flight*> by_cipher;
  std::vector<PirResponse> old_replies;
  HybridKey key{7};
  uint64_t nonce = 1;
  int live = 0;

  absl::StatusOr<PirResponse> Send(const PirRequest& req, absl::AnyInvocable<void()> ww) {
    Span sp;
    if (req.dpf_pir_request().wrapped_request_case() != d::DpfPirRequest::kEncryptedHelperRequest)
      Violate("leader-forwards-wrong-type", "the Leader sent the Helper something other than an encrypted request");
    const std::string cipher = req.dpf_pir_request().encrypted_helper_request().encrypted_request();
    PirRequest expect;
    expect.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(cipher);
    if (expect.SerializeAsString() != req.SerializeAsString())
      Violate("leader-forwards-extra", "the message to the Helper carries more than the client's ciphertext");
    auto it = by_cipher.find(cipher);
    if (it == by_cipher.end()) Violate("leader-forwards-unknown", "the Leader forwarded a ciphertext no client sent");
    Flight* f = it->second;
    if (++f->sender_calls > 1) Violate("leader-forwards-twice", "one client request was forwarded twice");
    int when = Draw(3);
    bool run = !Chance(1, 8);
    auto maybe_run = [&] {
      if (!run) return;
      ww();
      f->ran++;
    };
    if (!run) {
      Count("fault:callback-not-run");
      NonTrivial();
    }
    if (when == 0) maybe_run();
    if (Draw(2)) Sleep(Draw(5000));
    if (when == 1) maybe_run();
    absl::StatusOr<PirResponse> r = helper ? helper->HandleRequest(req) : helper_script.at(cipher);
    int fault = Draw(16);
    if (fault >= 7) NonTrivial();
    switch (fault) {
      case 7: r = RandomError(); Count("fault:helper-error"); break;
      case 8: if (r.ok()) r->mutable_dpf_pir_response()->add_masked_response(std::string(Draw(30), 'x')); Count("fault:helper-extra-entry"); break;
      case 9: if (r.ok() && r->dpf_pir_response().masked_response_size()) r->mutable_dpf_pir_response()->mutable_masked_response()->RemoveLast(); Count("fault:helper-missing-entry"); break;
      case 10:
        if (r.ok() && r->dpf_pir_response().masked_response_size()) {
          auto* m = r->mutable_dpf_pir_response()->mutable_masked_response(Draw(r->dpf_pir_response().masked_response_size()));
          Draw(2) ? m->push_back('x') : m->resize(m->empty() ? 0 : Draw(m->size()));
        }
        Count("fault:helper-entry-resized");
        break;
      case 11:
        if (r.ok() && r->dpf_pir_response().masked_response_size() > 1) {
          // Total size is kept, entry sizes are not.
          auto* a = r->mutable_dpf_pir_response()->mutable_masked_response(0);
          auto* b = r->mutable_dpf_pir_response()->mutable_masked_response(1);
          if (!a->empty()) b->push_back(a->back()), a->pop_back();
        }
        Count("fault:helper-bytes-moved");
        break;
      case 12: r = PirResponse(); Count("fault:helper-empty-message"); break;
      case 13: {
        Stream st(cipher.size(), Draw(1000));
        r = RandomResponse(st);
        Count("fault:helper-garbage");
        break;
      }
      case 14:
        if (!old_replies.empty()) r = old_replies[Draw(old_replies.size())];
        Count("fault:helper-stale-reply");
        break;
      case 15:
        if (r.ok() && r->dpf_pir_response().masked_response_size() > 1)
          r->mutable_dpf_pir_response()->mutable_masked_response()->SwapElements(0, 1);
        Count("fault:helper-reordered");
        break;
      default: break;
    }
    if (Draw(2)) Sleep(Draw(5000));
    if (when == 2) maybe_run();
    if (run && Chance(1, 10)) maybe_run();  // run again: harmless
    if (r.ok()) old_replies.push_back(*r);
    f->replied = r;
    return r;
  }
};

void CheckLeader(Flight* f, const absl::StatusOr<PirResponse>& got) {
  if (!f->valid_type) {
    if (got.ok()) Violate("leader-accepts-malformed", "a request that is not a complete Leader request was answered");
    if (f->sender_calls) Violate("leader-forwards-malformed", "a malformed request reached the Helper");
    Count("probe:malformed-rejected");
    return;
  }
  if (!f->sender_calls) Violate("leader-skips-helper", "the Leader answered (%s) without contacting the Helper", StatusStr(got.status()).c_str());
  if (!f->replied.ok()) {
    if (got.ok()) Violate("leader-hides-helper-error", "the Helper call failed with %s but the client got an answer", StatusStr(f->replied.status()).c_str());
    if (got.status().code() != f->replied.status().code())
      Violate("leader-changes-error", "the Helper call failed with %s, the client saw %s", StatusStr(f->replied.status()).c_str(), StatusStr(got.status()).c_str());
    Count("probe:error-propagated");
    return;
  }
  if (!f->ran) {
    if (got.ok()) Violate("leader-without-share", "an answer was returned although the Leader's own share was never computed");
    Count("probe:not-run-rejected");
    return;
  }
  if (!f->own.ok()) {
    if (got.ok()) Violate("leader-hides-own-error", "the Leader's own share failed with %s but the client got an answer", StatusStr(f->own.status()).c_str());
    if (got.status().code() != f->own.status().code())
      Violate("leader-changes-error", "own share failed with %s, the client saw %s", StatusStr(f->own.status()).c_str(), StatusStr(got.status()).c_str());
    Count("probe:own-error-propagated");
    return;
  }
  auto a = Entries(*f->own), b = Entries(*f->replied);
  bool same_shape = a.size() == b.size();
  for (size_t i = 0; same_shape && i < a.size(); i++) same_shape = a[i].size() == b[i].size();
  if (!same_shape) {
    if (got.ok()) Violate("leader-combines-mismatch", "shares of different shape were combined");
    Count("probe:mismatch-rejected");
    return;
  }
  if (!got.ok()) Violate("leader-rejects-valid", "matching shares rejected: %s", got.status().ToString().c_str());
  auto g = Entries(*got);
  if (g.size() != a.size()) Violate("leader-wrong-count", "%zu entries instead of %zu", g.size(), a.size());
  for (size_t i = 0; i < a.size(); i++) {
    std::string want = a[i];
    for (size_t j = 0; j < want.size(); j++) want[j] ^= b[i][j];
    if (g[i] != want) Violate("leader-wrong-combination", "entry %zu of %zu is not the XOR of the two shares", i, a.size());
  }
  Count("probe:combined");
}

void RunLeader() {
  auto w = std::make_unique<LeaderWorld>();
  LeaderWorld* W = w.get();
  w->scripted = Draw(2) == 0;
  w->kind = (Kind)Draw(3);
  std::unique_ptr<AnyClient> client;
  auto sender = [W](const PirRequest& r, absl::AnyInvocable<void()> ww) { return W->Send(r, std::move(ww)); };
  if (w->scripted) {
    w->leader = Scripted::Leader(&w->script, sender);
  } else {
    DataShape sh;
    sh.max_records = 60;
    w->ds = MakeDataset(w->kind, Draw(1 << 20), sh);
    w->params = MakeParams(w->ds);
    ServerDeps ld, hd;
    ld.sender = sender;
    hd.decrypter = [W](absl::string_view c, absl::string_view ctx) {
      if (CurTask() >= 0 && Draw(2)) Yield();
      return HybridDecrypt(W->key, c, ctx);
    };
    auto l = MakeServer(w->params, w->ds.records, Role::kLeader, std::move(ld));
    auto h = MakeServer(w->params, w->ds.records, Role::kHelper, std::move(hd));
    auto p = MakeServer(w->params, w->ds.records, Role::kPlain, {});
    if (!l.ok() || !h.ok() || !p.ok()) Violate("server-start", "cannot start servers");
    w->leader = std::move(*l);
    w->helper = std::move(*h);
    w->plain = std::move(*p);
    auto c = MakeClient(w->params, [W](absl::string_view p, absl::string_view ctx) -> absl::StatusOr<std::string> {
      return HybridEncrypt(W->key, W->nonce++, p, ctx);
    });
    if (!c.ok()) Violate("client-create", "%s", c.status().ToString().c_str());
    client = std::move(*c);
  }
  int n = 1 + Draw(6);
  if (n > 1) NonTrivial();
  Node* node = NewNode("leader");
  std::vector<std::unique_ptr<Flight>> fl;
  for (int i = 0; i < n; i++) {
    fl.push_back(std::make_unique<Flight>());
    Flight* f = fl.back().get();
    Spawn("request" + std::to_string(i), node, [W, f, i, &client] {
      if (Draw(2)) Sleep(Draw(4000));
      Span sp;
      Stream st(i, 77);
      auto* lr = f->request.mutable_dpf_pir_request()->mutable_leader_request();
      if (W->scripted) {
        auto* k = lr->mutable_plain_request()->add_dpf_key();
        k->set_party(1);
        k->mutable_seed()->set_low(i + 1);
        f->encrypted = "cipher" + std::to_string(i);
        lr->mutable_encrypted_helper_request()->set_encrypted_request(f->encrypted);
        // The Leader's own share and a matching honest Helper share.
        if (Draw(5) == 4) {
          f->own = RandomError();
          Count("fault:own-share-error");
          NonTrivial();
        } else {
          f->own = RandomResponse(st);
        }
        W->script.emplace(PlainOf(lr->plain_request()).SerializeAsString(), f->own);
        PirResponse h = f->own.ok() ? *f->own : RandomResponse(st);
        for (auto& m : *h.mutable_dpf_pir_response()->mutable_masked_response()) m = st.Bytes(m.size());
        W->helper_script.emplace(f->encrypted, h);
      } else {
        std::vector<std::string> q;
        for (int k = 0, m = 1 + Draw(3); k < m; k++) q.push_back(W->ds.PresentQuery(st));
        auto r = client->Create(q);
        if (!r.ok()) Violate("request-rejected", "%s", r.status().ToString().c_str());
        f->request = r->first;
        lr = f->request.mutable_dpf_pir_request()->mutable_leader_request();
        f->encrypted = lr->encrypted_helper_request().encrypted_request();
        if (Draw(6) == 5) {
          // The Leader's share fails on its own, while the Helper is fine.
          Count("fault:own-share-error");
          NonTrivial();
          switch (Draw(3)) {
            case 0: lr->mutable_plain_request()->clear_dpf_key(); break;
            case 1: lr->mutable_plain_request()->mutable_dpf_key(0)->clear_correction_words(); lr->mutable_plain_request()->mutable_dpf_key(0)->clear_last_level_value_correction(); break;
            default: lr->mutable_plain_request()->mutable_dpf_key(0)->clear_seed();
          }
        }
        f->own = W->plain->HandleRequest(PlainOf(lr->plain_request()));
      }
      W->by_cipher[f->encrypted] = f;
      if (Draw(10) == 9) {
        f->valid_type = false;
        Count("fault:malformed-client-request");
        NonTrivial();
        auto plain = lr->plain_request();
        auto enc = lr->encrypted_helper_request();
        switch (Draw(5)) {
          case 0: f->request = PlainOf(plain); break;
          case 1: *f->request.mutable_dpf_pir_request()->mutable_encrypted_helper_request() = enc; break;
          case 2: lr->clear_plain_request(); break;
          case 3: lr->clear_encrypted_helper_request(); break;
          default: f->request.Clear();
        }
      }
      auto got = W->leader->HandleRequest(f->request);
      Log("request %d: own=%s helper=%s ran=%d -> %s", i, StatusStr(f->own.status()).c_str(), StatusStr(f->replied.status()).c_str(), f->ran,
          StatusStr(got.status()).c_str());
      State(Mix(HashStr(StatusStr(f->own.status()) + StatusStr(f->replied.status()) + StatusStr(got.status())), f->ran * 8 + f->valid_type));
      CheckLeader(f, got);
    });
  }
  RunAll();
}

// ------------------------------------------------------------------- helper
struct HelperWorld {
  Kind kind;
  bool scripted = false;
  Dataset ds;
  Params params;
  std::string ctx;
  HybridKey key{0x1234}, other{0x9999};
  uint64_t nonce = 1;
  std::unique_ptr<d::PirServer> helper, plain;
  std::map<std::string, absl::StatusOr<PirResponse>> script;
  std::map<std::string, int> outage;  // ciphertext -> injected decrypter error code
  uint64_t decrypts = 0;
};

void RunHelper() {
  auto w = std::make_unique<HelperWorld>();
  HelperWorld* W = w.get();
  w->scripted = Draw(2) == 0;
  w->kind = (Kind)Draw(3);
  auto decrypter = [W](absl::string_view c, absl::string_view ctx) -> absl::StatusOr<std::string> {
    W->decrypts++;
    if (std::string(ctx) != W->ctx) Violate("helper-wrong-context", "decrypter called with context %s instead of %s", Hex(std::string(ctx), 60).c_str(), Hex(W->ctx, 60).c_str());
    if (CurTask() >= 0 && Draw(2)) Sleep(Draw(3000));
    auto it = W->outage.find(std::string(c));
    if (it != W->outage.end()) return absl::Status((absl::StatusCode)it->second, "sim: key service down");
    return HybridDecrypt(W->key, c, ctx);
  };
  std::unique_ptr<AnyClient> client, wrong_ctx_client;
  std::map<std::string, std::string> plaintexts;
  if (w->scripted) {
    w->ctx = "context of run " + std::string(Draw(40), 'c');
    w->helper = Scripted::Helper(&w->script, decrypter, w->ctx);
  } else {
    DataShape sh;
    sh.max_records = 60;
    w->ds = MakeDataset(w->kind, Draw(1 << 20), sh);
    w->params = MakeParams(w->ds);
    w->ctx = Ctx(w->kind);
    ServerDeps hd;
    hd.decrypter = decrypter;
    auto h = MakeServer(w->params, w->ds.records, Role::kHelper, std::move(hd));
    auto p = MakeServer(w->params, w->ds.records, Role::kPlain, {});
    if (!h.ok() || !p.ok()) Violate("server-start", "cannot start servers");
    w->helper = std::move(*h);
    w->plain = std::move(*p);
    auto enc = [W](absl::string_view p, absl::string_view ctx) -> absl::StatusOr<std::string> { return HybridEncrypt(W->key, W->nonce++, p, ctx); };
    auto c = MakeClient(w->params, enc);
    auto c2 = MakeClient(w->params, enc, "another scheme");
    if (!c.ok() || !c2.ok()) Violate("client-create", "cannot create clients");
    client = std::move(*c);
    wrong_ctx_client = std::move(*c2);
  }
  Node* node = NewNode("helper");
  int n = 1 + Draw(6);
  if (n > 1) NonTrivial();
  for (int i = 0; i < n; i++) {
    Spawn("request" + std::to_string(i), node, [W, i, &client, &wrong_ctx_client] {
      if (Draw(2)) Sleep(Draw(4000));
      Span sp;
      Stream st(i, 78);
      // The client's encrypted message.
      std::string cipher;
      bool wrong_ctx = !W->scripted && Draw(12) == 11;
      if (W->scripted) {
        d::DpfPirRequest::HelperRequest h;
        auto* k = h.mutable_plain_request()->add_dpf_key();
        k->mutable_seed()->set_low(i + 1);
        h.set_one_time_pad_seed(st.Bytes(16));
        W->script.emplace(PlainOf(h.plain_request()).SerializeAsString(),
                          Draw(5) == 4 ? absl::StatusOr<PirResponse>(RandomError()) : absl::StatusOr<PirResponse>(RandomResponse(st)));
        cipher = HybridEncrypt(W->key, W->nonce++, h.SerializeAsString(), W->ctx);
      } else {
        std::vector<std::string> q;
        for (int k = 0, m = 1 + Draw(3); k < m; k++) q.push_back(W->ds.PresentQuery(st));
        auto r = (wrong_ctx ? wrong_ctx_client : client)->Create(q);
        if (!r.ok()) Violate("request-rejected", "%s", r.status().ToString().c_str());
        cipher = r->first.dpf_pir_request().leader_request().encrypted_helper_request().encrypted_request();
        if (wrong_ctx) {
          Count("fault:wrong-context");
          NonTrivial();
        }
      }
      int fault = Draw(14);
      absl::StatusOr<std::string> dec = HybridDecrypt(W->key, cipher, W->ctx);
      bool type_ok = true;
      PirRequest req;
      auto reencrypt = [&](const std::string& p) { cipher = HybridEncrypt(W->key, W->nonce++, p, W->ctx); };
      if (fault >= 7) NonTrivial();
      switch (fault) {
        case 7: cipher[Draw(cipher.size())] ^= 1 << Draw(8); Count("fault:ciphertext-flip"); break;
        case 8: cipher.resize(Draw(cipher.size())); Count("fault:ciphertext-truncated"); break;
        case 9: if (dec.ok()) cipher = HybridEncrypt(W->other, W->nonce++, *dec, W->ctx); Count("fault:wrong-key"); break;
        case 10: {
          // Bytes that are no message at all, or one with a cut or broken end.
          std::string junk = st.Bytes(Draw(60));
          if (dec.ok() && Draw(2)) {
            junk = *dec;
            switch (Draw(3)) {
              case 0: junk.resize(Draw(junk.size())); break;
              case 1: junk += st.Bytes(1 + Draw(3)); break;
              default: {
                // The pad seed first, then the request cut short.
                d::DpfPirRequest::HelperRequest h, pad;
                h.ParseFromString(*dec);
                pad.set_one_time_pad_seed(h.one_time_pad_seed());
                h.clear_one_time_pad_seed();
                std::string body = h.SerializeAsString();
                if (Draw(2)) {
                  junk = pad.SerializeAsString() + body.substr(0, Draw(body.size() + 1));
                } else {
                  static const char* tails[] = {"\x0a", "\x07", "\x1a\x05x", "\xff\xff"};
                  junk = pad.SerializeAsString() + body + tails[Draw(4)];
                }
              }
            }
          }
          reencrypt(junk);
          Count("fault:garbage-plaintext");
          break;
        }
        case 11:
          if (dec.ok()) {
            d::DpfPirRequest::HelperRequest h;
            h.ParseFromString(*dec);
            static const int sizes[] = {0, 1, 15, 17, 32, 8};
            h.set_one_time_pad_seed(st.Bytes(sizes[Draw(6)]));
            reencrypt(h.SerializeAsString());
          }
          Count("fault:bad-pad-seed");
          break;
        case 12:
          if (dec.ok()) {
            d::DpfPirRequest::HelperRequest h;
            h.ParseFromString(*dec);
            switch (Draw(3)) {
              case 0: h.clear_plain_request(); break;
              case 1: h.mutable_plain_request()->clear_dpf_key(); break;
              default: h.mutable_plain_request()->mutable_dpf_key(0)->clear_seed();
            }
            reencrypt(h.SerializeAsString());
          }
          Count("fault:bad-inner-request");
          break;
        case 13: W->outage[cipher] = 1 + Draw(16); Count("fault:decrypter-error"); break;
        default: break;
      }
      req.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(cipher);
      if (Draw(12) == 11) {
        type_ok = false;
        Count("fault:unencrypted-or-wrong-type");
        NonTrivial();
        d::DpfPirRequest::HelperRequest h;
        if (dec.ok()) h.ParseFromString(*dec);
        switch (Draw(3)) {
          case 0: req = PlainOf(h.plain_request()); break;
          case 1: {
            auto* lr = req.mutable_dpf_pir_request()->mutable_leader_request();
            *lr->mutable_plain_request() = h.plain_request();
            lr->mutable_encrypted_helper_request()->set_encrypted_request(cipher);
            break;
          }
          default: req.Clear();
        }
      }
      // Model.
      bool expect_ok = type_ok && !W->outage.count(cipher);
      absl::StatusOr<PirResponse> plain = absl::UnknownError("unset");
      std::string seed;
      if (expect_ok) {
        auto p = HybridDecrypt(W->key, cipher, W->ctx);
        d::DpfPirRequest::HelperRequest h;
        expect_ok = p.ok() && h.ParseFromString(*p);
        if (expect_ok) {
          PirRequest pr = PlainOf(h.plain_request());
          if (W->scripted) {
            auto it = W->script.find(pr.SerializeAsString());
            plain = it == W->script.end() ? absl::StatusOr<PirResponse>(absl::NotFoundError("x")) : it->second;
          } else {
            plain = W->plain->HandleRequest(pr);
          }
          seed = h.one_time_pad_seed();
          expect_ok = plain.ok() && seed.size() == 16;
        }
      }
      auto got = W->helper->HandleRequest(req);
      Log("request %d fault %d expect_ok %d -> %s", i, fault, expect_ok, StatusStr(got.status()).c_str());
      State(Mix(fault * 4 + expect_ok * 2 + type_ok, HashStr(StatusStr(got.status()))));
      if (!expect_ok) {
        if (got.ok()) Violate("helper-answers-bad-request", "a request that must be rejected (fault %d) was answered", fault);
        auto it = W->outage.find(cipher);
        if (type_ok && it != W->outage.end() && (int)got.status().code() != it->second)
          Violate("helper-changes-error", "decryption failed with code %d, caller saw %s", it->second, StatusStr(got.status()).c_str());
        Count("probe:rejected");
        return;
      }
      if (!got.ok()) Violate("helper-rejects-valid", "valid request rejected: %s", got.status().ToString().c_str());
      auto a = Entries(*plain), g = Entries(*got);
      if (a.size() != g.size()) Violate("helper-wrong-count", "%zu entries instead of %zu", g.size(), a.size());
      RefCtr ctr(seed);
      for (size_t k = 0; k < a.size(); k++) {
        std::string want = ctr.Xor(a[k]);
        if (g[k] != want) {
          bool clear = g[k] == a[k] && !a[k].empty();
          Violate(clear ? "helper-unmasked" : "helper-wrong-mask", "entry %zu of %zu (%zu bytes) is not its share under the client's pad%s", k, a.size(), a[k].size(),
                  clear ? ": it is in the clear" : "");
        }
      }
      Count("probe:masked");
    });
  }
  RunAll();
}
}  // namespace
SCENARIO(P04, leader, 1) { RunLeader(); }
SCENARIO(P05, helper, 1) { RunHelper(); }
}  // namespace sim
