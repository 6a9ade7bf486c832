// Sequences of evaluations of one context, legal and illegal by the documented
// rules, with the points their results refer to.
#ifndef SIM_DPF_PLAN_H_
#define SIM_DPF_PLAN_H_
#include <algorithm>
#include <set>
#include <vector>

#include "dpf_world.h"

namespace sim {
struct Step {
  enum Op { kUntil, kNext, kAt } op = kUntil;
  int level = 0;
  std::vector<U128> pts;   // prefixes or points
  std::vector<U128> outs;  // the points results refer to, in order
  bool illegal = false;    // must be refused
  const char* why = "";
  const DpfType* type = nullptr;
};

// What a context may be asked next, by the documented rules.
struct CtxModel {
  int prev = -1;
  bool everything = true;  // all prefixes are reachable
  int base_level = -1;
  std::vector<U128> base;
  bool finished = false;
};

class Planner {
 public:
  Planner(const DpfSetup& s, const DpfPair& p, Stream* st) : s_(s), p_(p), st_(*st) {}
  std::vector<Step> plan;

  U128 Hot(int level) { return Shr(p_.alpha, s_.logs.back() - s_.logs[level]); }
  // A value of `level` that extends the base.
  U128 Reachable(int level) {
    if (m.everything) return DrawPoint(st_, s_.logs[level], Hot(level));
    int gap = s_.logs[level] - s_.logs[m.base_level];
    U128 b = m.base[st_.Below(m.base.size())];
    if (st_.Below(3) == 0)
      for (U128 v : m.base)
        if (v == Hot(m.base_level)) b = v;
    U128 hot = b == Hot(m.base_level) ? Hot(level) : Shl(b, gap);
    return gap == 0 ? b : Shl(b, gap) | DrawPoint(st_, gap, hot & MaxOf(gap));
  }
  bool illegal_steps = true;
  void Run() {
    int budget = 1 + Draw(s_.levels() + 3);
    while (budget-- > 0) {
      Span sp;
      if (illegal_steps && Chance(1, 4)) Illegal();
      if (m.prev == s_.levels() - 1 && !(m.finished ? Chance(1, 4) : Chance(1, 3))) break;
      Legal();
    }
    if (illegal_steps && Chance(1, 3)) Illegal();
  }

 private:
  void Legal() {
    int n = s_.levels();
    Step st;
    int left = n - 1 - m.prev;
    int level = m.prev + 1 + (left > 1 ? Draw(std::min(left, 4)) : 0);
    bool at = level >= n || Chance(1, 2);
    if (level >= n) level = n - 1;
    int prev_log = m.prev < 0 ? 0 : s_.logs[m.prev];
    if (s_.logs[level] - prev_log > 10) at = true;
    st.level = level;
    if (at) {
      if (m.prev >= 0 && Chance(1, 5)) st.level = level = m.prev;  // again
      st.op = Step::kAt;
      int k = DrawCount(200);
      for (int i = 0; i < k; i++) st.pts.push_back(Reachable(level));
      st.outs = st.pts;
      if (k) {
        m.everything = false;
        m.base_level = level;
        m.base = st.pts;
        m.prev = level;
        m.finished = false;
      }
    } else if (m.prev < 0) {
      st.op = level == 0 && Chance(1, 2) ? Step::kNext : Step::kUntil;
      for (uint64_t i = 0; i < (uint64_t(1) << s_.logs[level]); i++) st.outs.push_back(i);
      m.prev = level;
      m.finished = level == n - 1;
    } else {
      st.op = level == m.prev + 1 && Chance(1, 2) ? Step::kNext : Step::kUntil;
      int gap = s_.logs[level] - prev_log;
      int cap = std::max(1, 2048 >> gap);
      if (prev_log <= 8 && m.everything && Chance(1, 3)) {
        for (uint64_t i = 0; i < (uint64_t(1) << prev_log) && (int)i < cap; i++) st.pts.push_back(i);
      } else {
        int k = std::max(1, DrawCount(std::min(cap, 150)));
        for (int i = 0; i < k; i++) st.pts.push_back(Reachable(m.prev));
        if (Chance(1, 2)) std::sort(st.pts.begin(), st.pts.end());
        if (Chance(1, 2)) {
          std::set<U128> seen;
          std::vector<U128> u;
          for (U128 v : st.pts)
            if (seen.insert(v).second) u.push_back(v);
          st.pts = u;
        }
      }
      for (U128 v : st.pts)
        for (uint64_t i = 0; i < (uint64_t(1) << gap); i++) st.outs.push_back(Shl(v, gap) | i);
      m.everything = false;
      m.base_level = m.prev;
      m.base = st.pts;
      m.prev = level;
      m.finished = level == n - 1;
      if (m.finished) m.everything = true;  // only evaluation at points, from the key
    }
    st.type = s_.types[level];
    plan.push_back(std::move(st));
  }
  void Illegal() {
    size_t before = plan.size();
    for (int t = 0; t < 4 && plan.size() == before; t++) IllegalOnce();
  }
  void IllegalOnce() {
    int n = s_.levels();
    Step st;
    st.illegal = true;
    st.level = std::min(n - 1, m.prev + 1);
    st.type = s_.types[st.level];
    if (m.prev >= 0) st.pts.push_back(Reachable(m.prev));
    switch (Draw(12)) {
      case 0:
        if (m.prev < 0) return;
        st.level = Draw(m.prev + 1);
        st.why = "level not after the previous one";
        break;
      case 1: {
        static const int bad[] = {-1, 0, 1, 1000, -2147483647};
        int b = bad[Draw(5)];
        st.level = b == 0 || b == 1 ? n + b : b;
        if (Chance(1, 2)) st.op = Step::kAt;
        st.why = "level out of range";
        break;
      }
      case 2:
        if (m.prev < 0) st.pts = {U128(0)}, st.why = "prefixes on a fresh context";
        else st.pts.clear(), st.why = "no prefixes on a used context";
        break;
      case 3:
        if (m.prev < 0 || s_.logs[m.prev] >= 128 || m.finished) return;
        st.pts.push_back(BeyondDomain(st_, s_.logs[m.prev], Reachable(m.prev)));
        st.why = "prefix outside the domain";
        break;
      case 4: {
        if (m.prev < 0 || m.everything || m.finished || s_.logs[m.base_level] < 9) return;
        std::set<U128> near;
        for (U128 b : m.base) near.insert(b >> 7);
        U128 v = Rand128(st_, s_.logs[m.base_level]);
        if (near.count(v >> 7)) return;
        st.pts.push_back(Shl(v, s_.logs[m.prev] - s_.logs[m.base_level]));
        if (Chance(1, 2)) st.pts = {st.pts.back()};
        st.why = "prefix that was not evaluated";
        break;
      }
      case 5: {
        const DpfType* t = Types()[Draw(Types().size())];
        if (t == st.type || m.finished || m.prev >= n - 1) return;
        if (s_.logs[st.level] - (m.prev < 0 ? 0 : s_.logs[m.prev]) > 10) return;
        st.type = t;
        st.why = "another value type";
        break;
      }
      case 6: {
        if (s_.logs[st.level] >= 128) return;
        st.op = Step::kAt;
        if (m.prev < 0 || m.finished) st.pts.clear();
        else st.pts = {Reachable(st.level)};
        st.pts.insert(st.pts.begin() + st_.Below(st.pts.size() + 1), BeyondDomain(st_, s_.logs[st.level], Reachable(st.level)));
        st.why = "point outside the domain";
        break;
      }
      case 7: {
        if (m.prev < 0 || m.everything || s_.logs[m.base_level] < 9) return;
        std::set<U128> near;
        for (U128 b : m.base) near.insert(b >> 7);
        U128 v = Rand128(st_, s_.logs[m.base_level]);
        if (near.count(v >> 7)) return;
        st.op = Step::kAt;
        st.level = m.prev;
        st.type = s_.types[st.level];
        st.pts = {Reachable(m.prev), Shl(v, s_.logs[m.prev] - s_.logs[m.base_level])};
        st.why = "point whose prefix was not evaluated";
        break;
      }
      case 10:
      case 11:
      case 8: {
        int prev_log = m.prev < 0 ? 0 : s_.logs[m.prev];
        st.level = n - 1;
        st.type = s_.types[n - 1];
        if (m.prev >= 0 && !m.finished) {
          for (int l = m.prev + 1; l < n; l++) {
            int gap = s_.logs[l] - prev_log;
            if (gap < 50 || gap >= 63) continue;
            st.level = l;
            st.type = s_.types[l];
            st.pts.assign(size_t(1) << (63 - gap), Reachable(m.prev));
            st.why = "too many outputs";
          }
          if (*st.why) break;
        }
        if (s_.logs[n - 1] - prev_log < 63) return;
        st.why = "domain gap too large";
        break;
      }
      case 9:
        if (!m.finished) return;
        st.level = n - 1;
        st.pts = {U128(0)};
        st.why = "finished context";
        break;
    }
    plan.push_back(std::move(st));
  }
  const DpfSetup& s_;
  const DpfPair& p_;
  Stream& st_;
  CtxModel m;
};
}  // namespace sim
#endif
