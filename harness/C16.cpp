// SRCS: utils/MathUtils.cpp utils/Counter.cpp
#include "common.h"
#include "utils/Counter.h"
using ppp::utils::counter::DoubleCounter;
using ppp::utils::counter::StringCounter;
template <class C, class K> struct Model { std::map<K, unsigned> m; };
template <class F> static bool throwsRt(F f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }
template <class C, class K> static void checkCommon(C& c, const std::map<K, unsigned>& m, const std::string& hist) {
  unsigned best = 0, sum = 0;
  for (auto& e : m) { best = std::max(best, e.second); sum += e.second; }
  CHECK("sumCounts", c.sumCounts() == sum, hist << " sum " << c.sumCounts() << " expected " << sum);
  bool t1 = throwsRt([&] { c.mostFreq(); }), t2 = throwsRt([&] { c.mostFreqCount(); }), t3 = throwsRt([&] { c.mostFreqAndCount(); });
  CHECK("throws exactly when nothing is counted", t1 == (best == 0) && t2 == (best == 0) && t3 == (best == 0), hist);
  if (best && !t1 && !t2 && !t3) {
    K k = c.mostFreq();
    CHECK("mostFreq", m.count(k) && m.at(k) == best, hist << " -> " << k);
    CHECK("mostFreqCount", c.mostFreqCount() == best, hist << " -> " << c.mostFreqCount());
    auto p = c.mostFreqAndCount();
    CHECK("mostFreqAndCount", m.count(p.first) && m.at(p.first) == best && p.second == best, hist << " -> " << p.first << "," << p.second);
  }
}
void oneCase(uint64_t idx, Rng& r) {
  DoubleCounter dc; StringCounter sc;
  std::map<double, unsigned> dm; std::map<std::string, unsigned> sm;
  std::ostringstream h; h.precision(17);
  int n = r.i(0, 12);
  int style = r.i(0, 5);
  for (int k = 0; k < n; k++) {
    double x = style == 0 ? r.i(-5, 5) : style == 1 ? r.i(0, 100) * 0.1 : style == 2 ? -r.d(0, 100) : style == 3 ? r.d(-1e6, 1e6) : style == 4 ? r.d(0, 1) * 1e-5 : 10 + r.i(-2, 2) * 0.00005;
    std::string s = std::string(size_t(r.i(0, 2)), char('a' + r.i(0, 2)));
    unsigned op = r.i(0, 3), v = r.p(20) ? 0 : r.p(5) ? 4000000000u : r.i(1, 5);
    if (op == 0) { dc[x] = v; dm[x] = v; sc[s] = v; sm[s] = v; }
    else if (op == 1 || !dm[x] || !sm[s]) { dc[x]++; dm[x]++; sc[s]++; sm[s]++; }
    else if (op == 2) { dc[x]--; dm[x]--; sc[s]--; sm[s]--; }
    else { dc[x] += v; dm[x] += v; sc[s] += v; sm[s] += v; }
    h << "[" << x << "]=" << dm[x] << " [\"" << s << "\"]=" << sm[s] << " ";
  }
  KIND(hashstr(h.str()));
  checkCommon(dc, dm, "DoubleCounter " + h.str());
  checkCommon(sc, sm, "StringCounter " + h.str());
  bool any = false; double mx = 0;
  for (auto& e : dm) if (e.second > 0) { mx = any ? std::max(mx, e.first) : e.first; any = true; }
  bool t = throwsRt([&] { dc.max(); });
  CHECK("max throws exactly when nothing is counted", t == !any, h.str());
  if (any && !t) {
    double g = dc.max();
    CHECK("max is a counted key", dm.count(g) && dm[g] > 0, h.str() << " -> " << g);
    CHECK("max is maximal up to the tolerance", mx <= g + 0.0001, h.str() << " -> " << g << " expected " << mx);
  }
}
