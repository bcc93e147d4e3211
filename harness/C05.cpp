// SRCS: utils/XYCut.cpp utils/MathUtils.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp Types.cpp
#include "elems.h"
#include "utils/XYCut.h"
using namespace ppp::types;
using namespace ppp::utils;
typedef std::vector<PdfElement*> Els;

static std::string show(const Els& v) { return gen::boxes(v); }
static std::multiset<PdfElement*> bag(const Els& v) { return {v.begin(), v.end()}; }
static bool wider(double gap, double mn) { return gap >= mn - 0.0001; }

// positions at which a cut may be made, given the order the elements were sorted into (grid coordinates: no ties near the tolerance)
static std::vector<size_t> refX(const Els& s, double mn, int k) {
  std::vector<size_t> out;
  for (size_t p = 1; p < s.size(); p++) {
    std::vector<double> rs;
    for (size_t i = 0; i < p; i++) if (s[i]->pos->leftX < s[p]->pos->leftX) rs.push_back(s[i]->pos->rightX); else rs.push_back(1e9);
    std::sort(rs.rbegin(), rs.rend());
    double r = rs[std::min<size_t>(k, rs.size() - 1)];
    if (wider(s[p]->pos->leftX - r, mn)) out.push_back(p);
  }
  return out;
}
static std::vector<size_t> refY(const Els& s, double mn) {
  std::vector<size_t> out;
  for (size_t p = 1; p < s.size(); p++) {
    double r = -1e9;
    for (size_t i = 0; i < p; i++) r = std::max(r, s[i]->pos->lowerY);
    if (s[p - 1]->pos->upperY < s[p]->pos->upperY && wider(s[p]->pos->upperY - r, mn)) out.push_back(p);
  }
  return out;
}

struct Strategy { int kind; Rng r; };
static void choose(Strategy& st, const std::vector<Cut*>& cuts) {
  for (size_t i = 0; i < cuts.size(); i++)
    if (st.kind == 0 || (st.kind == 2 && st.r.p(50)) || (st.kind == 3 && i == 0) || (st.kind == 4 && i + 1 == cuts.size())) cuts[i]->isChosen = true;
}

static void checkCuts(const std::string& h, bool x, const std::vector<Cut*>& cs, const Els& s, double mn, int k) {
  std::vector<size_t> pos;
  for (auto* c : cs) pos.push_back(c->posInElements);
  std::vector<size_t> want = x ? refX(s, mn, k) : refY(s, mn);
  std::ostringstream o;
  for (auto p : pos) o << p << " ";
  o << "expected ";
  for (auto p : want) o << p << " ";
  CHECK(x ? "x-cut candidates" : "y-cut candidates", pos == want, h << " sorted " << show(s) << " cut positions " << o.str());
  double lo = 1e18, hi = -1e18;
  for (auto* e : s) { lo = std::min(lo, x ? e->pos->upperY : e->pos->leftX); hi = std::max(hi, x ? e->pos->lowerY : e->pos->rightX); }
  for (auto* c : cs) {
    size_t p = c->posInElements;
    if (p < 1 || p >= s.size()) { CHECK("cut between two elements", false, h); continue; }
    CHECK("cut direction", c->dir == (x ? CutDir::X : CutDir::Y), h);
    CHECK("cut: element after", c->elementAfter == s[p], h);
    bool before = false;
    for (size_t i = 0; i < p; i++) before |= s[i] == c->elementBefore;
    CHECK("cut: element before", before, h);
    if (!before) continue;
    double a = x ? c->elementBefore->pos->rightX : c->elementBefore->pos->lowerY, b = x ? s[p]->pos->leftX : s[p]->pos->upperY;
    double gap = x ? c->gapWidth : c->gapHeight, at = x ? c->x1 : c->y1;
    CHECK("cut: gap", gap == b - a && wider(gap, mn), h << " gap " << gap);
    CHECK("cut: in the middle of the gap", at == (x ? c->x2 : c->y2) && std::fabs(at - (a + b) / 2) < 1e-9, h << " at " << at);
    CHECK("cut: extent", (x ? c->y1 : c->x1) == lo && (x ? c->y2 : c->x2) == hi, h);
    CHECK("cut: page", c->pageNum == s[p]->pos->pageNum, h);
    std::set<const PdfElement*> over(c->overlappingElements.begin(), c->overlappingElements.end());
    CHECK("cut: overlapped elements", int(c->overlappingElements.size()) <= (x ? k : 0), h);
    for (size_t i = 0; i < p; i++) {
      bool crosses = x ? s[i]->pos->rightX > a : s[i]->pos->lowerY > a;
      if (crosses) CHECK("cut: only the listed elements reach beyond it", over.count(s[i]), h << " sorted " << show(s) << " cut at " << at << " crosses " << gen::boxstr(s[i]));
    }
  }
}

void oneCase(uint64_t idx, Rng& r) {
  int n = r.p(5) ? 0 : r.p(15) ? r.i(17, 60) : r.i(1, 10);
  int style = r.i(0, 3);
  Els v;
  std::vector<std::unique_ptr<PdfElement>> own;
  double gx = r.pick(std::vector<double>{0.5, 1, 2, 3, 6}), gy = r.pick(std::vector<double>{0.5, 1, 2, 3, 6});
  int cols = r.i(1, 4), rows = r.i(1, 6), page = r.i(1, 9);
  for (int i = 0; i < n; i++) {
    PdfElement* e = new PdfFigure();
    own.emplace_back(e);
    double x, y, w, h;
    if (style == 0) { x = r.i(0, 20); y = r.i(0, 20); w = r.i(0, 4); h = r.i(0, 4); }
    else if (style == 1) { x = r.i(0, cols) * 10; y = r.i(0, rows) * 6; w = r.i(4, r.p(15) ? 14 : 8); h = r.i(2, 5); }
    else if (style == 2) { x = -r.i(0, 60) * 0.5; y = r.i(-20, 20) * 0.5; w = r.i(0, 6) * 0.5; h = r.i(0, 6) * 0.5; }
    else { x = r.i(0, 3) * 8; y = i * 3; w = r.p(10) ? 12 : 6; h = 2; }
    e->pos->leftX = x; e->pos->rightX = x + w; e->pos->upperY = y; e->pos->lowerY = y + h;
    e->pos->pageNum = page;
    v.push_back(e);
  }
  for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.i(0, i)]);
  if (n > 1 && r.p(5)) v.push_back(v[0]);       // the same element twice
  int k = r.p(60) ? 0 : r.i(1, 3);
  Strategy st{r.i(0, 4), Rng(r.next())};
  std::ostringstream hs; hs << "elements " << show(v) << " gapX " << gx << " gapY " << gy << " overlap " << k << " strategy " << st.kind;
  std::string h = hs.str();
  KIND(hashstr(h));
  const Els v0 = v;
  PdfFigure dummy;
  for (int axis = 0; axis < 2; axis++) {
    std::vector<std::vector<PdfElement*>> groups; std::vector<Cut*> cuts;
    Cut old(CutDir::X);
    if (r.p(30)) { groups.push_back({&dummy}); cuts.push_back(&old); }
    size_t g0 = groups.size(), c0 = cuts.size();
    bool wantG = !r.p(15), wantC = !r.p(15);
    int calls = 0; size_t chosen = 0; Els sorted; std::vector<Cut*> cand;
    ChooseCutsFunc f = [&](const std::vector<Cut*>& cs, const Els& s, bool) {
      calls++; sorted = s; cand = cs;
      CHECK("choosing sees all elements", bag(s) == bag(v0), h);
      for (size_t i = 1; i < s.size(); i++) CHECK("choosing sees sorted elements", axis == 0 ? s[i - 1]->pos->leftX <= s[i]->pos->leftX : s[i - 1]->pos->upperY <= s[i]->pos->upperY, h);
      checkCuts(h, axis == 0, cs, s, axis == 0 ? gx : gy, k);
      choose(st, cs);
      for (auto* c : cs) chosen += c->isChosen;
    };
    bool ok = axis == 0 ? xCut(v, gx, k, f, true, wantG ? &groups : nullptr, wantC ? &cuts : nullptr)
                        : yCut(v, gy, f, true, wantG ? &groups : nullptr, wantC ? &cuts : nullptr);
    CHECK("input unchanged", v == v0, h);
    CHECK("choosing is asked once", calls == (n ? 1 : 0), h);
    CHECK("result tells whether a cut was chosen", ok == (chosen > 0), h);
    if (wantG) {
      CHECK("groups: earlier groups stay", groups.size() >= g0 && (!g0 || groups[0] == Els{&dummy}), h);
      CHECK("groups: number", groups.size() - g0 == (n ? chosen + 1 : 0), h << " groups " << groups.size() - g0 << " chosen " << chosen);
      Els cat;
      for (size_t i = g0; i < groups.size(); i++) {
        CHECK("groups: none is empty", !groups[i].empty(), h);
        cat.insert(cat.end(), groups[i].begin(), groups[i].end());
      }
      CHECK("groups: the sorted elements divided at the cuts", cat == sorted || !n, h);
      CHECK("groups: exactly the elements", bag(cat) == bag(v0), h);
      size_t gi = g0, from = 0;
      for (auto* c : cand) if (c->isChosen && gi < groups.size()) { CHECK("groups: divided at the chosen cuts", groups[gi].size() == c->posInElements - from, h); from = c->posInElements; gi++; }
      if (k == 0)
        for (size_t i = g0; i + 1 < groups.size(); i++) {
          double far = -1e18, near = 1e18;
          for (auto* e : groups[i]) far = std::max(far, axis == 0 ? e->pos->rightX : e->pos->lowerY);
          for (auto* e : groups[i + 1]) near = std::min(near, axis == 0 ? e->pos->leftX : e->pos->upperY);
          CHECK("groups: separated by the gap", wider(near - far, axis == 0 ? gx : gy), h);
        }
    }
    if (wantC) {
      CHECK("cuts: earlier cuts stay", cuts.size() >= c0 && (!c0 || cuts[0] == &old), h);
      CHECK("cuts: all candidates are reported", std::vector<Cut*>(cuts.begin() + c0, cuts.end()) == cand, h);
    }
    for (auto* c : cand) delete c;
  }
  {
    std::vector<std::vector<PdfElement*>> groups; std::vector<Cut*> cuts;
    bool had = r.p(30);
    if (had) groups.push_back({&dummy});
    ChooseCutsFunc f = [&](const std::vector<Cut*>& cs, const Els& s, bool) { choose(st, cs); };
    bool wantC = !r.p(15);
    xyCut(v, gx, gy, k, f, f, true, &groups, wantC ? &cuts : nullptr);
    CHECK("xyCut: input unchanged", v == v0, h);
    CHECK("xyCut: earlier groups stay", !had || (!groups.empty() && groups[0] == Els{&dummy}), h);
    if (had && !groups.empty()) groups.erase(groups.begin());
    Els cat;
    for (auto& g : groups) { CHECK("xyCut: no empty group", !g.empty(), h); cat.insert(cat.end(), g.begin(), g.end()); }
    CHECK("xyCut: groups hold exactly the elements", bag(cat) == bag(v0), h << " groups " << groups.size());
    if (st.kind == 1 && n) CHECK("xyCut: no chosen cut, one group", groups.size() == 1 && groups[0] == v0, h);
    if (st.kind == 0 && k == 0)
      for (auto& g : groups) {
        Els s = g;
        std::sort(s.begin(), s.end(), [](PdfElement* a, PdfElement* b) { return a->pos->leftX < b->pos->leftX; });
        CHECK("xyCut: groups cannot be divided by x-cuts", refX(s, gx, 0).empty(), h << " group " << show(g));
        std::sort(s.begin(), s.end(), [](PdfElement* a, PdfElement* b) { return a->pos->upperY < b->pos->upperY; });
        CHECK("xyCut: groups cannot be divided by y-cuts", refY(s, gy).empty(), h << " group " << show(g));
      }
    for (auto* c : cuts) delete c;
  }
}
