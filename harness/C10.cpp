// SRCS: ReadingOrderDetection.cpp utils/XYCut.cpp utils/MathUtils.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp Types.cpp
// FLAGS: -fno-access-control
#include "elems.h"
#include "ReadingOrderDetection.h"
#include "utils/XYCut.h"
using namespace ppp::types;
using namespace ppp::utils;
typedef std::vector<PdfElement*> Els;
typedef std::vector<Cut*> Cuts;

// The model for the semantic roles needs TensorFlow: the roles are given by the harness.
namespace ppp::modules {
SemanticRolesPrediction::SemanticRolesPrediction(const SemanticRolesPredictionConfig* c) { _config = c; }
SemanticRolesPrediction::~SemanticRolesPrediction() = default;
void SemanticRolesPrediction::predict(const PdfDocument*) {}
}

// the rules, written from the description of the classes
struct Oracle {
  PdfDocument* d;
  double lo[2], hi[2];
  void page(const Els& es) {
    lo[0] = lo[1] = 1e300; hi[0] = hi[1] = -1e300;
    for (auto* e : es) {
      lo[0] = std::min(lo[0], e->pos->leftX); hi[0] = std::max(hi[0], e->pos->rightX);
      lo[1] = std::min(lo[1], e->pos->upperY); hi[1] = std::max(hi[1], e->pos->lowerY);
    }
  }
  bool across(const PdfElement* e, int a) {
    if (!dynamic_cast<const PdfNonTextElement*>(e)) return false;
    double l = a ? e->pos->upperY : e->pos->leftX, h = a ? e->pos->lowerY : e->pos->rightX, mid = lo[a] + (hi[a] - lo[a]) / 2;
    return h - l > 10 * (a ? d->avgCharHeight : d->avgCharWidth) && l < mid && h > mid;
  }
  static bool turned(const PdfElement* e) { return dynamic_cast<const PdfTextBlock*>(e) && (e->pos->rotation != 0 || e->pos->wMode != 0); }
  static int special(const PdfElement* e) {
    auto* b = dynamic_cast<const PdfTextBlock*>(e);
    if (!b) return 0;
    return b->role == SemanticRole::TITLE ? 1 : b->role == SemanticRole::AUTHOR_INFO ? 2 : b->role == SemanticRole::MARGINAL ? 3 : 0;
  }
  std::vector<bool> px(const Cuts& cs) {
    std::vector<bool> v;
    for (auto* c : cs) v.push_back(turned(c->elementBefore) || turned(c->elementAfter) || across(c->elementBefore, 1) || across(c->elementAfter, 1));
    return v;
  }
  std::vector<bool> py(const Cuts& cs) {
    std::vector<bool> v;
    for (auto* c : cs) v.push_back(special(c->elementBefore) != special(c->elementAfter) || across(c->elementBefore, 0) || across(c->elementAfter, 0));
    return v;
  }
  static bool divisible(const Els& es) {
    return xCut(es, 0, 0, [](const Cuts& cs, const Els&, bool) { for (auto* c : cs) c->isChosen = true; }, true);
  }
  // the topmost cut below which x-cuts are possible, the lowest one (not below it) above which they are, and pairs of cuts
  // between these two between which they are, each upper cut with the lowest lower cut
  std::vector<bool> ys(const Cuts& cs, const Els& es) {
    std::vector<bool> v(cs.size(), false);
    auto part = [&](size_t a, size_t b) { return Els(es.begin() + a, es.begin() + b); };
    size_t last = cs.size() - 1, first = 0;
    for (size_t i = 0; i < cs.size(); i++) if (divisible(part(cs[i]->posInElements, es.size()))) { v[i] = true; last = i; break; }
    for (size_t k = 0; k <= last; k++) { size_t i = last - k; if (divisible(part(0, cs[i]->posInElements))) { v[i] = true; first = i; break; } }
    for (size_t i = first; i < last; i++)
      for (size_t j = last; j > i; j--)
        if (divisible(part(cs[i]->posInElements, cs[j]->posInElements))) { v[i] = v[j] = true; i = j; break; }
    return v;
  }
};

void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d;
  d.avgCharWidth = r.pick(std::vector<double>{0.5, 1, 0.2}); d.avgCharHeight = r.pick(std::vector<double>{0.5, 1, 0.2});
  ppp::config::ReadingOrderDetectionConfig cfg;
  ppp::config::SemanticRolesPredictionConfig cfg2;
  std::ostringstream o; o.precision(17);
  o << "char " << d.avgCharWidth << "x" << d.avgCharHeight;
  int np = r.i(0, 2);
  std::vector<Els> all(np);
  std::vector<SemanticRole> roles = {SemanticRole::TITLE, SemanticRole::AUTHOR_INFO, SemanticRole::MARGINAL};
  for (int p = 0; p < np; p++) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = p + 1;
    o << " | page " << p + 1;
    int n = r.p(10) ? 0 : r.i(1, r.p(20) ? 30 : 12), layout = r.i(0, 2);
    double colw = r.pick(std::vector<double>{8, 12}), gut = r.pick(std::vector<double>{0, 1, 2});
    for (int i = 0; i < n; i++) {
      double x, y, w, h;
      int cols = layout + 1, c = r.i(0, cols - 1);
      if (layout == 0) { x = r.i(0, 30); y = r.i(0, 30); w = r.i(0, 12); h = r.i(0, 8); }
      else { x = c * (colw + gut); w = colw; y = r.i(0, 10) * 2; h = r.pick(std::vector<double>{1, 2, 4}); if (r.p(12)) { x = 0; w = cols * colw + (cols - 1) * gut; h = 1; } }
      int kind = r.p(70) ? 0 : r.i(1, 3);
      PdfElement* e;
      if (kind == 0) {
        auto* t = new PdfTextBlock(); page->blocks.push_back(t); e = t; t->rank = i;
        if (r.p(25)) { int k = r.i(0, 2); t->role = roles[k]; o << " role" << k; }
        if (r.p(6)) t->pos->rotation = r.i(1, 3);
        if (r.p(4)) t->pos->wMode = 1;
      }
      else if (kind == 1) { auto* t = new PdfFigure(); page->figures.push_back(t); e = t; }
      else if (kind == 2) { auto* t = new PdfGraphic(); page->graphics.push_back(t); e = t; }
      else { auto* t = new PdfShape(); page->shapes.push_back(t); e = t; if (r.p(50)) { if (r.p(50)) { h = 0; w = r.i(0, 30); } else { w = 0; h = r.i(0, 30); } } }
      e->doc = &d; e->pos->pageNum = p + 1; e->pos->leftX = x; e->pos->rightX = x + w; e->pos->upperY = y; e->pos->lowerY = y + h;
      o << " " << "bfgs"[kind] << gen::boxstr(e) << (e->pos->wMode ? "w1" : "");
    }
    for (auto* w : page->blocks) all[p].push_back(w);
    for (auto* w : page->figures) all[p].push_back(w);
    for (auto* w : page->shapes) all[p].push_back(w);
  }
  std::string h = o.str();
  KIND(hashstr(h));
  ppp::modules::ReadingOrderDetection rod(&d, &cfg, &cfg2);
  Oracle orc{&d};
  std::vector<std::vector<Els>> want(np);
  enum { PX, PY, X, Y };
  for (int p = 0; p < np; p++) {
    orc.page(all[p]);
    rod._pageElementsMinX = orc.lo[0]; rod._pageElementsMaxX = orc.hi[0]; rod._pageElementsMinY = orc.lo[1]; rod._pageElementsMaxY = orc.hi[1];
    auto run = [&](int k) {
      return [&, k](const Cuts& cs, const Els& es, bool silent) {
        if (cs.empty() || es.empty()) return;
        auto v = k == PX ? orc.px(cs) : k == PY ? orc.py(cs) : k == X ? std::vector<bool>(cs.size(), true) : orc.ys(cs, es);
        if (k == PX) rod.choosePrimaryXCuts(cs, es, silent); else if (k == PY) rod.choosePrimaryYCuts(cs, es, silent); else if (k == X) rod.chooseXCuts(cs, es, silent); else rod.chooseYCuts(cs, es, silent);
        for (size_t i = 0; i < cs.size(); i++) {
          CHECK(k == PX ? "primary x-cuts" : k == PY ? "primary y-cuts" : k == X ? "all x-cuts are chosen" : "exactly the y-cuts around groups that x-cuts divide are chosen", cs[i]->isChosen == v[i], h << " page " << p + 1 << " cut " << i << " at element " << cs[i]->posInElements << " of " << gen::boxes(es) << " chosen " << cs[i]->isChosen);
          cs[i]->isChosen = v[i];
        }
      };
    };
    std::vector<Els> a, b;
    xCut(all[p], 0, 0, run(PX), true, &a, nullptr);
    for (auto& g : a) yCut(g, 0, run(PY), true, &b, nullptr);
    for (auto& g : b) xyCut(g, 0, 0, 0, run(X), run(Y), true, &want[p], nullptr);
  }
  std::vector<std::vector<PdfTextBlock*>> before;
  for (auto* pg : d.pages) before.push_back(pg->blocks);
  rod.process();
  for (int p = 0; p < np; p++) {
    auto& bs = d.pages[p]->blocks;
    CHECK("the blocks of the page are only reordered", std::multiset<PdfTextBlock*>(bs.begin(), bs.end()) == std::multiset<PdfTextBlock*>(before[p].begin(), before[p].end()), h << " page " << p + 1 << " had " << before[p].size() << " blocks, has " << bs.size());
    // group by group, each from top to bottom
    size_t i = 0;
    for (auto& g : want[p]) {
      std::multiset<PdfElement*> exp;
      for (auto* e : g) if (dynamic_cast<PdfTextBlock*>(e)) exp.insert(e);
      std::multiset<PdfElement*> got;
      bool sorted = true;
      for (size_t k = 0; k < exp.size() && i < bs.size(); k++, i++) { got.insert(bs[i]); if (k > 0 && bs[i - 1]->pos->upperY > bs[i]->pos->upperY) sorted = false; }
      CHECK("blocks follow the order of the groups", got == exp, h << " page " << p + 1 << " before block " << i);
      CHECK("blocks of a group are ordered from top to bottom", sorted, h << " page " << p + 1 << " before block " << i);
    }
    for (auto* c : d.pages[p]->readingOrderCuts) CHECK("recorded cuts are on the page", c && c->elementBefore && c->elementAfter && c->pageNum == p + 1, h);
  }
}
