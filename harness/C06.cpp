// SRCS: PageSegmentation.cpp utils/PageSegmentationUtils.cpp utils/XYCut.cpp utils/MathUtils.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp utils/Log.cpp utils/Counter.cpp Types.cpp
// FLAGS: -fno-access-control
#include "elems.h"
#include "PageSegmentation.h"
#include "utils/XYCut.h"
using namespace ppp::types;
using namespace ppp::utils;
typedef std::vector<PdfElement*> Els;
typedef std::vector<Cut*> Cuts;
static bool lt(double a, double b) { return a < b - 0.0001; }

// the rules, written from the documentation of the configuration
struct Oracle {
  PdfDocument* d; ppp::config::PageSegmentationConfig* cfg;
  static double yoverlap(const PdfElement* a, const PdfElement* b) {
    double ov = std::max(0.0, std::min(a->pos->lowerY, b->pos->lowerY) - std::max(a->pos->upperY, b->pos->upperY));
    double ha = a->pos->lowerY - a->pos->upperY, hb = b->pos->lowerY - b->pos->upperY;
    return std::max(ha > 0 ? ov / ha : 0, hb > 0 ? ov / hb : 0);
  }
  bool rejected(const Cut* prev, const Cut* c, const Els& es) {
    if (!c->overlappingElements.empty()) {
      if (es.size() < cfg->overlappingMinNumElements) return true;
      for (auto* e : c->overlappingElements)
        if (lt(e->pos->upperY - c->y1, 5 * d->avgCharHeight) || lt(c->y2 - e->pos->lowerY, 5 * d->avgCharHeight)) return true;
    }
    if (lt(c->gapWidth, 2 * d->avgCharWidth) && lt(c->gapHeight, 6 * d->avgCharHeight)) return true;
    if (auto* l = dynamic_cast<const PdfWord*>(c->elementBefore))
      for (size_t i = c->posInElements; i < es.size(); i++) {
        auto* w = dynamic_cast<PdfWord*>(es[i]);
        if (w && w->rank == l->rank + 1 && !lt(yoverlap(l, w), cfg->contiguousWordsYOverlapRatioThreshold)) return true;
      }
    double left = c->elementBefore->pos->rightX - (prev ? prev->elementAfter : es[0])->pos->leftX, right = es.back()->pos->rightX - c->elementAfter->pos->leftX;
    return lt(left, 10 * d->avgCharWidth) || lt(right, 10 * d->avgCharWidth);
  }
  std::vector<bool> xs(const Cuts& cs, const Els& es) {
    std::vector<bool> out;
    const Cut* prev = nullptr;
    for (auto* c : cs) { out.push_back(!rejected(prev, c, es)); if (out.back()) prev = c; }
    return out;
  }
  bool splits(const Els& es) {
    return xCut(es, 2 * d->mostFreqWordDistance, cfg->xCutMaxNumOverlappingElements, [&](const Cuts& cs, const Els& e, bool) {
      if (e.empty()) return;
      auto v = xs(cs, e);
      for (size_t i = 0; i < cs.size(); i++) cs[i]->isChosen = v[i];
    }, true);
  }
  // from each boundary take the last one that can be reached so that everything in between can be divided by x-cuts
  std::vector<bool> ys(const Cuts& cs, const Els& es) {
    std::vector<size_t> pos = {0};
    for (auto* c : cs) pos.push_back(c->posInElements);
    pos.push_back(es.size());
    std::vector<bool> out(pos.size(), false);
    for (size_t i = 0; i < pos.size();) {
      size_t j = i;
      while (j + 1 < pos.size() && splits(Els(es.begin() + pos[i], es.begin() + pos[j + 1]))) j++;
      if (j > i) out[i] = out[j] = true;
      i = j + 1;
    }
    return {out.begin() + 1, out.end() - 1};
  }
};

void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d;
  d.avgCharWidth = r.pick(std::vector<double>{0.5, 1, 0.25}); d.avgCharHeight = r.pick(std::vector<double>{0.5, 1, 0.2}); d.mostFreqWordDistance = r.pick(std::vector<double>{0.5, 1, 2});
  ppp::config::PageSegmentationConfig cfg;
  cfg.overlappingMinNumElements = r.pick(std::vector<size_t>{500, 3, 6, 0});
  cfg.xCutMaxNumOverlappingElements = r.pick(std::vector<double>{1, 1, 0, 2});
  if (r.p(20)) cfg.contiguousWordsYOverlapRatioThreshold = r.pick(std::vector<double>{0, 0.5, 1});
  std::ostringstream o; o.precision(17);
  o << "char " << d.avgCharWidth << "x" << d.avgCharHeight << " dist " << d.mostFreqWordDistance << " minNum " << cfg.overlappingMinNumElements << " maxOverlap " << cfg.xCutMaxNumOverlappingElements;
  int np = r.i(0, 2);
  std::vector<Els> all(np);
  for (int p = 0; p < np; p++) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = p + 1;
    o << " | page " << p + 1;
    int n = r.p(10) ? 0 : r.i(1, r.p(20) ? 40 : 14), layout = r.i(0, 3), rank = 0;
    double colw = r.pick(std::vector<double>{12, 16, 20}), gut = r.pick(std::vector<double>{0, 1, 2, 4});
    for (int i = 0; i < n; i++) {
      double x, y, w, h;
      if (layout == 0) { x = r.i(0, 40); y = r.i(0, 30); w = r.i(0, 14); h = r.i(0, 4); }
      else {
        int cols = layout == 1 ? 2 : 3, c = r.i(0, cols - 1);
        x = c * (colw + gut) + (r.p(60) ? 0 : r.i(0, 4)); w = (r.p(50) ? colw : colw / 2) - (x - c * (colw + gut)); y = r.i(0, 14) * 2; h = r.pick(std::vector<double>{1, 2, 1.5});
        if (r.p(12)) { x = 0; w = cols * colw + (cols - 1) * gut; y = r.p(50) ? 0 : r.i(0, 16) * 2; }
        if (layout == 3 && r.p(30)) { x -= 0.5; w += r.i(0, 3); }
      }
      int kind = r.p(70) ? 0 : r.i(1, 3);
      PdfElement* e;
      if (kind == 0) { auto* t = new PdfWord(); page->words.push_back(t); e = t; t->rank = r.p(85) ? rank++ : r.i(0, n); }
      else if (kind == 1) { auto* t = new PdfFigure(); page->figures.push_back(t); e = t; }
      else if (kind == 2) { auto* t = new PdfGraphic(); page->graphics.push_back(t); e = t; }
      else { auto* t = new PdfShape(); page->shapes.push_back(t); e = t; }
      e->doc = &d; e->pos->pageNum = p + 1; e->pos->leftX = x; e->pos->rightX = x + std::max(0.0, w); e->pos->upperY = y; e->pos->lowerY = y + h;
      o << " " << "wfgs"[kind] << (kind == 0 ? std::to_string(e->rank) : "") << gen::boxstr(e);
    }
    for (auto* w : page->words) all[p].push_back(w);
    for (auto* w : page->figures) all[p].push_back(w);
    for (auto* w : page->graphics) all[p].push_back(w);
    for (auto* w : page->shapes) all[p].push_back(w);
    if (r.p(10)) page->segments.push_back(new PdfPageSegment());
  }
  std::string h = o.str();
  KIND(hashstr(h));
  ppp::modules::PageSegmentation ps(&d, &cfg);
  Oracle orc{&d, &cfg};
  // every decision of the real rules, compared with the oracle
  std::vector<std::vector<Els>> want(np);
  for (int p = 0; p < np; p++) {
    auto run = [&](bool x) {
      return [&, x](const Cuts& cs, const Els& es, bool silent) {
        auto v = x ? orc.xs(cs, es) : orc.ys(cs, es);
        if (x) ps.chooseXCuts(cs, es, silent); else ps.chooseYCuts(cs, es, silent);
        for (size_t i = 0; i < cs.size(); i++) {
          CHECK(x ? "exactly the x-cuts that no rule rejects are chosen" : "exactly the y-cuts around groups that x-cuts divide are chosen", cs[i]->isChosen == v[i], h << " page " << p + 1 << " cut " << i << " at element " << cs[i]->posInElements << " of " << gen::boxes(es) << " chosen " << cs[i]->isChosen);
          cs[i]->isChosen = v[i];
        }
      };
    };
    xyCut(all[p], 2 * d.mostFreqWordDistance, 2.0, cfg.xCutMaxNumOverlappingElements, run(true), run(false), true, &want[p], nullptr);
  }
  std::vector<std::vector<PdfPageSegment*>> before;
  for (auto* pg : d.pages) before.push_back(pg->segments);
  ps.process();
  for (int p = 0; p < np; p++) {
    auto& segs = d.pages[p]->segments;
    bool keep = segs.size() >= before[p].size() && std::equal(before[p].begin(), before[p].end(), segs.begin());
    CHECK("segments found before stay", keep, h);
    if (!keep) continue;
    std::multiset<PdfElement*> got, exp(all[p].begin(), all[p].end());
    std::vector<Els> groups;
    for (size_t i = before[p].size(); i < segs.size(); i++) {
      auto& es = segs[i]->elements;
      CHECK("no segment is empty", !es.empty(), h);
      got.insert(es.begin(), es.end());
      groups.push_back(es);
      double b[4] = {1e18, 1e18, -1e18, -1e18};
      for (auto* e : es) { b[0] = std::min(b[0], e->pos->leftX); b[1] = std::min(b[1], e->pos->upperY); b[2] = std::max(b[2], e->pos->rightX); b[3] = std::max(b[3], e->pos->lowerY); }
      auto* q = segs[i]->pos;
      if (!es.empty()) CHECK("box of the segment", q->leftX == b[0] && q->upperY == b[1] && q->rightX == b[2] && q->lowerY == b[3] && q->pageNum == p + 1, h << " got " << gen::boxstr(segs[i]));
    }
    CHECK("every element of the page is in exactly one segment", got == exp, h << " page " << p + 1 << " has " << exp.size() << " elements, segments hold " << got.size());
    CHECK("the page is divided at the chosen cuts", groups == want[p], h << " page " << p + 1 << " got " << groups.size() << " segments, expected " << want[p].size());
    for (auto* c : d.pages[p]->blockDetectionCuts) CHECK("recorded cuts are on the page", c && c->elementBefore && c->elementAfter && c->pageNum == p + 1, h);
  }
  for (auto* pg : d.pages) for (auto* g : pg->graphics) { (void) g; }
}
