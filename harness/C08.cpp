// SRCS: TextLinesDetection.cpp utils/TextLinesDetectionUtils.cpp utils/MathUtils.cpp utils/TextUtils.cpp Types.cpp utils/Log.cpp utils/Counter.cpp utils/PdfElementsUtils.cpp
#include "serial.h"
#include "TextLinesDetection.h"
using namespace ppp::types;
static double ov(double l1, double r1, double l2, double r2) {
  double len = std::max(0.0, std::min(r1, r2) - std::max(l1, l2));
  return std::max(r1 - l1 > 0 ? len / (r1 - l1) : 0, r2 - l2 > 0 ? len / (r2 - l2) : 0);
}
static const double TOL = 0.0001;
struct Ln {
  std::vector<PdfWord*> w; double b[4];
  void box() { b[0] = b[1] = 1e300; b[2] = b[3] = -1e300; for (auto* x : w) { b[0] = std::min(b[0], x->pos->leftX); b[1] = std::min(b[1], x->pos->upperY); b[2] = std::max(b[2], x->pos->rightX); b[3] = std::max(b[3], x->pos->lowerY); } }
  double low(int rot) const { return rot == 1 ? b[0] : rot == 2 ? b[1] : rot == 3 ? b[2] : b[3]; }
};
static double rotLeft(PdfElement* e, int rot) { return rot == 1 ? e->pos->upperY : rot == 2 ? e->pos->rightX : rot == 3 ? e->pos->lowerY : e->pos->leftX; }
static double rotLow(PdfElement* e, int rot) { return rot == 1 ? e->pos->leftX : rot == 2 ? e->pos->upperY : rot == 3 ? e->pos->rightX : e->pos->lowerY; }
void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d; d.avgCharWidth = r.pick(std::vector<double>{5, 5, 1, 0});
  ppp::config::TextLinesDetectionConfig cfg;
  if (r.p(30)) cfg.minPrecLinesSameRightX = r.pick(std::vector<double>{0, 1, 0.34});
  if (r.p(30)) cfg.lineHierarchyMaxLineDist = r.pick(std::vector<double>{0, 3, 100});
  std::ostringstream o; o.precision(17);
  std::vector<PdfWord*> all; std::map<PdfElement*, int> no;
  int tight = r.p(50), multirot = r.p(40);
  for (int p = r.i(1, 2); p > 0; p--) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = d.pages.size(); o << "P";
    for (int s = r.i(0, 3); s > 0; s--) {
      auto* seg = new PdfPageSegment(); page->segments.push_back(seg); seg->doc = &d; gen::box(r, seg, 0); seg->pos->pageNum = page->pageNum; seg->id = "s"; o << "S" << gen::boxstr(seg);
      int n = r.p(8) ? 0 : r.i(1, r.p(70) ? 6 : 14);
      std::vector<PdfWord*> W;
      for (int k = 0; k < n; k++) {
        if (r.p(8)) { auto* f = new PdfFigure(); gen::box(r, f, 0); seg->elements.push_back(f); o << "F"; continue; }
        auto* w = new PdfWord(); W.push_back(w); all.push_back(w); w->doc = &d;
        double h = r.pick(std::vector<double>{10, 10, 10, 5, 7}), wd = r.pick(std::vector<double>{20, 10, 5, 30});
        double x = r.i(0, tight ? 8 : 40) * 5, y = r.i(0, tight ? 20 : 60) * 2.5;
        w->pos->leftX = x; w->pos->rightX = x + wd; w->pos->upperY = y; w->pos->lowerY = y + h;
        if (multirot && r.p(50)) w->pos->rotation = r.i(0, 3);
        if (r.p(5)) w->pos->wMode = 1;
        w->pos->pageNum = page->pageNum; w->text = "w" + std::to_string(all.size()); no[w] = all.size();
        for (int c = r.i(0, 2); c > 0; c--) { auto* ch = new PdfCharacter(); ch->fontName = "f"; ch->fontSize = r.pick(std::vector<double>{10, 8}); ch->base = w->pos->lowerY; w->characters.push_back(ch); }
        seg->elements.push_back(w);
      }
      // stacked symbols
      for (size_t k = 0; k + 1 < W.size(); k++) if (r.p(12)) for (size_t j = k + 1; j < W.size() && j < k + 3; j++) {
        auto *b = W[k], *q = W[j];
        if (b->isPartOfStackedMathSymbol || q->isPartOfStackedMathSymbol || !q->isBaseOfStackedMathSymbol.empty()) break;
        q->pos->rotation = b->pos->rotation; q->isPartOfStackedMathSymbol = b; b->isBaseOfStackedMathSymbol.push_back(q);
      }
      for (auto* w : W) { o << w->text << gen::boxstr(w); if (w->isPartOfStackedMathSymbol) o << "part of " << w->isPartOfStackedMathSymbol->text; }
    }
  }
  std::string h = o.str();
  KIND(hashstr(h));
  ppp::modules::TextLinesDetection td(&d, &cfg);
  td.process();
  int rank = 0;
  std::map<PdfTextLine*, int> ord;
  for (size_t p = 0; p < d.pages.size(); p++) for (auto* seg : d.pages[p]->segments) for (auto* l : seg->lines) ord[l] = ord.size();
  for (size_t p = 0; p < d.pages.size(); p++) for (size_t q = 0; q < d.pages[p]->segments.size(); q++) {
    auto* seg = d.pages[p]->segments[q];
    std::string at = h + " page " + std::to_string(p) + " segment " + std::to_string(q);
    // every word once
    std::map<PdfWord*, int> exp, got;
    std::map<int, std::map<double, std::vector<PdfWord*>>> cl;
    for (auto* e : seg->elements) if (auto* w = dynamic_cast<PdfWord*>(e)) {
      if (w->isPartOfStackedMathSymbol) continue;
      auto& c = cl[w->pos->rotation][rotLow(w, w->pos->rotation)];
      exp[w]++; c.push_back(w);
      for (auto* x : w->isBaseOfStackedMathSymbol) { exp[x]++; c.push_back(x); }
    }
    for (auto* l : seg->lines) for (auto* w : l->words) got[w]++;
    CHECK("every word of the segment is in exactly one line", exp == got, at << " lines hold " << got.size() << " words of " << exp.size());
    std::map<int, std::vector<PdfTextLine*>> byRot;
    for (auto* l : seg->lines) {
      CHECK("lines are not empty", !l->words.empty(), at);
      if (l->words.empty()) return;
      int rot = l->words[0]->pos->rotation;
      byRot[rot].push_back(l);
      CHECK("rank of a line is its position in the document", l->rank == rank, at << " rank " << l->rank << " expected " << rank);
      rank++;
      CHECK("line refers to its segment", l->segment == seg, at);
      CHECK("line refers to the document", l->doc == &d, at);
      std::string t; Ln x; x.w = l->words; x.box();
      for (size_t k = 0; k < l->words.size(); k++) {
        auto* w = l->words[k];
        t += (k ? " " : "") + w->text;
        CHECK("word refers to its line", w->line == l, at << " " << w->text);
        CHECK("words of a line have the same rotation", w->pos->rotation == rot && l->pos->rotation == rot, at << " " << w->text);
        if (k) { double a = rotLeft(l->words[k - 1], rot), b = rotLeft(w, rot); CHECK("words of a line are ordered", rot <= 1 ? a <= b + TOL : a >= b - TOL, at << " " << l->words[k - 1]->text << " before " << w->text); }
      }
      CHECK("text of a line", l->text == t, at << " got " << show(l->text) << " expected " << show(t));
      CHECK("box of a line", l->pos->leftX == x.b[0] && l->pos->upperY == x.b[1] && l->pos->rightX == x.b[2] && l->pos->lowerY == x.b[3], at << " " << t << gen::boxstr(l));
    }
    for (auto& e : byRot) for (size_t k = 0; k < e.second.size(); k++) {
      auto* l = e.second[k];
      CHECK("lines of a rotation are linked in order", l->prevLine == (k ? e.second[k - 1] : nullptr) && l->nextLine == (k + 1 < e.second.size() ? e.second[k + 1] : nullptr), at << " line " << l->text);
    }
    // independent merging
    for (auto& e : cl) {
      int rot = e.first; std::vector<Ln> L; bool ties = false;
      for (auto& c : e.second) { Ln x; x.w = c.second; x.box(); L.push_back(x); }
      for (size_t a = 0; a < L.size(); a++) for (size_t b = 0; b < a; b++) if (std::abs(L[a].low(rot) - L[b].low(rot)) <= 2 * TOL) ties = true;
      if (ties) continue;
      std::sort(L.begin(), L.end(), [&](const Ln& a, const Ln& b) { return rot <= 1 ? a.low(rot) < b.low(rot) : a.low(rot) > b.low(rot); });
      for (bool merged = true; merged;) {
        merged = false; std::vector<Ln> M;
        for (auto& l : L) {
          if (!M.empty()) {
            auto& q = M.back();
            double gap = q.b[0] < l.b[0] - TOL ? l.b[0] - q.b[2] : q.b[0] - l.b[2];
            if (ov(q.b[1], q.b[3], l.b[1], l.b[3]) >= (gap < 3 * d.avgCharWidth ? 0.4 : 0.8) - TOL) { for (auto* w : l.w) q.w.push_back(w); q.box(); merged = true; continue; }
          }
          M.push_back(l);
        }
        L = M;
      }
      auto& G = byRot[rot];
      std::ostringstream g; for (auto* l : G) g << " [" << l->text << "]";
      bool same = G.size() == L.size();
      for (size_t k = 0; same && k < L.size(); k++) same = std::set<PdfWord*>(G[k]->words.begin(), G[k]->words.end()) == std::set<PdfWord*>(L[k].w.begin(), L[k].w.end());
      CHECK("words form a line exactly if their bottoms agree or their lines overlap enough, lines are ordered top to bottom", same, at << " rotation " << rot << " got" << g.str() << " expected " << L.size() << " lines");
    }
    // trim box
    bool words = !exp.empty() || !cl.empty();
    bool any = false; for (auto* e : seg->elements) any |= dynamic_cast<PdfWord*>(e) != nullptr;
    if (any) {
      std::map<double, int> f; for (auto* l : seg->lines) f[std::round(l->pos->getRotRightX())]++;
      int mx = 0; for (auto& e : f) mx = std::max(mx, e.second);
      double n = seg->lines.size();
      bool use = mx > 0 && mx / n >= cfg.minPrecLinesSameRightX - TOL;
      bool ok = use ? f.count(seg->trimRightX) && f[seg->trimRightX] == mx : seg->trimRightX == seg->pos->rightX;
      CHECK("trim box", ok && seg->trimLeftX == seg->pos->leftX && seg->trimUpperY == seg->pos->upperY && seg->trimLowerY == seg->pos->lowerY, at << " trimRightX " << seg->trimRightX);
    }
    (void) words;
  }
  // hierarchy
  double thr = cfg.textLineHierarchyLeftXOffsetThresholdFactor * d.avgCharWidth, ct = cfg.coordsEqualTolerance;
  for (size_t p = 0; p < d.pages.size(); p++) {
    std::string at = h + " page " + std::to_string(p);
    std::vector<PdfTextLine*> stack, L; PdfTextLine* prev = nullptr;
    std::map<PdfTextLine*, PdfTextLine*> par, ps, ns;
    for (auto* seg : d.pages[p]->segments) for (auto* l : seg->lines) L.push_back(l);
    for (auto* l : L) {
      if (prev && prev->pos->rotation == l->pos->rotation && prev->pos->wMode == l->pos->wMode) {
        double g = prev->pos->upperY < l->pos->upperY - TOL ? l->pos->upperY - prev->pos->lowerY : prev->pos->upperY - l->pos->lowerY;
        if (std::abs(g) > cfg.lineHierarchyMaxLineDist + ct) stack.clear();
      }
      prev = l;
      while (!stack.empty() && stack.back()->pos->leftX > l->pos->leftX + thr) stack.pop_back();
      if (stack.empty()) { stack.push_back(l); continue; }
      auto* t = stack.back();
      if (t->pos->lowerY >= l->pos->lowerY - ct) continue;
      if (std::abs(t->pos->leftX - l->pos->leftX) <= thr) { ns[t] = l; ps[l] = t; if (par.count(t)) par[l] = par[t]; stack.back() = l; }
      else { par[l] = t; stack.push_back(l); }
    }
    auto of = [](std::map<PdfTextLine*, PdfTextLine*>& m, PdfTextLine* l) -> PdfTextLine* { return m.count(l) ? m[l] : nullptr; };
    for (auto* l : L) {
      CHECK("parent line is the nearest line above that starts further left", l->parentLine == of(par, l), at << " line " << l->text << " parent " << (l->parentLine ? l->parentLine->text : "-"));
      CHECK("siblings start at the same x under the same parent", l->prevSiblingLine == of(ps, l) && l->nextSiblingLine == of(ns, l), at << " line " << l->text);
      if (l->nextSiblingLine) CHECK("siblings refer to each other", l->nextSiblingLine->prevSiblingLine == l && l->nextSiblingLine->parentLine == l->parentLine, at << " line " << l->text);

    }
  }
}
