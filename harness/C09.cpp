// SRCS: TextBlocksDetection.cpp utils/TextBlocksDetectionUtils.cpp utils/MathUtils.cpp utils/TextUtils.cpp Types.cpp utils/Log.cpp utils/Counter.cpp utils/PdfElementsUtils.cpp
#include "serial.h"
#include "TextBlocksDetection.h"
#include "utils/PdfElementsUtils.h"
#include "utils/MathUtils.h"
#include "utils/TextUtils.h"
#include <cstring>
using namespace ppp::types;
namespace el = ppp::utils::elements;
static const double T = 0.0001;
static bool eq(double a, double b, double t = T) { return std::fabs(a - b) <= t; }
static bool gt(double a, double b, double t = T) { return a > b + t; }
static bool lt(double a, double b, double t = T) { return a < b - t; }
static double rnd(double x) { return std::round(x * 10) / 10; }
// the state of a line while the blocks are made
struct St { const PdfTextLine* prev = nullptr; double lm = 0, rm = 0; };
struct Blk { std::vector<PdfTextLine*> ls; double b[4], t[4]; bool centered = false; double hang = 0; };
struct Oracle {
  PdfDocument* d; ppp::config::TextBlocksDetectionConfig* cfg; std::map<const PdfTextLine*, St> st; std::set<std::string> fn;
  double acw() { return d->avgCharWidth; }
  double vgap(const PdfTextLine* a, const PdfTextLine* b) { return el::computeVerticalGap(a, b); }
  PdfFigure* fig(const PdfTextLine* l) {
    for (auto* f : d->pages[l->pos->pageNum - 1]->figures) {
      auto ov = [](double a, double b, double c, double e) { double w = b - a; return w > 0 ? std::max(0.0, std::min(b, e) - std::max(a, c)) / w : 0.0; };
      if (ov(l->pos->leftX, l->pos->rightX, f->pos->leftX, f->pos->rightX) >= cfg->figureXOverlapThreshold - T && ov(l->pos->upperY, l->pos->lowerY, f->pos->upperY, f->pos->lowerY) >= cfg->figureYOverlapThreshold - T) return f;
    }
    return nullptr;
  }
  bool startsPre(const PdfTextLine* l) {
    auto* p = st[l].prev;
    if (!p) return true;
    auto *fp = fig(p), *fl = fig(l);
    if (fp && fp == fl) return false;
    if (p->pos->rotation != l->pos->rotation || p->pos->wMode != l->pos->wMode) return true;
    if (!eq(p->fontSize, l->fontSize, cfg->fsEqualTolerance) && !eq(p->maxFontSize, l->maxFontSize, cfg->fsEqualTolerance)) return true;
    double e = std::max(0.0, d->mostFreqLineDistance);
    auto it = d->mostFreqLineDistancePerFontSize.find(l->fontSize);
    if (it != d->mostFreqLineDistancePerFontSize.end()) e = std::max(e, it->second);
    double a = rnd(vgap(p, l));
    if (a <= T) return false;
    if (gt(a, e, std::max(1.0, 0.1 * e))) return true;
    auto* pp = st[p].prev;
    return pp && gt(a, rnd(vgap(pp, p)), 0.5 * d->mostFreqWordHeight);
  }
  bool itemLabel(const PdfTextLine* l) {
    if (l->words.empty() || l->words[0]->characters.empty()) return false;
    auto* c = l->words[0]->characters[0];
    if (c->isSuperscript && std::string(cfg->superItemLabelAlphabet).find(c->text) != std::string::npos) return true;
    for (auto& r : cfg->itemLabelRegexes) if (std::regex_search(l->text, r)) return true;
    return false;
  }
  bool noteLabel(const PdfTextLine* l, bool known) {
    if (l->words.empty()) return false;
    std::string s; for (auto* c : l->words[0]->characters) { if (!c->isSuperscript) break; s += c->text; }
    return known ? fn.count(s) > 0 : !s.empty();
  }
  bool sameFont(const PdfTextElement* a, const PdfTextElement* b) { return a->fontName == b->fontName && eq(a->fontSize, b->fontSize, cfg->fsEqualTolerance); }
  bool firstOfItem(const PdfTextLine* l, bool known = true) {
    if (l->words.empty()) return false;
    bool note = noteLabel(l, known);
    if (!itemLabel(l) && !note) return false;
    if (auto* p = st[l].prev) if (!itemLabel(p) && sameFont(p, l) && vgap(p, l) <= T && !ppp::utils::text::endsWithSentenceDelimiter(p->text) && eq(p->pos->leftX, l->pos->leftX, acw())) return false;
    for (auto* s : {l->prevSiblingLine, l->nextSiblingLine}) if (s && !s->words.empty() && itemLabel(s) && sameFont(s->words[0], l->words[0])) return true;
    return note;
  }
  bool contOfItem(const PdfTextLine* l) {
    for (auto* q = l->parentLine; q; q = q->parentLine) if (firstOfItem(q)) return true;
    return false;
  }
  bool capacity(const PdfTextLine* p, const PdfTextLine* l) { return p && !l->words.empty() && gt(st[p].rm, l->words[0]->pos->rightX - l->words[0]->pos->leftX, cfg->prevTextLineCapacityThresholdFactor * acw()); }
  bool emphasized(const PdfTextElement* e) { return emphasized(e->fontName, e->fontSize, e->text); }
  bool emphasized(const std::string& font, double fs, const std::string& text) {
    if (!d->fontInfos.count(d->mostFreqFontName) || !d->fontInfos.count(font)) return false;
    auto *df = d->fontInfos.at(d->mostFreqFontName), *ef = d->fontInfos.at(font);
    if (gt(fs, d->mostFreqFontSize, cfg->fsEqualTolerance)) return true;
    bool notSmaller = fs >= d->mostFreqFontSize - cfg->fsEqualTolerance;
    if (notSmaller && (gt(ef->weight, df->weight, cfg->fontWeightEqualTolerance) || ef->isItalic)) return true;
    bool alpha = false; for (char c : text) { if (islower(c)) return false; alpha |= (bool)isalpha(c); }
    return alpha;
  }
  bool isStart(Blk& B, const PdfTextLine* l) {
    auto* p = st[l].prev;
    if (!p) return true;
    bool first = firstOfItem(l);
    if (B.centered) return firstOfItem(l, false);
    if (first) return true;
    bool cont = contOfItem(l), cap = capacity(p, l), pf = firstOfItem(p), pc = contOfItem(p);
    double off = p->pos->leftX - l->pos->leftX, lo = -acw(), hi = 6 * acw();
    bool in = off >= lo - T && off <= hi + T;
    if (cont) { if (cap) return true; if (pf) return false; return pc ? !in : false; }
    if (pf || pc) {
      if (cap) return true;
      if (!ppp::utils::text::endsWithSentenceDelimiter(p->text) && !(l->text.size() && isupper(l->text[0]))) return false;
    }
    if (emphasized(p) && emphasized(l) && sameFont(p, l)) return false;
    double a = acw(), pm = st[p].lm, cm = st[l].lm;
    if (B.hang > T) {
      if (lt(cm, B.hang, a)) return true;
      if (eq(cm, B.hang, a)) return gt(pm, B.hang, a) ? !in : cap;
      if (gt(cm, B.hang, a)) return gt(pm, B.hang, a) ? !in : true;
      return false;
    }
    auto more = [&](double m) { return m > 6 * a + T; };
    if (more(cm) || more(pm)) return std::fabs(off) > a;
    if (cm >= a - T && cm <= 6 * a + T) return true;
    return cap;
  }
  Blk make(std::vector<PdfTextLine*> ls, PdfPageSegment* seg, Blk* before, PdfTextBlock* real) {
    Blk B; B.ls = ls; B.b[0] = B.b[1] = 1e300; B.b[2] = B.b[3] = -1e300;
    for (auto* l : ls) { B.b[0] = std::min(B.b[0], l->pos->leftX); B.b[1] = std::min(B.b[1], l->pos->upperY); B.b[2] = std::max(B.b[2], l->pos->rightX); B.b[3] = std::max(B.b[3], l->pos->lowerY); }
    B.t[0] = std::max(B.b[0], seg->trimLeftX); B.t[1] = std::max(B.b[1], seg->trimUpperY); B.t[2] = std::min(B.b[2], seg->trimRightX); B.t[3] = std::min(B.b[3], seg->trimLowerY);
    for (size_t k = 0; k < ls.size(); k++) st[ls[k]].prev = k ? ls[k - 1] : nullptr;
    // centered
    bool large = false, cen = true; int just = 0;
    for (size_t k = 1; k < ls.size() && cen; k++) {
      auto *p = ls[k - 1], *l = ls[k];
      double lo = std::fabs(p->pos->leftX - l->pos->leftX), ro = std::fabs(p->pos->rightX - l->pos->rightX), tol = 2 * acw();
      auto ov = el::computeXOverlapRatios(p, l);
      if (std::max(ov.first, ov.second) < cfg->centeringXOverlapRatioThreshold - T || !eq(lo, ro, tol)) { cen = false; break; }
      bool formula = p->text.find_first_of(cfg->formulaIdAlphabet) != std::string::npos || l->text.find_first_of(cfg->formulaIdAlphabet) != std::string::npos;
      if (!formula && (lo > tol + T || ro > tol + T)) large = true; else just++;
    }
    B.centered = cen && large && just <= cfg->centeringMaxNumJustifiedLines;
    double right = B.t[2];
    if (ls.size() == 2 && before && !eq(B.b[0] - seg->pos->leftX, seg->pos->rightX - B.b[2], acw())) right = std::max(right, before->t[2]);
    for (auto* l : ls) { st[l].lm = l->pos->leftX - B.t[0]; st[l].rm = right - l->pos->rightX; }
    B.hang = hang(B, real);
    return B;
  }
  double hang(Blk& B, PdfTextBlock* real) {
    double m = cfg->hangIndentMarginThresholdFactor * acw();
    std::map<double, int> cnt; int tot = 0, nlong = 0;
    for (auto* l : B.ls) { if (l->text.size() >= cfg->hangIndentMinLengthLongLines) nlong++; if (st[l].lm >= m - T) { cnt[st[l].lm]++; tot++; } }
    double mf = 0; int mc = 0, ties = 0;
    for (auto& e : cnt) if (e.second > mc) { mc = e.second; mf = e.first; }
    for (auto& e : cnt) ties += e.second == mc;
    if (mc <= cfg->hangIndentMinPercLinesSameLeftMargin * tot + T) return 0;  // so the most frequent one is unique if the share is at least one half
    if (ties > 1) return real ? real->hangingIndent : 0;
    bool firstInd = false, firstCap = false, others = true; int lowNon = 0, lowInd = 0, non = 0, ind = 0;
    for (size_t i = 0; i < B.ls.size(); i++) {
      auto* l = B.ls[i]; auto& s = st[l];
      if (l->text.size() < cfg->hangIndentMinLengthLongLines) continue;
      if (eq(s.lm, s.rm, m) && gt(s.lm, m)) continue;
      bool n = eq(s.lm, 0, m), d2 = eq(s.lm, mf, m), low = islower(l->text[0]);
      non += n; ind += d2; lowInd += low && d2; lowNon += low && n && !cfg->lastNamePrefixes.count(l->words[0]->text);
      if (i == 0) firstInd = d2;
      if (i == 1) firstCap = capacity(s.prev, l);
      if (i > 0) others = others && d2;
    }
    if (!ind || lowNon > cfg->hangIndentNumLowerNonIndentedLinesThreshold) return 0;
    if (!firstInd && !firstCap && others) return mf;
    if (non >= cfg->hangIndentNumNonIndentedLinesThreshold) return mf;
    if (nlong >= cfg->hangIndentNumLongLinesThreshold && lowInd >= cfg->hangIndentNumLowerIndentedLinesThreshold) return mf;
    return 0;
  }
  void labels(const PdfTextLine* l) {
    for (auto* w : l->words) {
      std::string s; bool seen = false;
      for (auto* c : w->characters) {
        bool plain = !c->isSubscript && !c->isSuperscript;
        if (!seen) { seen = plain; continue; }
        if (c->text.empty()) continue;
        if (cfg->specialFootnoteLabelsAlphabet.find(c->text[0]) != std::string::npos || (c->isSuperscript && isalnum((unsigned char)c->text[0]))) { s += c->text; continue; }
        if (!s.empty()) fn.insert(s);
        s.clear();
      }
      if (!s.empty()) fn.insert(s);
    }
  }
};
void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d; d.avgCharWidth = r.pick(std::vector<double>{5, 5, 5, 1, 0}); d.mostFreqWordHeight = r.pick(std::vector<double>{10, 4}); d.mostFreqLineDistance = r.pick(std::vector<double>{2, 2, 0, 12, -1}); d.mostFreqFontSize = 10; d.mostFreqFontName = r.p(90) ? "f" : "none";
  for (auto n : {"f", "bold", "it"}) { auto* fi = new PdfFontInfo(); fi->weight = n[0] == 'b' ? 700 : 400; fi->isItalic = n[0] == 'i'; d.fontInfos[n] = fi; }
  if (r.p(40)) d.mostFreqLineDistancePerFontSize[10] = r.pick(std::vector<double>{4, 1, 20});
  static const ppp::config::TextBlocksDetectionConfig dflt; ppp::config::TextBlocksDetectionConfig cfg = dflt;
  if (r.p(25)) { cfg.hangIndentNumLongLinesThreshold = r.i(1, 4); cfg.hangIndentNumNonIndentedLinesThreshold = r.i(1, 5); cfg.hangIndentNumLowerNonIndentedLinesThreshold = r.i(0, 1); }
  if (r.p(15)) { cfg.centeringMaxNumJustifiedLines = r.i(0, 2); cfg.figureXOverlapThreshold = r.pick(std::vector<double>{0, 1}); cfg.prevTextLineCapacityThresholdFactor = r.pick(std::vector<double>{0, 1}); }
  static const std::vector<std::string> TX = {"abc def", "Abc def", "ABC DEF", "abc def.", "a. Abc def", "b. xyz", "(1) Abc", "[2] def", "x = y + z", "van Abc", "1", "•\tabc", "Xyz!", "x", "PACS 1"};
  std::ostringstream o; o.precision(17); o << d.avgCharWidth << "," << d.mostFreqWordHeight << "," << d.mostFreqLineDistance << "," << d.mostFreqFontName << "," << d.mostFreqLineDistancePerFontSize.count(10);
  int style = r.i(0, 4), simple = r.p(50);
  for (int p = r.i(1, 2); p > 0; p--) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = d.pages.size(); o << "\nPAGE";
    if (r.p(25)) for (int k = r.i(1, 2); k > 0; k--) { auto* f = new PdfFigure(); f->pos->leftX = r.i(0, 10) * 10; f->pos->rightX = f->pos->leftX + r.i(1, 20) * 10; f->pos->upperY = r.i(0, 10) * 10; f->pos->lowerY = f->pos->upperY + r.i(1, 10) * 10; page->figures.push_back(f); o << "fig" << gen::boxstr(f); }
    for (int s = r.i(0, 2); s > 0; s--) {
      auto* seg = new PdfPageSegment(); page->segments.push_back(seg); seg->doc = &d; seg->pos->pageNum = page->pageNum;
      seg->pos->leftX = 10; seg->pos->rightX = 210; seg->pos->upperY = 0; seg->pos->lowerY = 400;
      seg->trimLeftX = r.p(85) ? 10 : 15; seg->trimRightX = r.p(80) ? 210 : 180; seg->trimUpperY = 0; seg->trimLowerY = 400; o << "\nSEG" << seg->trimLeftX << "," << seg->trimRightX;
      int n = r.p(5) ? 0 : r.i(1, r.p(60) ? 6 : 14); double y = 5; PdfTextLine* prev = nullptr; std::vector<PdfTextLine*> L;
      double ind = r.pick(std::vector<double>{10, 20, 40});
      for (int k = 0; k < n; k++) {
        auto* l = new PdfTextLine(); L.push_back(l); seg->lines.push_back(l); l->doc = &d; l->segment = seg; l->pos->pageNum = page->pageNum;
        double fs = simple || r.p(88) ? 10 : r.pick(std::vector<double>{8, 14, 10.5}); l->fontSize = fs; l->maxFontSize = r.p(90) ? fs : fs + 3; l->fontName = simple || r.p(85) ? "f" : r.pick(std::vector<std::string>{"bold", "it", "other"});
        double lx = 10, rx = 210;
        if (style == 1) lx += r.p(60) ? ind : 0; else if (style == 2) { double q = r.i(0, 8) * 10; lx += q; rx -= q + (r.p(10) ? 12 : 0); } else if (style == 3) lx += r.pick(std::vector<double>{0, 0, 0, ind, 6, 33, 45});
        else if (style == 4) { lx += r.i(0, 10) * 5; }
        if (style != 2 && r.p(25)) rx -= r.i(1, 14) * 10;
        y += r.p(75) ? 2 : r.pick(std::vector<double>{0, -3, 2.5, 4, 8, 14, 3.25});
        if (r.p(2)) l->pos->rotation = r.i(0, 3);
        if (r.p(2)) l->pos->wMode = 1;
        l->pos->leftX = lx; l->pos->rightX = rx; l->pos->upperY = y; l->pos->lowerY = y + 10; y += 10;
        l->prevLine = r.p(97) ? prev : nullptr; if (prev) prev->nextLine = l;
        l->text = r.pick(TX); if (r.p(20)) l->text += r.pick(TX);
        // words
        std::istringstream is(l->text); std::string t; bool any = false;
        while (is >> t) {
          auto* w = new PdfWord(); w->text = t; w->doc = &d; w->fontName = l->fontName; w->fontSize = r.p(95) ? fs : 8; w->pos->leftX = lx; w->pos->rightX = lx + r.pick(std::vector<double>{10, 30, 60}); w->line = l;
          if (r.p(97)) for (char c : t) { auto* ch = new PdfCharacter(); ch->text = r.p(98) ? std::string(1, c) : ""; ch->isSuperscript = r.p(simple ? 2 : 12); ch->isSubscript = r.p(3); if (ch->isSuperscript && r.p(50)) ch->text = r.pick(std::vector<std::string>{"1", "*", "a"}); w->characters.push_back(ch); }
          l->words.push_back(w); any = true;
        }
        if (any && r.p(2)) { l->words.clear(); l->text = ""; }
        // hierarchy
        if (k && r.p(30)) l->parentLine = L[r.i(0, k - 1)];
        if (k && r.p(40)) { auto* q = L[r.i(0, k - 1)]; if (!q->nextSiblingLine) { q->nextSiblingLine = l; l->prevSiblingLine = q; } }
        prev = l;
        o << "\n" << l->text << gen::boxstr(l) << "fs" << fs << "/" << l->maxFontSize << l->fontName << " rot" << l->pos->rotation << " prev" << (l->prevLine != nullptr);
        for (auto* w : l->words) { o << " w" << w->pos->rightX; for (auto* c : w->characters) if (c->isSuperscript || c->isSubscript) o << "^" << c->text; }
        if (l->parentLine) o << " parent " << l->parentLine->text << l->parentLine->pos->upperY;
        if (l->prevSiblingLine) o << " sibling " << l->prevSiblingLine->text << l->prevSiblingLine->pos->upperY;
      }
    }
  }
  std::string h = o.str();
  KIND(hashstr(h));
  Oracle O{&d, &cfg};
  for (auto* p : d.pages) for (auto* s : p->segments) for (auto* l : s->lines) O.st[l].prev = l->prevLine;
  ppp::modules::TextBlocksDetection td(&d, &cfg);
  td.process();
  std::map<PdfPageSegment*, std::vector<Blk>> pre; std::map<PdfPage*, std::vector<Blk>> fin;
  auto show1 = [](const std::vector<PdfTextLine*>& v) { std::string s; for (auto* l : v) s += (s.empty() ? "" : "|") + l->text; return s; };
  std::map<PdfPage*, std::vector<PdfPageSegment*>> segOf;
  for (auto* p : d.pages) for (auto* s : p->segments) {
    auto& R = pre[s]; std::vector<PdfTextLine*> cur;
    auto flush = [&] { size_t k = R.size(); auto b = O.make(cur, s, k ? &R[k - 1] : nullptr, k < s->blocks.size() ? s->blocks[k] : nullptr); R.push_back(b); cur.clear(); };
    for (auto* l : s->lines) { if (O.startsPre(l) && !cur.empty()) flush(); cur.push_back(l); }
    if (!cur.empty()) flush();
    for (auto* b : s->blocks) CHECK("preliminary blocks are not empty", !b->lines.empty(), h);
    bool same = R.size() == s->blocks.size();
    std::string got; for (auto* b : s->blocks) got += "[" + show1(b->lines) + "]";
    std::string want; for (auto& b : R) want += "[" + show1(b.ls) + "]";
    for (size_t k = 0; same && k < R.size(); k++) same = R[k].ls == s->blocks[k]->lines;
    CHECK("preliminary blocks start where the rules say", same, h << " got " << got << " expected " << want);
    if (!same) return;
    for (size_t k = 0; k < R.size(); k++) {
      CHECK("centered blocks", s->blocks[k]->isLinesCentered == R[k].centered, h << " preliminary block [" << show1(R[k].ls) << "] centered: " << s->blocks[k]->isLinesCentered);
      CHECK("hanging indent", s->blocks[k]->hangingIndent == R[k].hang, h << " preliminary block [" << show1(R[k].ls) << "] has " << s->blocks[k]->hangingIndent << " expected " << R[k].hang);
      if (s->blocks[k]->isLinesCentered != R[k].centered || s->blocks[k]->hangingIndent != R[k].hang) return;
    }
  }
  for (auto* p : d.pages) {
    auto& R = fin[p];
    for (auto* s : p->segments) for (auto& B : pre[s]) {
      std::vector<PdfTextLine*> cur;
      auto flush = [&] { size_t k = R.size(); auto b = O.make(cur, s, k ? &R[k - 1] : nullptr, k < p->blocks.size() ? p->blocks[k] : nullptr); R.push_back(b); segOf[p].push_back(s); cur.clear(); };
      for (auto* l : B.ls) { O.labels(l); if (O.isStart(B, l) && !cur.empty()) flush(); cur.push_back(l); }
      if (!cur.empty()) flush();
    }
    std::string got; for (auto* b : p->blocks) got += "[" + show1(b->lines) + "]";
    std::string want; for (auto& b : R) want += "[" + show1(b.ls) + "]";
    bool same = R.size() == p->blocks.size();
    for (size_t k = 0; same && k < R.size(); k++) same = R[k].ls == p->blocks[k]->lines;
    // every line in exactly one block, in order
    std::vector<PdfTextLine*> a, b;
    for (auto* s : p->segments) a.insert(a.end(), s->lines.begin(), s->lines.end());
    for (auto* x : p->blocks) b.insert(b.end(), x->lines.begin(), x->lines.end());
    CHECK("every line is in exactly one block, in order", a == b, h << " got " << got);
    CHECK("blocks start where the rules say", same, h << " got " << got << " expected " << want);
    if (!same) return;
    for (size_t k = 0; k < R.size(); k++) {
      auto* x = p->blocks[k]; auto& B = R[k]; std::string at = h + " block [" + show1(B.ls) + "]"; std::string t;
      for (auto* l : B.ls) { std::string u; for (auto* w : l->words) u += (u.empty() && w == l->words[0] ? "" : " ") + w->text; t += (l == B.ls[0] ? "" : " ") + u; }
      CHECK("text of a block", x->text == t, at << " has text " << show(x->text) << " expected " << show(t));
      CHECK("rank of a block", x->rank == (int)k, at << x->rank);
      CHECK("blocks are linked", x->prevBlock == (k ? p->blocks[k - 1] : nullptr) && x->nextBlock == (k + 1 < R.size() ? p->blocks[k + 1] : nullptr), at);
      CHECK("segment, document and page of a block", x->segment == segOf[p][k] && x->doc == &d && x->pos->pageNum == p->pageNum, at);
      CHECK("box of a block", x->pos->leftX == B.b[0] && x->pos->upperY == B.b[1] && x->pos->rightX == B.b[2] && x->pos->lowerY == B.b[3], at);
      CHECK("trim box of a block", x->trimLeftX == B.t[0] && x->trimUpperY == B.t[1] && x->trimRightX == B.t[2] && x->trimLowerY == B.t[3], at);
      CHECK("centered blocks", x->isLinesCentered == B.centered, at);
      CHECK("hanging indent", x->hangingIndent == B.hang, at << x->hangingIndent << " expected " << B.hang);
      CHECK("emphasized blocks", x->isEmphasized == O.emphasized(x->fontName, x->fontSize, x->text), at);
      for (size_t q = 0; q < B.ls.size(); q++) {
        auto* l = B.ls[q];
        CHECK("lines of a block are linked", l->prevLine == (q ? B.ls[q - 1] : nullptr) && l->nextLine == (q + 1 < B.ls.size() ? B.ls[q + 1] : nullptr) && l->block == x, at << " line " << l->text);
        CHECK("margins of the lines", l->leftMargin == O.st[l].lm && l->rightMargin == O.st[l].rm, at << " line " << l->text << " " << l->leftMargin << "," << l->rightMargin << " expected " << O.st[l].lm << "," << O.st[l].rm);
      }
    }
  }
}
