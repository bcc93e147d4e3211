// SRCS: WordsDetection.cpp utils/WordsDetectionUtils.cpp utils/MathUtils.cpp utils/TextUtils.cpp Types.cpp utils/Log.cpp utils/Counter.cpp utils/PdfElementsUtils.cpp
#include "serial.h"
#include "WordsDetection.h"
using namespace ppp::types;
static double ov(double l1, double r1, double l2, double r2) {
  if (l1 > r1) std::swap(l1, r1);
  if (l2 > r2) std::swap(l2, r2);
  double len = std::max(0.0, std::min(r1, r2) - std::max(l1, l2));
  return std::max(r1 - l1 > 0 ? len / (r1 - l1) : 0, r2 - l2 > 0 ? len / (r2 - l2) : 0);
}
void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d;
  ppp::config::WordsDetectionConfig cfg;
  if (r.p(20)) cfg.minYOverlapRatio = r.pick(std::vector<double>{0, 0.25, 1});
  if (r.p(20)) cfg.minStackedMathSymbolXOverlapRatio = r.pick(std::vector<double>{0, 0.25, 1});
  static const std::vector<std::string> T = {"a", "b", "s", "u", "p", "l", "i", "m", "∑", "∫", "", "\"", "é"};
  std::ostringstream o; o.precision(17);
  std::vector<std::vector<PdfWord*>> before;
  int stacked = r.p(40);
  for (int p = r.i(1, 3); p > 0; p--) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = d.pages.size(); o << "P";
    if (r.p(8)) { auto* w = new PdfWord(); w->text = "old"; w->fontSize = 10; gen::box(r, w, 1); page->words.push_back(w); }
    before.push_back(page->words);
    double x = 0, y = 0; int n = r.i(0, r.p(70) ? 8 : 20);
    const char* spell = r.p(50) ? "sup" : "lim"; int sp = 0;
    for (int k = 0; k < n; k++) {
      auto* c = new PdfCharacter(); page->characters.push_back(c); c->doc = &d;
      c->fontSize = r.pick(std::vector<double>{10, 10, 10, 5, 7, 20});
      if (stacked) c->fontSize = r.pick(std::vector<double>{10, 6, 6, 4, 9.99995});
      c->fontName = r.pick(std::vector<std::string>{"f", "g"});
      c->text = r.pick(T);
      if (r.p(20)) { c->text = std::string(1, spell[sp]); sp = (sp + 1) % 3; }
      if (r.p(4)) c->name = r.pick(std::vector<std::string>{"summationdisplay", "x", "integraldisplay"});
      double w = r.pick(std::vector<double>{5, 5, 2, 0, 8}), h = r.pick(std::vector<double>{10, 10, 4, 0});
      double gap = r.pick(std::vector<double>{0, 0, 0, 0.5, -1, 1.5, 1.4999, 1.5001, 1.50011, 3, -20});
      if (r.p(10)) y += r.pick(std::vector<double>{5, 12, -5, 4.9999});
      if (stacked && r.p(50)) { x = r.pick(std::vector<double>{0, 1, 2, 2.5}); y += 11; gap = 0; }
      x += gap;
      c->pos->leftX = x; c->pos->rightX = x + w; c->pos->upperY = y + (r.p(10) ? r.i(-3, 3) : 0); c->pos->lowerY = c->pos->upperY + h;
      c->pos->pageNum = page->pageNum;
      x += w;
      if (r.p(6)) c->pos->rotation = r.i(0, 3);
      if (r.p(4)) c->pos->wMode = 1;
      if (k > 0 && r.p(12)) { auto* b = page->characters[r.i(0, k - 1)]; if (!b->isDiacriticMarkOfBaseChar && !c->isBaseCharOfDiacriticMark) { c->isDiacriticMarkOfBaseChar = b; b->isBaseCharOfDiacriticMark = c; b->textWithDiacriticMark = b->text + "^"; } }
      o << "[" << c->text << (c->name.empty() ? "" : "/" + c->name) << " " << c->fontSize << gen::boxstr(c) << (c->pos->wMode ? "w" : "") << (c->isDiacriticMarkOfBaseChar ? "m" : "") << "]";
    }
  }
  std::string h = o.str();
  KIND(hashstr(h));
  bool dis = false;
  ppp::modules::WordsDetection wd(&d, &cfg);
  wd.process();
  for (size_t p = 0; p < d.pages.size(); p++) {
    auto* page = d.pages[p]; auto& W = page->words;
    std::string at = h + " page " + std::to_string(p);
    // independent segmentation
    std::vector<std::vector<PdfCharacter*>> ex;
    for (auto* c : page->characters) {
      if (c->isDiacriticMarkOfBaseChar) continue;
      bool start = ex.empty();
      if (!start) {
        auto& a = ex.back(); auto* l = a.back();
        double b[4] = {1e300, 1e300, -1e300, -1e300}, fs = 0;
        for (auto* q : a) { b[0] = std::min(b[0], q->pos->leftX); b[1] = std::min(b[1], q->pos->upperY); b[2] = std::max(b[2], q->pos->rightX); b[3] = std::max(b[3], q->pos->lowerY); fs = std::max(fs, q->fontSize); }
        start = l->pos->rotation != c->pos->rotation || l->pos->wMode != c->pos->wMode;
        start |= ov(c->pos->upperY, c->pos->lowerY, b[1], b[3]) < cfg.minYOverlapRatio - 0.0001;
        double cl = c->pos->leftX, cr = c->pos->rightX;
        double g1 = cl < b[0] - 0.0001 ? b[0] - cr : cl - b[2], g2 = b[0] < cl - 0.0001 ? cl - b[2] : b[0] - cr;
        start |= g1 > 0.15 * fs + 0.0001 || g2 > 0.15 * fs + 0.0001;
      }
      if (start) ex.push_back({});
      ex.back().push_back(c);
    }
    size_t n0 = before[p].size();
    CHECK("words already on the page stay", W.size() >= n0 && std::equal(before[p].begin(), before[p].end(), W.begin()), at);
    std::vector<PdfCharacter*> got, all;
    for (size_t k = n0; k < W.size(); k++) for (auto* c : W[k]->characters) got.push_back(c);
    for (auto* c : page->characters) if (!c->isDiacriticMarkOfBaseChar) all.push_back(c);
    CHECK("words hold every character once in order", got == all, at << " got " << got.size() << " of " << all.size());
    CHECK("number of words", W.size() - n0 == ex.size(), at << " got " << W.size() - n0 << " expected " << ex.size());
    for (size_t k = 0; k < ex.size() && n0 + k < W.size(); k++) {
      auto* w = W[n0 + k]; std::string t;
      for (auto* c : ex[k]) t += c->isBaseCharOfDiacriticMark ? c->textWithDiacriticMark : c->text;
      CHECK("words begin exactly where a rule applies", w->characters == ex[k], at << " word " << k);
      CHECK("rank of a word is its position", w->rank == (int)(n0 + k), at << " word " << k << " rank " << w->rank);
      CHECK("text of a word", w->text == t, at << " word " << k << " got " << show(w->text) << " expected " << show(t));
      for (auto* c : w->characters) CHECK("characters refer to their word", c->word == w, at);
    }
    // stacked math symbols
    std::map<PdfWord*, PdfWord*> part; std::map<PdfWord*, std::vector<PdfWord*>> parts;
    for (size_t i = 0; i < W.size(); i++) {
      auto* w = W[i];
      if (part.count(w)) continue;
      bool base = cfg.stackedMathWords.count(w->text);
      for (auto* c : w->characters) base |= cfg.stackedMathCharTexts.count(c->text) || cfg.stackedMathCharNames.count(c->name);
      if (!base) continue;
      auto ok = [&](PdfWord* q) {
        if (part.count(q) || parts.count(q)) return false;
        if (ov(w->pos->leftX, w->pos->rightX, q->pos->leftX, q->pos->rightX) < cfg.minStackedMathSymbolXOverlapRatio - 0.0001) return false;
        return q->fontSize < w->fontSize - cfg.fsEqualTolerance;
      };
      for (size_t j = i; j-- > 0 && ok(W[j]);) { part[W[j]] = w; parts[w].push_back(W[j]); }
      for (size_t j = i + 1; j < W.size() && ok(W[j]); j++) { part[W[j]] = w; parts[w].push_back(W[j]); }
    }
    std::map<PdfWord*, int> seen;
    for (auto* w : W) for (auto* q : w->isBaseOfStackedMathSymbol) seen[q]++;
    for (size_t i = 0; i < W.size(); i++) {
      auto* w = W[i];
      CHECK("no word is part of two stacked symbols", seen[w] <= 1, at << " word " << i << " is part of " << seen[w]);
      CHECK("no word is both base and part of a stacked symbol", !(w->isPartOfStackedMathSymbol && !w->isBaseOfStackedMathSymbol.empty()), at << " word " << i);
      CHECK("bases and parts of stacked symbols refer to each other", seen[w] == (w->isPartOfStackedMathSymbol ? 1 : 0) && (!w->isPartOfStackedMathSymbol || std::count(w->isPartOfStackedMathSymbol->isBaseOfStackedMathSymbol.begin(), w->isPartOfStackedMathSymbol->isBaseOfStackedMathSymbol.end(), w) == 1), at << " word " << i);
      CHECK("stacked symbols are the overlapping smaller neighbours", w->isPartOfStackedMathSymbol == (part.count(w) ? part[w] : nullptr) && w->isBaseOfStackedMathSymbol == parts[w], at << " word " << i);
    }
  }
}
