// SRCS: GlyphsStatisticsCalculation.cpp WordsStatisticsCalculation.cpp TextLinesStatisticsCalculation.cpp utils/MathUtils.cpp utils/TextUtils.cpp Types.cpp utils/Log.cpp utils/Counter.cpp utils/PdfElementsUtils.cpp
#include "serial.h"
#include "GlyphsStatisticsCalculation.h"
#include "WordsStatisticsCalculation.h"
#include "TextLinesStatisticsCalculation.h"
using namespace ppp::types;
using namespace ppp::config;

template <class K> static bool isMax(const std::map<K, unsigned>& m, const K& k) {
  auto it = m.find(k);
  if (it == m.end() || !it->second) return false;
  for (auto& e : m) if (e.second > it->second) return false;
  return true;
}
template <class K> static std::string S(const std::map<K, unsigned>& m) { std::ostringstream o; o.precision(17); for (auto& e : m) o << e.first << ":" << e.second << " "; return o.str(); }
static double yratio(const PdfElement* a, const PdfElement* b) {
  double s1 = std::min(a->pos->upperY, a->pos->lowerY), e1 = std::max(a->pos->upperY, a->pos->lowerY), s2 = std::min(b->pos->upperY, b->pos->lowerY), e2 = std::max(b->pos->upperY, b->pos->lowerY);
  double o = std::max(0.0, std::min(e1, e2) - std::max(s1, s2));
  return std::max(e1 - s1 > 0 ? o / (e1 - s1) : 0.0, e2 - s2 > 0 ? o / (e2 - s2) : 0.0);
}
struct Stats { double fs, w, h, wh, wd, eld, ld; std::string fn; std::unordered_map<double, double> per; };
static Stats stats(const PdfDocument& d) { return {d.mostFreqFontSize, d.avgCharWidth, d.avgCharHeight, d.mostFreqWordHeight, d.mostFreqWordDistance, d.mostFreqEstimatedLineDistance, d.mostFreqLineDistance, d.mostFreqFontName, d.mostFreqLineDistancePerFontSize}; }

void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d;
  std::vector<PdfElement*> own; std::vector<PdfTextLine*> lines;
  std::ostringstream o; o.precision(17);
  int style = r.i(0, 5), np = r.i(0, 3), maxc = r.pick(std::vector<int>{0, 1, 3, 8});
  auto fs = [&] { return r.p(80) ? 10 + r.i(-3, 3) * 0.5 : r.d(9, 11); };
  auto mk = [&](PdfElement* e) { own.push_back(e); gen::box(r, e, style); if (r.p(60)) { e->pos->upperY = 10 + r.i(0, 3) * 4; e->pos->lowerY = e->pos->upperY + r.i(0, 3) * 2; } e->pos->rotation = r.p(15) ? r.i(0, 3) : 0; e->pos->wMode = r.p(10); };
  for (int p = 0; p < np; p++) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = p + 1;
    o << " page:";
    for (int c = r.i(0, maxc); c > 0; c--) { auto* ch = new PdfCharacter(); mk(ch); page->characters.push_back(ch); ch->fontSize = fs(); ch->fontName = r.pick(std::vector<std::string>{"A", "B", "", "C"}); o << " char " << ch->fontSize << ch->fontName << gen::boxstr(ch); }
    for (int c = r.i(0, 6); c > 0; c--) { auto* w = new PdfWord(); mk(w); page->words.push_back(w); w->fontSize = fs(); o << " word " << w->fontSize << gen::boxstr(w) << " wMode" << w->pos->wMode; }
    for (int s = r.i(0, 3); s > 0; s--) {
      auto* seg = new PdfPageSegment(); page->segments.push_back(seg); o << " segment";
      for (int l = r.i(0, 5); l > 0; l--) { auto* t = new PdfTextLine(); mk(t); lines.push_back(t); seg->lines.push_back(t); t->fontSize = fs(); t->baseBBoxUpperY = r.p(80) ? r.i(0, 20) * 0.33 : r.d(-10, 10); t->baseBBoxLowerY = t->baseBBoxUpperY + r.i(0, 9) * 0.31; o << " line " << t->fontSize << " " << t->baseBBoxUpperY << "-" << t->baseBBoxLowerY << " rot" << t->pos->rotation << " wMode" << t->pos->wMode; }
    }
  }
  GlyphsStatisticsCalculationConfig gc; WordsStatisticsCalculationConfig wc; TextLinesStatisticsCalculationConfig lc;
  if (r.p(40)) { wc.minYOverlapRatioSameLine = r.pick(std::vector<double>{0, 0.25, 0.5, 1}); wc.maxYOverlapRatioDifferentLine = r.pick(std::vector<double>{0, 0.25, 0.5, 1}); wc.fsEqualTolerance = r.pick(std::vector<double>{0, 0.5, 2}); lc.fsEqualTolerance = r.pick(std::vector<double>{0, 0.5, 2}); lc.lineDistancePrecision = r.i(0, 2); }
  double old = r.i(0, 3);
  d.mostFreqFontSize = 9 + r.i(0, 4) * 0.5; d.mostFreqFontName = "old"; d.avgCharWidth = d.avgCharHeight = d.mostFreqWordHeight = d.mostFreqWordDistance = d.mostFreqEstimatedLineDistance = d.mostFreqLineDistance = old;
  if (r.p(30)) d.mostFreqLineDistancePerFontSize[10] = 77;
  std::string h = o.str();
  KIND(hashstr(h));
  { // glyphs
    Stats b = stats(d);
    ppp::modules::GlyphsStatisticsCalculation(&d, &gc).process();
    Stats a = stats(d);
    std::map<double, unsigned> sizes; std::map<std::string, unsigned> names; double sw = 0, sh = 0; long n = 0;
    for (auto* p : d.pages) for (auto* c : p->characters) { sizes[c->fontSize]++; names[c->fontName]++; sw += c->pos->rightX - c->pos->leftX; sh += c->pos->lowerY - c->pos->upperY; n++; }
    if (!n) CHECK("glyph statistics stay without glyphs", a.fs == b.fs && a.fn == b.fn && a.w == b.w && a.h == b.h, h);
    else {
      CHECK("most frequent font size", isMax(sizes, a.fs), a.fs << " of " << S(sizes) << h);
      CHECK("most frequent font name", isMax(names, a.fn), a.fn << " of " << S(names) << h);
      auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * std::max(1.0, std::fabs(y)); };
      CHECK("average width and height", near(a.w, sw / n) && near(a.h, sh / n), a.w << " " << a.h << " expected " << sw / n << " " << sh / n << h);
    }
    CHECK("only the statistics of the glyphs change", a.wh == b.wh && a.wd == b.wd && a.eld == b.eld && a.ld == b.ld && a.per == b.per, h);
  }
  if (r.p(50)) d.mostFreqFontSize = 9 + r.i(0, 4) * 0.5;
  { // words
    Stats b = stats(d);
    ppp::modules::WordsStatisticsCalculation(&d, &wc).process();
    Stats a = stats(d);
    std::map<double, unsigned> hs, hg, vg; double m = d.mostFreqFontSize, t = wc.fsEqualTolerance, T = 0.0001;
    for (auto* p : d.pages) {
      PdfWord* prev = nullptr;
      for (auto* w : p->words) {
        PdfWord* q = prev; prev = w;
        if (w->fontSize < m - t) continue;
        hs[w->pos->lowerY - w->pos->upperY]++;
        if (!q || q->pos->rotation != w->pos->rotation || q->pos->wMode != w->pos->wMode || std::fabs(q->fontSize - m) > t) continue;
        double y = yratio(q, w);
        if (y >= wc.minYOverlapRatioSameLine - T) hg[q->pos->leftX < w->pos->leftX - T ? w->pos->leftX - q->pos->rightX : q->pos->leftX - w->pos->rightX]++;
        if (y <= wc.maxYOverlapRatioDifferentLine + T) vg[q->pos->upperY < w->pos->upperY - T ? w->pos->upperY - q->pos->lowerY : q->pos->upperY - w->pos->lowerY]++;
      }
    }
    std::ostringstream x; x.precision(17); x << " mostFreqFontSize " << m << " tolerance " << t << " ratios " << wc.minYOverlapRatioSameLine << "/" << wc.maxYOverlapRatioDifferentLine << h;
    CHECK("most frequent word height", hs.empty() ? a.wh == b.wh : isMax(hs, a.wh), a.wh << " of " << S(hs) << x.str());
    CHECK("most frequent word distance", hg.empty() ? a.wd == b.wd : isMax(hg, a.wd), a.wd << " of " << S(hg) << x.str());
    CHECK("most frequent estimated line distance", vg.empty() ? a.eld == b.eld : isMax(vg, a.eld), a.eld << " of " << S(vg) << x.str());
    CHECK("only the statistics of the words change", a.fs == b.fs && a.fn == b.fn && a.w == b.w && a.h == b.h && a.ld == b.ld && a.per == b.per, h);
  }
  { // lines
    Stats b = stats(d);
    ppp::modules::TextLinesStatisticsCalculation(&d, &lc).process();
    Stats a = stats(d);
    std::map<double, unsigned> all; std::map<double, std::map<double, unsigned>> per;
    for (auto* p : d.pages) for (auto* s : p->segments) for (size_t i = 1; i < s->lines.size(); i++) {
      auto *q = s->lines[i - 1], *w = s->lines[i];
      if (q->pos->rotation != w->pos->rotation || q->pos->wMode != w->pos->wMode) continue;
      double f = std::pow(10, lc.lineDistancePrecision), x = w->baseBBoxUpperY - q->baseBBoxLowerY, dist = std::max(0.0, lc.lineDistancePrecision ? std::round(x * f) / f : std::round(x));
      all[dist]++;
      if (std::fabs(q->fontSize - w->fontSize) <= lc.fsEqualTolerance) per[w->fontSize][dist]++;
    }
    CHECK("most frequent line distance", all.empty() ? a.ld == b.ld : isMax(all, a.ld), a.ld << " of " << S(all) << h);
    bool ok = true; std::string why;
    for (auto& e : per) { auto it = a.per.find(e.first); if (it == a.per.end() || !isMax(e.second, it->second)) { ok = false; why = S(e.second); } }
    for (auto& e : a.per) if (!per.count(e.first) && !(b.per.count(e.first) && b.per.at(e.first) == e.second)) { ok = false; why = "unexpected font size"; }
    for (auto& e : b.per) if (!a.per.count(e.first)) { ok = false; why = "font size lost"; }
    CHECK("most frequent line distance per font size", ok, why << h);
    CHECK("only the statistics of the lines change", a.fs == b.fs && a.fn == b.fn && a.w == b.w && a.h == b.h && a.wh == b.wh && a.wd == b.wd && a.eld == b.eld, h);
  }
}
