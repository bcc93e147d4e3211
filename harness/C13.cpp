// SRCS: utils/MathUtils.cpp utils/Counter.cpp utils/TextUtils.cpp utils/WordsDetectionUtils.cpp utils/PageSegmentationUtils.cpp utils/TextBlocksDetectionUtils.cpp utils/TextLinesDetectionUtils.cpp utils/PdfElementsUtils.cpp utils/Log.cpp TextLinesDetection.cpp Types.cpp
#include "elems.h"
#include "TextLinesDetection.h"
#include "utils/PageSegmentationUtils.h"
#include "utils/TextBlocksDetectionUtils.h"
#include "utils/WordsDetectionUtils.h"
using namespace ppp::types;
using namespace ppp::config;
using namespace ppp::utils;
using namespace ppp::modules;

template <class C, class E> static void checkBox(const char* what, const C* c, const std::vector<E*>& v) {
  double l = v[0]->pos->leftX, u = v[0]->pos->upperY, rr = v[0]->pos->rightX, lo = v[0]->pos->lowerY;
  for (auto* e : v) {
    l = std::min(l, e->pos->leftX); u = std::min(u, e->pos->upperY);
    rr = std::max(rr, e->pos->rightX); lo = std::max(lo, e->pos->lowerY);
  }
  CHECK(std::string(what) + ": bounding box", c->pos->leftX == l && c->pos->upperY == u && c->pos->rightX == rr && c->pos->lowerY == lo,
        what << " box " << gen::boxstr(c) << " of " << gen::boxes(v));
}
template <class E> static void checkFont(const char* what, const std::string& fn, double fs, const std::vector<E*>& v) {
  std::map<std::string, int> a; std::map<double, int> b; int ma = 0, mb = 0;
  for (auto* e : v) { ma = std::max(ma, ++a[e->fontName]); mb = std::max(mb, ++b[e->fontSize]); }
  CHECK(std::string(what) + ": most frequent font", a.count(fn) && a[fn] == ma, what << " font name " << fn);
  CHECK(std::string(what) + ": most frequent font size", b.count(fs) && b[fs] == mb, what << " font size " << fs);
}

static PdfCharacter* mkChar(Rng& r, PdfDocument* doc, int style, int page, int rot) {
  auto* c = new PdfCharacter();
  gen::box(r, c, style, rot);
  static const std::vector<std::string> T = {"a", "b", "C", "ä", "fi", "", "-", " ", "1", "∑"};
  c->text = r.pick(T);
  c->fontName = r.p(60) ? "F1" : r.p(50) ? "F2" : "";
  c->fontSize = r.p(60) ? 10 : r.p(50) ? 0 : r.i(1, 20) * 0.5;
  c->doc = doc; c->pos->pageNum = page; c->pos->wMode = r.i(0, 1);
  c->base = r.i(-3, 3);
  if (r.p(8)) { auto* m = new PdfCharacter(); c->isBaseCharOfDiacriticMark = m; c->textWithDiacriticMark = c->text + "~"; }
  else if (r.p(5)) { auto* m = new PdfCharacter(); c->isDiacriticMarkOfBaseChar = m; }
  return c;
}

void oneCase(uint64_t idx, Rng& r) {
  PdfDocument* doc = new PdfDocument();
  int style = r.i(0, 5), n = r.i(1, r.p(90) ? 6 : 40), page = r.i(1, 3);
  static WordsDetectionConfig wc; static PageSegmentationConfig pc; static TextLinesDetectionConfig lc; static TextBlocksDetectionConfig bc;
  int rot = r.i(0, 3);
  // word
  std::vector<PdfCharacter*> chars;
  for (int k = 0; k < n; k++) chars.push_back(mkChar(r, doc, style, page, rot));
  WordsDetectionUtils wu(&wc);
  std::vector<PdfCharacter*> before = chars;
  PdfWord* w = wu.createWord(chars);
  KIND(hashstr(gen::boxes(chars)));
  checkBox("word", w, chars);
  std::string t;
  for (auto* c : chars) t += c->isBaseCharOfDiacriticMark ? c->textWithDiacriticMark : c->isDiacriticMarkOfBaseChar ? "" : c->text;
  CHECK("word: text", w->text == t, "word text \"" << w->text << "\" expected \"" << t << "\"");
  CHECK("word: characters", w->characters == before, "characters of the word differ from the given ones");
  bool back = true; for (auto* c : chars) back &= c->word == w;
  CHECK("word: back references", back, "a character does not refer to its word");
  CHECK("word: page, rotation, mode, document", w->pos->pageNum == page && w->pos->rotation == chars[0]->pos->rotation && w->pos->wMode == chars[0]->pos->wMode && w->doc == doc, "word meta data");
  checkFont("word", w->fontName, w->fontSize, chars);
  CHECK("word: id", w->id.compare(0, 5, "word-") == 0 && w->id.size() == 5 + wc.idLength, "word id " << w->id);

  // page segment
  std::vector<PdfElement*> els;
  int m = r.i(0, 6);
  for (int k = 0; k < m; k++) { PdfElement* e = r.p(50) ? static_cast<PdfElement*>(new PdfWord()) : static_cast<PdfElement*>(new PdfShape()); gen::box(r, e, style); e->pos->pageNum = page; e->doc = doc; els.push_back(e); }
  PageSegmentationUtils pu(&pc);
  PdfPageSegment* s = pu.createPageSegment(els);
  CHECK("segment: elements", s->elements == els, "elements of the segment differ");
  if (m) {
    checkBox("segment", s, els);
    CHECK("segment: page and document", s->pos->pageNum == page && s->doc == doc, "segment meta data");
  }

  // text lines: words on well separated baselines form one line each
  PdfPage* pg = new PdfPage(); pg->pageNum = page;
  PdfDocument* d2 = new PdfDocument(); d2->pages.push_back(pg); d2->avgCharWidth = 1;
  int nl = r.i(1, 4);
  std::vector<PdfElement*> welems;
  std::vector<std::vector<PdfWord*>> rows;
  double oy = r.p(50) ? -r.i(40, 400) : r.i(0, 100), ox = r.p(50) ? -r.i(40, 400) : r.i(0, 100);
  bool ver = rot % 2 == 1;
  for (int i = 0; i < nl; i++) {
    std::vector<PdfWord*> row;
    int nw = r.i(1, 5);
    for (int j = 0; j < nw; j++) {
      auto* word = new PdfWord();
      double a = ox + j * 12 + r.i(0, 2), b = a + r.i(1, 8), base = oy + i * 20, top = base - r.i(3, 8);
      word->pos->rotation = rot; word->pos->pageNum = page; word->doc = d2; word->pos->wMode = 0;
      if (!ver) { word->pos->leftX = a; word->pos->rightX = b; word->pos->upperY = rot == 2 ? base : top; word->pos->lowerY = rot == 2 ? base + (base - top) : base; }
      else { word->pos->upperY = a; word->pos->lowerY = b; word->pos->leftX = rot == 1 ? base : top; word->pos->rightX = rot == 1 ? base + (base - top) : base; }
      int nc = r.i(1, 3);
      for (int k = 0; k < nc; k++) { auto* ch = mkChar(r, d2, 0, page, rot); word->characters.push_back(ch); }
      word->text = "w" + std::to_string(i) + "_" + std::to_string(j);
      row.push_back(word);
    }
    rows.push_back(row);
  }
  for (auto& row : rows) for (auto* x : row) welems.push_back(x);
  for (size_t k = welems.size(); k > 1; k--) std::swap(welems[k - 1], welems[r.next() % k]);
  PdfPageSegment* seg = pu.createPageSegment(welems);
  pg->segments.push_back(seg);
  TextLinesDetection tld(d2, &lc);
  tld.process();
  size_t total = 0;
  for (auto* line : seg->lines) {
    total += line->words.size();
    CHECK("line: has words", !line->words.empty(), "an empty text line");
    if (line->words.empty()) continue;
    checkBox("line", line, line->words);
    std::string lt; bool backs = true;
    std::vector<PdfCharacter*> cs;
    for (size_t k = 0; k < line->words.size(); k++) { lt += (k ? " " : "") + line->words[k]->text; backs &= line->words[k]->line == line; for (auto* c : line->words[k]->characters) cs.push_back(c); }
    CHECK("line: text", line->text == lt, "line text \"" << line->text << "\" expected \"" << lt << "\"");
    CHECK("line: back references", backs && line->segment == seg, "back references of line " << line->text);
    CHECK("line: rotation and page", line->pos->rotation == rot && line->pos->pageNum == page, "rotation / page of line " << line->text);
    checkFont("line", line->fontName, line->fontSize, cs);
    double mf = cs[0]->fontSize; std::map<double, int> bm; int mb = 0;
    for (auto* c : cs) { mf = std::max(mf, c->fontSize); mb = std::max(mb, ++bm[c->base]); }
    CHECK("line: maximum font size", line->maxFontSize == mf, "maxFontSize " << line->maxFontSize << " expected " << mf);
    CHECK("line: base", bm.count(line->base) && bm[line->base] == mb, "base " << line->base);
  }
  CHECK("lines: every word in exactly one line", total == welems.size(), "words in lines " << total << " of " << welems.size());

  // text block over the lines
  if (!seg->lines.empty()) {
    d2->mostFreqFontSize = 10;
    for (auto* l : seg->lines) l->doc = d2;
    TextBlocksDetectionUtils bu(&bc);
    std::vector<PdfTextBlock*> blocks;
    bu.createTextBlock(seg->lines, &blocks);
    size_t cut = r.i(1, int(seg->lines.size()));
    std::vector<PdfTextLine*> part(seg->lines.begin(), seg->lines.begin() + cut);
    bu.createTextBlock(part, &blocks);
    CHECK("block: appended", blocks.size() == 2, "createTextBlock appended " << blocks.size());
    for (size_t q = 0; q < blocks.size(); q++) {
      auto* b = blocks[q];
      auto& ls = q == 0 ? seg->lines : part;
      CHECK("block: lines", b->lines == ls, "lines of the block differ");
      checkBox("block", b, ls);
      std::string bt; for (size_t i = 0; i < ls.size(); i++) for (size_t j = 0; j < ls[i]->words.size(); j++) bt += ((i || j) ? " " : "") + ls[i]->words[j]->text;
      CHECK("block: text", b->text == bt, "block text \"" << b->text << "\" expected \"" << bt << "\"");
      CHECK("block: rank", b->rank == int(q), "rank " << b->rank);
      CHECK("block: chain", b->prevBlock == (q ? blocks[q - 1] : nullptr) && b->nextBlock == (q + 1 < blocks.size() ? blocks[q + 1] : nullptr), "prev/next block chain");
      checkFont("block", b->fontName, b->fontSize, ls);
    }
    bool ok = true;
    for (size_t i = 0; i < part.size(); i++) ok &= part[i]->block == blocks[1] && part[i]->prevLine == (i ? part[i - 1] : nullptr) && part[i]->nextLine == (i + 1 < part.size() ? part[i + 1] : nullptr);
    CHECK("block: line chain and back references", ok, "chain of the lines of a block");
  }
}
