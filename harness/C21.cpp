// SRCS: SubSuperScriptsDetection.cpp utils/MathUtils.cpp utils/TextUtils.cpp Types.cpp utils/Log.cpp utils/Counter.cpp utils/PdfElementsUtils.cpp
#include "serial.h"
#include "SubSuperScriptsDetection.h"
using namespace ppp::types;

void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d;
  d.mostFreqFontSize = r.pick(std::vector<double>{10, 9.5, 8, 0, 12});
  ppp::config::SubSuperScriptsDetectionConfig cfg;
  if (r.p(30)) { cfg.baseEqualTolerance = r.pick(std::vector<double>{0, 0.5, 2}); cfg.fsEqualTolerance = r.pick(std::vector<double>{0, 0.5, 2}); }
  struct X { PdfCharacter* c; PdfTextLine* l; };
  std::vector<X> all; std::vector<PdfWord*> words; std::vector<PdfTextLine*> lines;
  std::ostringstream o; o.precision(17);
  o << "mostFreq " << d.mostFreqFontSize << " tol " << cfg.fsEqualTolerance << "/" << cfg.baseEqualTolerance;
  for (int p = r.i(0, 2); p > 0; p--) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = d.pages.size();
    for (int s = r.i(0, 2); s > 0; s--) {
      auto* seg = new PdfPageSegment(); page->segments.push_back(seg);
      for (int l = r.i(0, 3); l > 0; l--) {
        auto* line = new PdfTextLine(); seg->lines.push_back(line); lines.push_back(line);
        line->base = r.i(0, 40) * 0.5; o << " | line base " << line->base;
        if (r.p(10)) { line->baseBBoxLeftX = 3; line->baseBBoxUpperY = 3; line->baseBBoxRightX = 4; line->baseBBoxLowerY = 4; }
        int style = r.i(0, 5);
        for (int w = r.i(0, 3); w > 0; w--) {
          auto* word = new PdfWord(); line->words.push_back(word); words.push_back(word);
          for (int c = r.i(0, 4); c > 0; c--) {
            auto* ch = new PdfCharacter(); word->characters.push_back(ch); all.push_back({ch, line});
            ch->text = "x"; gen::box(r, ch, style);
            ch->pos->rotation = r.p(20) ? r.i(0, 3) : 0; ch->pos->wMode = r.p(10);
            ch->fontSize = d.mostFreqFontSize + r.i(-4, 3) * 0.5 - (r.p(30) ? cfg.fsEqualTolerance : 0) + (r.p(10) ? r.d(-0.1, 0.1) : 0);
            ch->base = line->base + r.i(-3, 3) * 0.5 + (r.p(30) ? (r.p(50) ? 1 : -1) * cfg.baseEqualTolerance : 0) + (r.p(10) ? r.d(-0.1, 0.1) : 0);
            o << " (size " << ch->fontSize << " base " << ch->base << " " << gen::boxstr(ch) << ")";
          }
        }
      }
    }
  }
  std::string h = o.str();
  KIND(hashstr(h));
  std::map<PdfTextLine*, std::array<double, 4>> box;
  for (auto* l : lines) box[l] = {l->baseBBoxLeftX, l->baseBBoxUpperY, l->baseBBoxRightX, l->baseBBoxLowerY};
  std::map<PdfCharacter*, int> kind;
  for (auto& x : all) {
    bool small = x.c->fontSize < d.mostFreqFontSize - cfg.fsEqualTolerance;
    int k = small && x.c->base < x.l->base - cfg.baseEqualTolerance ? 1 : small && x.c->base > x.l->base + cfg.baseEqualTolerance ? 2 : 0;
    kind[x.c] = k;
    if (k) continue;
    auto& b = box[x.l];
    b[0] = std::min(b[0], x.c->pos->leftX); b[1] = std::min(b[1], x.c->pos->upperY); b[2] = std::max(b[2], x.c->pos->rightX); b[3] = std::max(b[3], x.c->pos->lowerY);
  }
  ppp::modules::SubSuperScriptsDetection(&d, &cfg).process();
  for (size_t k = 0; k < all.size(); k++) {
    auto* c = all[k].c;
    CHECK("superscript exactly if smaller and above the base line", c->isSuperscript == (kind[c] == 1), h << " character " << k << " got " << c->isSuperscript);
    CHECK("subscript exactly if smaller and below the base line", c->isSubscript == (kind[c] == 2), h << " character " << k << " got " << c->isSubscript);
  }
  for (auto* l : lines) {
    auto& b = box[l];
    CHECK("base box encloses exactly the other characters", l->baseBBoxLeftX == b[0] && l->baseBBoxUpperY == b[1] && l->baseBBoxRightX == b[2] && l->baseBBoxLowerY == b[3], h << " got " << l->baseBBoxLeftX << "," << l->baseBBoxUpperY << "," << l->baseBBoxRightX << "," << l->baseBBoxLowerY << " expected " << b[0] << "," << b[1] << "," << b[2] << "," << b[3]);
  }
  for (auto& x : all) delete x.c;
  for (auto* w : words) delete w;
}
