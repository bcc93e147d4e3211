// Builders of complete documents: pages, blocks, lines, words, characters.
#pragma once
#include "elems.h"
namespace gen {
static const std::vector<std::string> TEXTS = {"a", "b", "Q", "fi", "\xc3\xa4", "\xe2\x88\x91", "\"", "\\", "\n", "\t", "\x01", "\x1f", "\x0c", "", " ", "-", "{", "1", ".", "\x7f", "\xff", std::string(1, '\0'), "/", "</"};
static const std::vector<std::string> FONTS = {"F1", "CMR10", "quo\"te", "back\\slash", "ctrl\x02", "", "nl\n"};
inline double num(Rng& r) { return r.p(70) ? r.i(-50, 700) * 0.25 : r.d(-1e4, 1e4); }

struct Doc {
  PdfDocument* d;
  std::vector<PdfWord*> words;
  std::vector<PdfCharacter*> chars;
  ~Doc() {
    // PdfPage deletes its blocks, figures and shapes; PdfDocument its pages and font infos.
    for (auto* p : d->pages) for (auto* b : p->blocks) for (auto* l : b->lines) { for (auto* w : l->words) { for (auto* c : w->characters) delete c; delete w->isFirstPartOfHyphenatedWord; delete w; } delete l; }
    delete d;
  }
};
template <class E> void meta(Rng& r, E* e, PdfDocument* d, int page, const char* pre, int n) {
  e->doc = d; e->pos->pageNum = page; e->rank = r.i(-1, 1000);
  e->pos->leftX = num(r); e->pos->upperY = num(r); e->pos->rightX = num(r); e->pos->lowerY = num(r);
  e->pos->wMode = r.i(0, 1); e->pos->rotation = r.i(0, 3);
  e->id = std::string(pre) + std::to_string(n);
}
template <class E> void textMeta(Rng& r, E* e, const std::vector<std::string>& fonts) {
  e->fontName = r.pick(fonts); e->fontSize = r.p(80) ? r.i(1, 40) * 0.5 : r.d(0, 50);
}
inline std::string text(Rng& r, int maxPieces) { std::string s; int n = r.i(0, maxPieces); for (int k = 0; k < n; k++) s += r.pick(TEXTS); return s; }

// fontsUsed: fonts the document has infos for
inline Doc* document(Rng& r, int maxPages = 3) {
  Doc* D = new Doc(); PdfDocument* d = D->d = new PdfDocument();
  std::vector<std::string> fonts;
  for (auto& f : FONTS) if (r.p(50)) fonts.push_back(f);
  if (fonts.empty()) fonts.push_back("F1");
  for (auto& f : fonts) { auto* i = new PdfFontInfo(); i->fontName = f; i->weight = r.i(1, 9) * 100; i->isItalic = r.p(50); i->isType3 = r.p(50); d->fontInfos[f] = i; }
  int np = r.i(0, maxPages), n = 0;
  for (int p = 0; p < np; p++) {
    auto* page = new PdfPage(); page->pageNum = p + 1;
    page->clipLeftX = num(r); page->clipRightX = page->clipLeftX + r.i(0, 600); page->clipUpperY = num(r); page->clipLowerY = page->clipUpperY + r.i(0, 800);
    d->pages.push_back(page);
    int nb = r.i(0, 3);
    for (int b = 0; b < nb; b++) {
      auto* block = new PdfTextBlock(); meta(r, block, d, p + 1, "block-", n++); textMeta(r, block, fonts);
      block->role = SemanticRole(r.i(0, int(SEMANTIC_ROLE_NAMES.size()) - 1)); block->isEmphasized = r.p(30); block->text = text(r, 6);
      page->blocks.push_back(block);
      int nl = r.i(0, 3);
      for (int l = 0; l < nl; l++) {
        auto* line = new PdfTextLine(); meta(r, line, d, p + 1, "line-", n++); line->block = block; block->lines.push_back(line);
        int nw = r.i(0, 4);
        for (int w = 0; w < nw; w++) {
          auto* word = new PdfWord(); meta(r, word, d, p + 1, "word-", n++); textMeta(r, word, fonts); word->line = line; line->words.push_back(word);
          int nc = r.i(0, 4);
          for (int c = 0; c < nc; c++) {
            auto* ch = new PdfCharacter(); meta(r, ch, d, p + 1, "char-", n++); textMeta(r, ch, fonts); ch->word = word; ch->text = r.pick(TEXTS);
            for (int k = 0; k < 3; k++) ch->color[k] = r.i(0, 255);
            ch->opacity = r.i(0, 4) * 0.25;
            word->characters.push_back(ch); D->chars.push_back(ch);
          }
          for (size_t c = 0; c + 1 < word->characters.size(); c++) if (r.p(15) && !word->characters[c]->isDiacriticMarkOfBaseChar) {
            auto *x = word->characters[c], *y = word->characters[c + 1];
            if (r.p(50)) std::swap(x, y);
            if (x->isDiacriticMarkOfBaseChar || x->isBaseCharOfDiacriticMark) continue;
            x->isBaseCharOfDiacriticMark = y; y->isDiacriticMarkOfBaseChar = x; x->textWithDiacriticMark = x->text + "~" + y->text;
          }
          for (auto* ch : word->characters) word->text += ch->isBaseCharOfDiacriticMark ? ch->textWithDiacriticMark : ch->isDiacriticMarkOfBaseChar ? "" : ch->text;
          D->words.push_back(word);
        }
      }
    }
    for (int k = r.i(0, 2); k > 0; k--) { auto* f = new PdfFigure(); meta(r, f, d, p + 1, "figure-", n++); page->figures.push_back(f); }
    for (int k = r.i(0, 2); k > 0; k--) { auto* s = new PdfShape(); meta(r, s, d, p + 1, "shape-", n++); page->shapes.push_back(s); }
  }
  for (size_t k = 0; k + 1 < D->words.size(); k++) if (r.p(15)) {
    auto *a = D->words[k], *b = D->words[k + 1];
    if (a->isSecondPartOfHyphenatedWord) continue;
    auto* m = new PdfWord(); m->text = a->text + b->text + "!";
    a->isFirstPartOfHyphenatedWord = m; b->isSecondPartOfHyphenatedWord = m;
  }
  return D;
}
inline std::unordered_set<SemanticRole> roleFilter(Rng& r) {
  std::unordered_set<SemanticRole> s;
  if (r.p(20)) return s;
  int pr = r.p(50) ? 100 : r.i(5, 95);
  for (size_t i = 0; i < SEMANTIC_ROLE_NAMES.size(); i++) if (r.p(pr)) s.insert(SemanticRole(i));
  if (s.empty()) s.insert(SemanticRole::TITLE);
  return s;
}
inline bool selected(const std::unordered_set<SemanticRole>& roles, const PdfTextBlock* b) { return roles.empty() || roles.count(b->role); }
inline std::string shape(const PdfDocument* d) {
  std::ostringstream o;
  for (auto* p : d->pages) { o << "P"; for (auto* b : p->blocks) { o << "B" << int(b->role); for (auto* l : b->lines) { o << "L"; for (auto* w : l->words) o << "w" << w->characters.size() << (w->isFirstPartOfHyphenatedWord ? "1" : "") << (w->isSecondPartOfHyphenatedWord ? "2" : "") << show(w->text); } } }
  return o.str();
}
}
