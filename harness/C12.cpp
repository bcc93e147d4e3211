// SRCS: DiacriticalMarksMerging.cpp utils/MathUtils.cpp utils/TextUtils.cpp Types.cpp utils/Log.cpp utils/Counter.cpp utils/PdfElementsUtils.cpp
#include "serial.h"
#include "DiacriticalMarksMerging.h"
#include <poppler/GlobalParams.h>
#include <utf8proc.h>
using namespace ppp::types;
static std::string utf8(unsigned u) {
  std::string s;
  if (u < 0x80) s += char(u);
  else if (u < 0x800) { s += char(0xc0 | u >> 6); s += char(0x80 | (u & 63)); }
  else if (u < 0x10000) { s += char(0xe0 | u >> 12); s += char(0x80 | (u >> 6 & 63)); s += char(0x80 | (u & 63)); }
  else if (u < 0x110000) { s += char(0xf0 | u >> 18); s += char(0x80 | (u >> 12 & 63)); s += char(0x80 | (u >> 6 & 63)); s += char(0x80 | (u & 63)); }
  return s;
}
static bool nfc(const std::string& s, std::string& out) {
  uint8_t* o = nullptr;
  auto n = utf8proc_map((const uint8_t*)s.data(), s.size(), &o, (utf8proc_option_t)(UTF8PROC_STABLE | UTF8PROC_COMPOSE));
  if (n < 0) return false;
  out = std::string((char*)o, n); free(o);
  return true;
}
static double overlap(const PdfCharacter* a, const PdfCharacter* b) {
  double l1 = std::min(a->pos->leftX, a->pos->rightX), r1 = std::max(a->pos->leftX, a->pos->rightX), l2 = std::min(b->pos->leftX, b->pos->rightX), r2 = std::max(b->pos->leftX, b->pos->rightX);
  double len = std::max(0.0, std::min(r1, r2) - std::max(l1, l2));
  double x = r1 - l1 > 0 ? len / (r1 - l1) : 0, y = r2 - l2 > 0 ? len / (r2 - l2) : 0;
  return std::max(x, y);
}
static const std::vector<unsigned> U = {'e', 'a', 'i', 'o', 'A', 'n', ' ', 0x300, 0x301, 0x302, 0x308, 0x36f, 0x2b0, 0x2ff, 0x2c6, 0x2d7, 0x2d6, 0x5e, 0x60, 0xb4, 0xa8, 0x22, 0x27, 0x2af, 0x370, 0x384, 0x204e, 0x131, 0x1ea5, 0x1d400, 0x41, 0xd800, 0, 0xfb01};
static const std::map<unsigned, unsigned> COMB = {{0x22,0x30b},{0x27,0x301},{0x5e,0x302},{0x5f,0x332},{0x60,0x300},{0x7e,0x303},{0xa8,0x308},{0xaf,0x304},{0xb0,0x30a},{0xb4,0x301},{0xb8,0x327},{0x2b2,0x321},{0x2b7,0x32b},{0x2b9,0x301},{0x2cc,0x329},{0x2ba,0x30b},{0x2bb,0x312},{0x2bc,0x313},{0x2bd,0x314},{0x2c6,0x302},{0x2c7,0x30c},{0x2c8,0x30d},{0x2c9,0x304},{0x2ca,0x301},{0x2cb,0x300},{0x2cd,0x331},{0x2d4,0x31d},{0x2d5,0x31e},{0x2d6,0x31f},{0x2d7,0x320},{0x2da,0x30a},{0x2dc,0x303},{0x2dd,0x30b},{0x384,0x301},{0x485,0x314},{0x486,0x313},{0x559,0x314},{0x55a,0x313},{0x204e,0x359}};

void oneCase(uint64_t idx, Rng& r) {
  if (!globalParams) globalParams = std::make_unique<GlobalParams>();
  ppp::config::DiacriticalMarksMergingConfig cfg;
  PdfDocument d;
  struct In { double b[4]; std::string t; };
  std::map<PdfCharacter*, In> in;
  std::ostringstream o; o.precision(17);
  int marks = r.pick(std::vector<int>{20, 50, 80}), rare = r.p(15);
  for (int p = r.i(1, 2); p > 0; p--) {
    auto* page = new PdfPage(); d.pages.push_back(page); page->pageNum = d.pages.size(); o << "P";
    double x = 0;
    for (int n = r.i(0, r.p(80) ? 6 : 14); n > 0; n--) {
      auto* c = new PdfCharacter(); page->characters.push_back(c); c->doc = &d;
      int nu = r.p(90) ? 1 : r.i(0, 3);
      for (int k = 0; k < nu; k++) {
        unsigned u = r.pick(U);
        if (r.p(marks)) u = 0x300 + r.i(0, 0x6f); else if (r.p(10)) { auto it = COMB.begin(); std::advance(it, r.i(0, COMB.size() - 1)); u = it->first; }
        else if (r.p(10)) u = r.i(0x2a0, 0x380);
        if ((u == 0xd800 || u == 0) && !rare) u = 'x';
        c->unicodes.push_back(u);
        c->text += utf8(u);
      }
      double w = r.pick(std::vector<double>{0, 1, 2, 4, 0.5});
      if (r.p(50)) { c->pos->leftX = x; c->pos->rightX = x + w; } else { c->pos->leftX = x + r.i(-6, 6) * 0.5; c->pos->rightX = c->pos->leftX + w; }
      c->pos->upperY = r.i(-4, 8); c->pos->lowerY = c->pos->upperY + r.i(0, 6);
      if (r.p(10)) c->pos->rotation = r.i(0, 3);
      if (r.p(60)) x += w;
      in[c] = {{c->pos->leftX, c->pos->upperY, c->pos->rightX, c->pos->lowerY}, c->text};
      o << "["; for (auto u : c->unicodes) o << std::hex << u << std::dec << " "; o << gen::boxstr(c) << "]";
    }
  }
  std::string h = o.str();
  KIND(hashstr(h));
  bool rot = false;
  for (auto* p : d.pages) for (auto* c : p->characters) rot |= c->pos->rotation != 0;
  ppp::modules::DiacriticalMarksMerging(&d, &cfg).process();
  // structure, for every rotation
  for (auto* p : d.pages) for (size_t i = 0; i < p->characters.size(); i++) {
    auto* c = p->characters[i];
    std::string at = h + " character " + std::to_string(i);
    CHECK("text and unicodes of characters stay", c->text == in[c].t, at);
    CHECK("no character is both mark and base", !(c->isDiacriticMarkOfBaseChar && c->isBaseCharOfDiacriticMark), at);
    if (c->isDiacriticMarkOfBaseChar) {
      CHECK("the base of a mark refers to a mark of it", c->isDiacriticMarkOfBaseChar->isBaseCharOfDiacriticMark && c->isDiacriticMarkOfBaseChar->isBaseCharOfDiacriticMark->isDiacriticMarkOfBaseChar == c->isDiacriticMarkOfBaseChar, at);
      unsigned u = c->unicodes.size() == 1 ? c->unicodes[0] : 0; if (COMB.count(u)) u = COMB.at(u);
      CHECK("only marks are merged", u >= 0x2b0 && u <= 0x36f && c->isDiacriticMarkOfBaseChar != c, at);
    }
    if (c->isBaseCharOfDiacriticMark) {
      // all marks of the base, in order of the page
      std::string t; double b[4] = {in[c].b[0], in[c].b[1], in[c].b[2], in[c].b[3]};
      bool ok = true;
      for (auto u : c->unicodes) t += utf8(u);
      for (auto* m : p->characters) if (m->isDiacriticMarkOfBaseChar == c) {
        unsigned u = m->unicodes[0]; if (COMB.count(u)) u = COMB.at(u);
        ok &= nfc(t + utf8(u), t);
        b[0] = std::min(b[0], m->pos->leftX); b[1] = std::min(b[1], m->pos->upperY); b[2] = std::max(b[2], m->pos->rightX); b[3] = std::max(b[3], m->pos->lowerY);
      }
      CHECK("merged text is base and all its marks, composed", ok && c->textWithDiacriticMark == t, at << " got " << show(c->textWithDiacriticMark) << " expected " << show(t));
      CHECK("box of the base encloses its marks", c->pos->leftX == b[0] && c->pos->upperY == b[1] && c->pos->rightX == b[2] && c->pos->lowerY == b[3], at << " got " << gen::boxstr(c));
    } else CHECK("other boxes stay", c->pos->leftX == in[c].b[0] && c->pos->upperY == in[c].b[1] && c->pos->rightX == in[c].b[2] && c->pos->lowerY == in[c].b[3], at);
  }
  if (rot) return;
  // which marks are merged with what
  for (auto* p : d.pages) {
    std::map<PdfCharacter*, PdfCharacter*> mark; std::map<PdfCharacter*, int> base; std::map<PdfCharacter*, std::string> txt;
    for (auto* c : p->characters) { std::copy(in[c].b, in[c].b + 2, &c->pos->leftX); c->pos->rightX = in[c].b[2]; c->pos->lowerY = in[c].b[3]; }
    for (size_t i = 0; i < p->characters.size(); i++) {
      auto* c = p->characters[i];
      if (c->unicodes.size() != 1 || base.count(c)) continue;
      unsigned u = c->unicodes[0]; if (COMB.count(u)) u = COMB.at(u);
      if (u < 0x2b0 || u > 0x36f) continue;
      PdfCharacter *pv = nullptr, *nx = i + 1 < p->characters.size() ? p->characters[i + 1] : nullptr;
      for (size_t j = i; j-- > 0;) if (!mark.count(p->characters[j])) { pv = p->characters[j]; break; }
      double a = pv ? overlap(pv, c) : 0, b = nx ? overlap(c, nx) : 0;
      if (a <= 0.0001 && b <= 0.0001) continue;
      auto* bs = a > b + 0.0001 ? pv : nx;
      if (!bs) bs = pv;
      std::string t; if (txt.count(bs)) t = txt[bs]; else for (auto v : bs->unicodes) t += utf8(v);
      if (!nfc(t + utf8(u), t)) continue;
      txt[bs] = t; mark[c] = bs; base[bs]++;
      bs->pos->leftX = std::min(bs->pos->leftX, c->pos->leftX); bs->pos->rightX = std::max(bs->pos->rightX, c->pos->rightX);
    }
    for (size_t i = 0; i < p->characters.size(); i++) {
      auto* c = p->characters[i];
      CHECK("marks are merged with the neighbour they overlap most", c->isDiacriticMarkOfBaseChar == (mark.count(c) ? mark[c] : nullptr), h << " character " << i << (mark.count(c) ? " expected base " : " expected no base ") << (mark.count(c) ? std::find(p->characters.begin(), p->characters.end(), mark[c]) - p->characters.begin() : 0) << (c->isDiacriticMarkOfBaseChar ? " got " : " got none ") << (c->isDiacriticMarkOfBaseChar ? std::find(p->characters.begin(), p->characters.end(), c->isDiacriticMarkOfBaseChar) - p->characters.begin() : 0));
    }
  }
}
