// SRCS: PdfParsing.cpp utils/PdfFontInfoParser.cpp utils/MathUtils.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp utils/Log.cpp utils/Counter.cpp Types.cpp
// FLAGS: -fno-access-control
#include "elems.h"
#include <poppler/Error.h>
#include <poppler/GlobalParams.h>
#include <poppler/GfxState.h>
#include <poppler/PDFDocFactory.h>
#include "PdfParsing.h"
using namespace ppp::types;
using namespace ppp::config;
using ppp::modules::PdfParsing;

static const double TOL = 0.1;
static double rd(double x, int p) { return p == 0 ? std::round(x) : std::round(x * std::pow(10, p)) / std::pow(10, p); }
struct Box { double v[4]; };
static std::string str(const Box& b) { std::ostringstream o; o << "(" << b.v[0] << "," << b.v[1] << "," << b.v[2] << "," << b.v[3] << ")"; return o.str(); }
static bool same(const Box& a, const Box& b) { for (int i = 0; i < 4; i++) if (std::fabs(a.v[i] - b.v[i]) > TOL) return false; return true; }
static bool at(double a, double b) { return std::fabs(a - b) <= 1e-9; }
static Box boxOf(const PdfElement* e) { return Box{{e->pos->leftX, e->pos->upperY, e->pos->rightX, e->pos->lowerY}}; }
static bool eqBox(const Box& a, const Box& b, double t = 1e-9) { for (int i = 0; i < 4; i++) if (std::fabs(a.v[i] - b.v[i]) > t) return false; return true; }

// what is expected of the page
struct El { int kind; Box box; std::string text; bool exact; };   // kind 0: character, 1: shape, 2: graphic
struct Place { Box clip; bool any = false; Box box; std::vector<El> el[3]; std::vector<int> rank[3]; };
static void put(Place& page, std::vector<Place>& figs, const Box& clip, const El& e, int rank) {
  Place* p = nullptr;
  if (same(clip, page.clip)) p = &page;
  for (auto& f : figs) if (!p && same(clip, f.clip)) p = &f;
  if (!p) { figs.push_back(Place()); p = &figs.back(); p->clip = clip; }
  p->el[e.kind].push_back(e); p->rank[e.kind].push_back(rank);
  if (!p->any) p->box = e.box;
  for (int i = 0; i < 4; i++) p->box.v[i] = i < 2 ? std::min(p->box.v[i], e.box.v[i]) : std::max(p->box.v[i], e.box.v[i]);
  p->any = true;
}
template <class T> static void list(const char* where, const std::vector<T*>& got, const Place& p, int kind, const PdfDocument* doc, int pageNum, const std::string& in) {
  static const char* K[] = {"characters", "shapes", "graphics"};
  std::string w = std::string(K[kind]) + " of the " + where;
  CHECK("number of " + w, got.size() == p.el[kind].size(), in << "; clip box " << str(p.clip) << ": " << got.size() << " " << w << " instead of " << p.el[kind].size());
  for (size_t i = 0; i < got.size() && i < p.el[kind].size(); i++) {
    Box b = boxOf(got[i]);
    CHECK("box of the " + w, eqBox(b, p.el[kind][i].box, p.el[kind][i].exact ? 1e-9 : 0.1000001), in << "; box " << str(b) << " instead of " << str(p.el[kind][i].box));
    CHECK("the box is not inverted: " + w, b.v[0] <= b.v[2] && b.v[1] <= b.v[3], in << "; box " << str(b));
    CHECK("rank of the " + w, got[i]->rank == p.rank[kind][i], in << "; rank " << got[i]->rank << " instead of " << p.rank[kind][i]);
    CHECK("page and document of the " + w, got[i]->pos->pageNum == pageNum && got[i]->doc == doc, in << "; page " << got[i]->pos->pageNum << " instead of " << pageNum);
  }
}
static void compare(const PdfDocument* doc, const PdfPage* page, int pageNum, Place& pp, std::vector<Place>& figs, const std::string& in) {
  CHECK("page number", page->pageNum == pageNum, in << "; page " << page->pageNum << " instead of " << pageNum);
  CHECK("clip box of the page", eqBox(Box{{page->clipLeftX, page->clipUpperY, page->clipRightX, page->clipLowerY}}, pp.clip), in);
  list("page", page->characters, pp, 0, doc, pageNum, in); list("page", page->shapes, pp, 1, doc, pageNum, in); list("page", page->graphics, pp, 2, doc, pageNum, in);
  CHECK("one figure per clip box", page->figures.size() == figs.size(), in << "; " << page->figures.size() << " figures instead of " << figs.size());
  for (size_t i = 0; i < figs.size() && i < page->figures.size(); i++) {
    auto* f = page->figures[i];
    CHECK("clip box of the figure", eqBox(Box{{f->clipLeftX, f->clipUpperY, f->clipRightX, f->clipLowerY}}, figs[i].clip), in << "; figure " << i << " clip box (" << f->clipLeftX << "," << f->clipUpperY << "," << f->clipRightX << "," << f->clipLowerY << ") instead of " << str(figs[i].clip));
    bool exact = figs[i].el[0].empty();
    CHECK("box of the figure", eqBox(boxOf(f), figs[i].box, exact ? 1e-9 : 0.1000001), in << "; figure " << i << " box " << str(boxOf(f)) << " instead of " << str(figs[i].box));
    CHECK("page and document of the figure", f->pos->pageNum == pageNum && f->doc == doc, in << "; figure on page " << f->pos->pageNum);
    list("figure", f->characters, figs[i], 0, doc, pageNum, in); list("figure", f->shapes, figs[i], 1, doc, pageNum, in); list("figure", f->graphics, figs[i], 2, doc, pageNum, in);
  }
}

// (1) the handlers, on graphics states of Poppler
static void handlers(Rng& r) {
  PdfParsingConfig conf; conf.coordinatePrecision = r.pick(std::vector<int>{1, 1, 0, 2, 3});
  int prec = conf.coordinatePrecision, rank = 0, pages = r.i(1, 2);
  auto* doc = new PdfDocument("x.pdf");
  PdfParsing pp(doc, conf);
  for (int pn = 1; pn <= pages; pn++) {
    double ox = r.pick(std::vector<int>{0, 0, -300, 50}), oy = r.pick(std::vector<int>{0, 0, -400, 30});
    PDFRectangle rect(ox, oy, ox + 200, oy + 300);
    std::ostringstream o; o << "page " << pn << " at " << ox << "," << oy << ", precision " << prec;
    int num = r.i(0, 3) ? pn : pn + 7;
    GfxState base(72, 72, &rect, 0, true);
    pp.startPage(num, &base, reinterpret_cast<XRef*>(doc));
    auto clipOf = [&](GfxState* s) { Box b; s->getClipBBox(&b.v[0], &b.v[1], &b.v[2], &b.v[3]); for (auto& x : b.v) x = rd(x, prec); return b; };
    Place page; page.clip = clipOf(&base);
    std::vector<Place> figs;
    std::vector<Box> pool;
    for (int k = 0; k < 4; k++) { double x = r.i(0, 100) * 0.7, y = r.i(0, 150) * 0.7; pool.push_back(Box{{x, y, x + r.i(5, 100), y + r.i(5, 100)}}); }
    { Box b = pool[0]; b.v[r.i(0, 3)] += r.pick(std::vector<double>{0.06, 0.3, 12}); pool.push_back(b); }
    for (int n = r.i(0, 9), k = 0; k < n; k++) {
      GfxState s(72, 72, &rect, 0, true);
      if (r.p(60)) { const Box& b = r.pick(pool); s.clipToRect(ox + b.v[0], oy + 300 - b.v[1], ox + b.v[2], oy + 300 - b.v[3]); }
      Box clip = clipOf(&s);
      o << "; clip " << str(clip);
      if (r.p(55)) {
        bool vis = false; Box e{{1e300, 1e300, -1e300, -1e300}};
        bool edge = r.p(30);
        o << (edge ? " path near the clip box" : " path");
        int subs = r.i(0, 3);
        auto pt = [&](double& x, double& y) {
          double dx = edge ? clip.v[r.i(0, 1) * 2] + r.pick(std::vector<double>{0, 0.1, 0.2, -0.1, 0.5}) : r.d(-60, 260), dy = edge ? clip.v[1 + r.i(0, 1) * 2] + r.pick(std::vector<double>{0, 0.1, -0.1, -0.2, -0.5}) : r.d(-60, 360);
          if (r.p(40)) { dx = r.d(clip.v[0], clip.v[2]); dy = r.d(clip.v[1], clip.v[3]); }
          x = ox + dx; y = oy + 300 - dy;
        };
        for (int q = 0; q < subs; q++) {
          o << " [";
          int m = r.i(1, 4);
          for (int j = 0; j < m; j++) {
            double x, y, X, Y; pt(x, y);
            if (j == 0) s.moveTo(x, y); else s.lineTo(x, y);
            s.transform(x, y, &X, &Y); o << "(" << X << "," << Y << ")";
          }
          o << "]";
        }
        const GfxPath* gp = s.getPath();
        for (int a = 0; a < gp->getNumSubpaths(); a++) for (int b = 0; b < gp->getSubpath(a)->getNumPoints(); b++) {
          double X, Y; s.transform(gp->getSubpath(a)->getX(b), gp->getSubpath(a)->getY(b), &X, &Y); X = rd(X, prec); Y = rd(Y, prec);
          if (X <= clip.v[0] + TOL || Y <= clip.v[1] + TOL || X >= clip.v[2] - TOL || Y >= clip.v[3] - TOL) continue;
          vis = true; e.v[0] = std::min(e.v[0], X); e.v[1] = std::min(e.v[1], Y); e.v[2] = std::max(e.v[2], X); e.v[3] = std::max(e.v[3], Y);
        }
        if (r.p(50)) pp.stroke(&s); else pp.fill(&s);
        if (vis) put(page, figs, clip, El{1, e, "", true}, rank++);
      } else {
        double a = r.d(1, 90), d = r.d(1, 90) * (r.p(50) ? 1 : -1), x = r.p(60) ? r.d(clip.v[0], clip.v[2]) : r.d(-50, 250), y = r.p(60) ? r.d(clip.v[1], clip.v[3]) : r.d(-50, 350);
        if (r.p(30)) a = -a;
        s.concatCTM(a, 0, 0, d, ox + x, oy + 300 - y);
        const double* m = s.getCTM();
        double x0 = rd(m[4], prec), y0 = rd(m[5], prec), x1 = rd(x0 + m[0], prec), y1 = rd(y0 + m[3], prec);
        o << " image (" << x0 << "," << y0 << "," << x1 << "," << y1 << ")";
        switch (r.i(0, 3)) {
          case 0: pp.drawImage(&s, nullptr, nullptr, 1, 1, nullptr, false, nullptr, false); break;
          case 1: pp.drawImageMask(&s, nullptr, nullptr, 1, 1, false, false, false); break;
          case 2: pp.drawMaskedImage(&s, nullptr, nullptr, 1, 1, nullptr, false, nullptr, 1, 1, false, false); break;
          default: pp.drawSoftMaskedImage(&s, nullptr, nullptr, 1, 1, nullptr, false, nullptr, 1, 1, nullptr, false);
        }
        if (x0 <= clip.v[0] + TOL || y0 <= clip.v[1] + TOL || x1 >= clip.v[2] - TOL || y1 >= clip.v[3] - TOL) continue;
        Box e{{std::max(std::min(x0, x1), clip.v[0]), std::max(std::min(y0, y1), clip.v[1]), std::min(std::max(x0, x1), clip.v[2]), std::min(std::max(y0, y1), clip.v[3])}};
        put(page, figs, clip, El{2, e, "", true}, rank++);
      }
    }
    CHECK("one page per event", (int)doc->pages.size() == pn, o.str() << "; " << doc->pages.size() << " pages");
    if ((int)doc->pages.size() == pn) compare(doc, doc->pages.back(), num, page, figs, o.str());
    KIND(hashstr(o.str()));
  }
}

// (2) the characters, on PDF files
static const double W[] = {700, 650, 500, 300, 250};   // widths of A, B, a, i and the space
static int widthIdx(char c) { return c == 'A' ? 0 : c == 'B' ? 1 : c == 'a' ? 2 : c == 'i' ? 3 : 4; }
static std::string pdf(const std::vector<std::string>& contents) {
  std::string s = "%PDF-1.4\n"; std::vector<size_t> off;
  auto obj = [&](const std::string& b) { off.push_back(s.size()); s += std::to_string(off.size()) + " 0 obj\n" + b + "\nendobj\n"; };
  size_t n = contents.size();
  obj("<< /Type /Catalog /Pages 2 0 R >>");
  std::string kids; for (size_t i = 0; i < n; i++) kids += std::to_string(4 + 2 * i) + " 0 R ";
  obj("<< /Type /Pages /Kids [" + kids + "] /Count " + std::to_string(n) + " >>");
  std::string ws; for (int c = 32; c < 123; c++) ws += std::to_string((int)W[widthIdx(char(c))]) + " ";
  obj("<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding /FirstChar 32 /LastChar 122 /Widths [" + ws + "] >>");
  for (size_t i = 0; i < n; i++) {
    obj("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 200 300] /Resources << /Font << /F1 3 0 R >> >> /Contents " + std::to_string(5 + 2 * i) + " 0 R >>");
    obj("<< /Length " + std::to_string(contents[i].size()) + " >>\nstream\n" + contents[i] + "\nendstream");
  }
  size_t x = s.size();
  s += "xref\n0 " + std::to_string(off.size() + 1) + "\n0000000000 65535 f \n";
  char b[32]; for (auto o : off) { snprintf(b, sizeof b, "%010zu 00000 n \n", o); s += b; }
  return s + "trailer\n<< /Size " + std::to_string(off.size() + 1) + " /Root 1 0 R >>\nstartxref\n" + std::to_string(x) + "\n%%EOF\n";
}
static void characters(Rng& r) {
  setErrorCallback([](ErrorCategory, Goffset, const char*) {});
  if (!globalParams) globalParams = std::make_unique<GlobalParams>();
  globalParams->setTextEncoding("UTF-8");
  int pages = r.i(1, 2), rank = 0;
  std::vector<std::string> contents;
  struct Ch { double x, y, w, fs; int rot; char c; Box clip; };
  std::vector<std::vector<Ch>> want;
  std::ostringstream all;
  for (int pn = 0; pn < pages; pn++) {
    std::ostringstream o; std::vector<Ch> cs;
    std::vector<Box> pool; for (int k = 0; k < 3; k++) { int x = r.i(0, 100), y = r.i(0, 150); pool.push_back(Box{{(double)x, (double)y, (double)x + r.i(20, 100), (double)y + r.i(20, 150)}}); }
    for (int n = r.i(0, 5), k = 0; k < n; k++) {
      Box clip{{0, 0, 200, 300}};
      o << "q ";
      if (r.p(55)) { clip = r.pick(pool); o << clip.v[0] << " " << 300 - clip.v[3] << " " << clip.v[2] - clip.v[0] << " " << clip.v[3] - clip.v[1] << " re W n "; }
      int fs = r.i(6, 14), x = r.i(0, 180), y = r.i(10, 290), rot = r.p(60) ? 0 : r.i(0, 3);
      std::string t; for (int j = r.i(1, 4); j > 0; j--) t += "ABai "[r.i(0, 4)];
      static const char* M[] = {"1 0 0 1 ", "0 -1 1 0 ", "-1 0 0 -1 ", "0 1 -1 0 "};
      o << "BT /F1 " << fs << " Tf " << M[rot] << x << " " << 300 - y << " Tm (" << t << ") Tj ET Q\n";
      double adv = 0;
      for (char c : t) {
        double w = W[widthIdx(c)] * fs / 1000;
        static const int DX[] = {1, 0, -1, 0}, DY[] = {0, 1, 0, -1};
        if (c != ' ') cs.push_back(Ch{x + DX[rot] * adv, y + DY[rot] * adv, w, (double)fs, rot, c, clip});
        adv += w;
      }
    }
    contents.push_back(o.str()); all << " page " << pn + 1 << ": " << o.str(); want.push_back(cs);
  }
  char dir[] = "/tmp/C24-XXXXXX";
  if (!mkdtemp(dir)) return;
  std::string path = std::string(dir) + "/f.pdf";
  { std::ofstream f(path); f << pdf(contents); }
  auto* doc = new PdfDocument(path);
  PdfParsingConfig conf;
  { PdfParsing pp(doc, conf); GooString gp(path); auto d = PDFDocFactory().createPDFDoc(gp); if (d->isOk()) d->displayPages(&pp, 1, d->getNumPages(), 72, 72, 0, true, false, false); }
  ::unlink(path.c_str()); ::rmdir(dir);
  CHECK("one page per page of the file", (int)doc->pages.size() == pages, all.str() << "; " << doc->pages.size() << " pages");
  for (size_t p = 0; p < want.size() && p < doc->pages.size(); p++) {
    Place page; page.clip = Box{{0, 0, 200, 300}};
    std::vector<Place> figs;
    double asc = 0, desc = 0; for (auto& f : doc->fontInfos) { asc = f.second->ascent; desc = f.second->descent; }
    for (auto& c : want[p]) {
      Box b;
      if (c.rot == 0) b = Box{{c.x, c.y - asc * c.fs, c.x + c.w, c.y - desc * c.fs}};
      else if (c.rot == 1) b = Box{{c.x + desc * c.fs, c.y, c.x + asc * c.fs, c.y + c.w}};
      else if (c.rot == 2) b = Box{{c.x - c.w, c.y + desc * c.fs, c.x, c.y + asc * c.fs}};
      else b = Box{{c.x - asc * c.fs, c.y - c.w, c.x - desc * c.fs, c.y}};
      for (auto& v : b.v) v = rd(v, 1);
      put(page, figs, c.clip, El{0, b, std::string(1, c.c), false}, rank++);
    }
    compare(doc, doc->pages[p], int(p) + 1, page, figs, all.str());
    std::map<int, const Ch*> byRank; { int first = rank - (int)want[p].size(); for (auto& c : want[p]) byRank[first++] = &c; }
    std::vector<PdfCharacter*> got(doc->pages[p]->characters); for (auto* f : doc->pages[p]->figures) got.insert(got.end(), f->characters.begin(), f->characters.end());
    for (auto* ch : got) {
      auto it = byRank.find(ch->rank);
      if (it == byRank.end()) continue;
      CHECK("text of the character", ch->text == std::string(1, it->second->c), all.str() << "; '" << ch->text << "' instead of '" << it->second->c << "'");
      CHECK("font size of the character", at(ch->fontSize, it->second->fs), all.str() << "; " << ch->fontSize << " instead of " << it->second->fs);
      CHECK("rotation of the character", ch->pos->rotation == it->second->rot && ch->pos->wMode == 0, all.str() << "; rotation " << ch->pos->rotation << " instead of " << it->second->rot);
      CHECK("font of the character", doc->fontInfos.count(ch->fontName) == 1, all.str() << "; font " << ch->fontName);
    }
  }
  KIND(hashstr(all.str()));
}

void oneCase(uint64_t idx, Rng& r) {
  if (idx % 4 == 3) characters(r); else handlers(r);
}
