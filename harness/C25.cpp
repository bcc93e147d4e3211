// SRCS: PdfToTextPlusPlus.cpp ReadingOrderDetection.cpp PdfParsing.cpp utils/PdfFontInfoParser.cpp utils/XYCut.cpp utils/MathUtils.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp utils/Log.cpp utils/Counter.cpp Types.cpp
// FLAGS: -fno-access-control
#include "elems.h"
#include <poppler/Error.h>
#include "PdfToTextPlusPlus.h"
#include "PdfParsing.h"
#include "GlyphsStatisticsCalculation.h"
#include "DiacriticalMarksMerging.h"
#include "WordsDetection.h"
#include "WordsStatisticsCalculation.h"
#include "PageSegmentation.h"
#include "TextLinesDetection.h"
#include "SubSuperScriptsDetection.h"
#include "TextLinesStatisticsCalculation.h"
#include "TextBlocksDetection.h"
#include "ReadingOrderDetection.h"
#include "SemanticRolesPrediction.h"
#include "WordsDehyphenation.h"
using namespace ppp::types;
using namespace ppp::config;

// what a stage saw
struct Ev { std::string name; const PdfDocument* doc; const void* conf; size_t pages; bool ordered; };
static std::vector<Ev> events;
static std::map<int, std::vector<std::vector<int>>> plan;   // page -> lines per block, in the order the blocks are detected
static bool ordered(const PdfDocument* d) { for (auto* p : d->pages) if (p->blocks.size() > 1) return p->blocks[0]->pos->upperY < p->blocks[1]->pos->upperY; return false; }
static void rec(const char* n, const PdfDocument* d, const void* c) { events.push_back({n, d, c, d->pages.size(), ordered(d)}); }

// The stages record that they ran; the blocks are detected in the reverse order, so the detection of the reading order shows.
namespace ppp::modules {
#define STAGE(C) void C::process() { rec(#C, _doc, _config); }
#define CSTAGE(C) void C::process() const { rec(#C, _doc, _config); }
#define CTOR(C) C::C(PdfDocument* d, const C##Config* c) { _doc = d; _config = c; } C::~C() {}
CTOR(GlyphsStatisticsCalculation) CSTAGE(GlyphsStatisticsCalculation)
CTOR(DiacriticalMarksMerging) CSTAGE(DiacriticalMarksMerging)
CTOR(WordsDetection) STAGE(WordsDetection)
CTOR(WordsStatisticsCalculation) CSTAGE(WordsStatisticsCalculation)
CTOR(PageSegmentation) STAGE(PageSegmentation)
CTOR(TextLinesDetection) STAGE(TextLinesDetection)
CTOR(SubSuperScriptsDetection) CSTAGE(SubSuperScriptsDetection)
CTOR(TextLinesStatisticsCalculation) CSTAGE(TextLinesStatisticsCalculation)
CTOR(TextBlocksDetection)
CTOR(WordsDehyphenation) CSTAGE(WordsDehyphenation)
void TextBlocksDetection::process() {
  rec("TextBlocksDetection", _doc, _config);
  int p = 0;
  for (auto* page : _doc->pages) {
    int y = 700;
    for (auto& ls : plan[p++]) {
      auto* b = new PdfTextBlock(); b->pos->leftX = 10; b->pos->rightX = 100; b->pos->upperY = y; b->pos->lowerY = y + 10; y -= 60; b->doc = _doc;
      for (size_t i = 0; i < ls.size(); i++) { auto* l = new PdfTextLine(); l->pos->leftX = 10; l->pos->rightX = 100; l->pos->upperY = y; l->pos->lowerY = y + 5; b->lines.push_back(l); }
      page->blocks.push_back(b);
    }
  }
}
SemanticRolesPrediction::SemanticRolesPrediction(const SemanticRolesPredictionConfig* c) { _config = c; }
SemanticRolesPrediction::~SemanticRolesPrediction() = default;
void SemanticRolesPrediction::predict(const PdfDocument* d) { rec("SemanticRolesPrediction", d, _config); }
}

static std::string pdf(int pages) {
  std::string s = "%PDF-1.4\n"; std::vector<size_t> off;
  auto obj = [&](const std::string& b) { off.push_back(s.size()); s += std::to_string(off.size()) + " 0 obj\n" + b + "\nendobj\n"; };
  obj("<< /Type /Catalog /Pages 2 0 R >>");
  std::string kids; for (int i = 0; i < pages; i++) kids += std::to_string(3 + i) + " 0 R ";
  obj("<< /Type /Pages /Kids [" + kids + "] /Count " + std::to_string(pages) + " >>");
  for (int i = 0; i < pages; i++) obj("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 " + std::to_string(600 + i) + " 800] /Resources << >> >>");
  size_t x = s.size();
  s += "xref\n0 " + std::to_string(off.size() + 1) + "\n0000000000 65535 f \n";
  char b[32]; for (auto o : off) { snprintf(b, sizeof b, "%010zu 00000 n \n", o); s += b; }
  return s + "trailer\n<< /Size " + std::to_string(off.size() + 1) + " /Root 1 0 R >>\nstartxref\n" + std::to_string(x) + "\n%%EOF\n";
}

void oneCase(uint64_t idx, Rng& r) {
  setErrorCallback([](ErrorCategory, Goffset, const char*) {});
  char dir[] = "/tmp/C25-XXXXXX";
  if (!mkdtemp(dir)) return;
  std::string path = std::string(dir) + "/f.pdf";
  int pages = r.i(1, 3), kind = r.i(0, 9);   // 0: no file, 1: no PDF
  if (kind != 0) { std::ofstream f(path); f << (kind == 1 ? std::string("this is no PDF") : pdf(pages)); }
  Config conf;
  int off = r.pick(std::vector<int>{0, 0, 10, 50, 90});
  std::vector<std::pair<std::string, bool>> st;
  std::map<std::string, const void*> cf;
  auto sec = [&](const char* n, auto& c) { c.disabled = r.p(off); st.push_back({n, !c.disabled}); cf[n] = &c; };
  sec("GlyphsStatisticsCalculation", conf.glyphsStatisticsCalculation); sec("DiacriticalMarksMerging", conf.diacriticalMarksMerging);
  sec("WordsDetection", conf.wordsDetection); sec("WordsStatisticsCalculation", conf.wordsStatisticsCalculation);
  sec("PageSegmentation", conf.pageSegmentation); sec("TextLinesDetection", conf.textLinesDetection);
  sec("SubSuperScriptsDetection", conf.subSuperScriptsDetection); sec("TextLinesStatisticsCalculation", conf.textLinesStatisticsCalculation);
  sec("TextBlocksDetection", conf.textBlocksDetection); sec("SemanticRolesPrediction", conf.semanticRolesPrediction);
  bool order = !(conf.readingOrderDetection.disabled = r.p(off));
  sec("WordsDehyphenation", conf.wordsDehyphenation);
  plan.clear(); events.clear();
  for (int p = 0; p < pages; p++) { int n = r.i(p ? 0 : 2, 3); for (int k = 0; k < n; k++) plan[p].push_back(std::vector<int>(r.i(0, 3))); }
  bool timed = r.p(70);
  std::vector<Timing> t; int before = r.i(0, 2); for (int i = 0; i < before; i++) t.push_back(Timing("earlier" + std::to_string(i), 1));
  auto* d = new PdfDocument(path);
  ppp::PdfToTextPlusPlus e(&conf);
  int rc = e.process(d, timed ? &t : nullptr);
  ::unlink(path.c_str()); ::rmdir(dir);
  bool ok = kind > 1;
  std::ostringstream o; o << (kind == 0 ? "missing file" : kind == 1 ? "a file that is no PDF" : "a PDF with " + std::to_string(pages) + " pages") << "; disabled:";
  for (auto& s : st) if (!s.second) o << " " << s.first; if (!order) o << " ReadingOrderDetection";
  std::vector<std::string> want, got;
  for (auto& s : st) if (ok && s.second && !(s.first == "SemanticRolesPrediction" && !order)) want.push_back(s.first);
  o << "; stages run:"; for (auto& x : events) { got.push_back(x.name); o << " " << x.name; }
  CHECK("status", ok ? rc == 0 : rc > 0, o.str() << "; returned " << rc);
  CHECK("exactly the enabled stages run, in order", want == got, o.str());
  int steps = 1 + (ok ? 1 + order : 0);
  for (auto& s : st) if (ok && s.second && s.first != "SemanticRolesPrediction") steps++;
  if (timed) CHECK("one running time per step", (int)t.size() == before + steps, o.str() << "; " << t.size() - before << " running times for " << steps << " steps");
  for (int i = 0; i < before && i < (int)t.size(); i++) CHECK("earlier running times stay", t[i].name == "earlier" + std::to_string(i), o.str());
  CHECK("pages", (int)d->pages.size() == (ok ? pages : 0), o.str() << "; " << d->pages.size() << " pages parsed");
  for (auto& x : events) {
    CHECK("stages work on the document", x.doc == d, o.str() << "; " << x.name);
    CHECK("stages have their configuration", x.conf == cf[x.name], o.str() << "; " << x.name);
    CHECK("stages see all pages", (int)x.pages == pages, o.str() << "; " << x.name);
    bool late = x.name == "WordsDehyphenation", on = conf.textBlocksDetection.disabled == false;
    if (on) CHECK("the reading order is detected between its neighbours", x.ordered == (late && order), o.str() << "; " << x.name);
  }
  if (ok && !conf.textBlocksDetection.disabled) CHECK("the reading order is detected exactly if enabled", ordered(d) == order, o.str());
  for (auto* p : d->pages) {
    std::vector<PdfTextLine*> ls;
    for (auto* b : p->blocks) for (auto* l : b->lines) ls.push_back(l);
    CHECK("the lines of a page are those of its blocks, in order", ls == p->textLines, o.str() << "; page " << p->pageNum << " has " << p->textLines.size() << " lines, its blocks " << ls.size());
  }
  KIND(hashstr(o.str()));
}
