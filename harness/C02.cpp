// SRCS: serializers/JsonlSerializer.cpp serializers/Serializer.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp utils/MathUtils.cpp utils/Counter.cpp Types.cpp
#include "serial.h"
#include "serializers/JsonlSerializer.h"
using namespace ppp::types;
using namespace ppp::serialization;
typedef std::vector<std::pair<std::string, J>> Rec;
static J S(const std::string& s) { J j; j.t = J::STR; j.s = s; return j; }
static J N(double d) { J j; j.t = J::NUM; j.n = d; return j; }
static J B(bool b) { J j; j.t = J::BOOL; j.b = b; return j; }
static std::string str(const J& j) { std::ostringstream o; if (j.t == J::STR) o << '"' << show(j.s) << '"'; else if (j.t == J::NUM) o << j.n; else if (j.t == J::BOOL) o << (j.b ? "true" : "false"); else if (j.t == J::ARR) { o << '['; for (auto& x : j.a) o << str(x) << ' '; o << ']'; } else o << "?"; return o.str(); }
static bool same(const J& a, const J& w) {
  if (a.t != w.t) return false;
  if (a.t == J::STR) return a.s == w.s;
  if (a.t == J::BOOL) return a.b == w.b;
  if (a.t == J::NUM) return fabs(a.n - w.n) <= 5.01e-6 * fabs(w.n);
  if (a.t == J::ARR) { if (a.a.size() != w.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!same(a.a[i], w.a[i])) return false; return true; }
  return false;
}
template <class E> static void common(Rec& r, const char* type, E* e) {
  r = {{"type", S(type)}, {"id", S(e->id)}, {"rank", N(e->rank)}, {"page", N(e->pos->pageNum)}, {"minX", N(e->pos->leftX)}, {"minY", N(e->pos->upperY)}, {"maxX", N(e->pos->rightX)}, {"maxY", N(e->pos->lowerY)}, {"origin", S("pdftotext++")}};
}
static const char* roleName(SemanticRole r) {
  switch (r) {
    case SemanticRole::PARAGRAPH: return "paragraph"; case SemanticRole::REFERENCE: return "reference"; case SemanticRole::MARGINAL: return "marginal"; case SemanticRole::FOOTNOTE: return "footnote";
    case SemanticRole::HEADING: return "heading"; case SemanticRole::FORMULA: return "formula"; case SemanticRole::TITLE: return "title"; case SemanticRole::AUTHOR_INFO: return "author-info";
    case SemanticRole::ABSTRACT: return "abstract"; case SemanticRole::DATE: return "date"; case SemanticRole::CAPTION: return "caption"; case SemanticRole::TABLE: return "table"; case SemanticRole::OTHER: return "other"; case SemanticRole::TOC: return "toc";
  }
  return "?";
}
void oneCase(uint64_t idx, Rng& r) {
  std::unique_ptr<gen::Doc> D(gen::document(r));
  auto* d = D->d;
  auto roles = gen::roleFilter(r);
  std::unordered_set<PdfElementType> units;
  if (r.p(80)) for (int u = 0; u < 7; u++) if (r.p(r.p(50) ? 30 : 80)) units.insert(PdfElementType(u));
  auto on = [&](PdfElementType u) { return units.empty() || units.count(u); };
  KIND(hashstr(gen::shape(d)));
  std::map<std::string, std::vector<Rec>> want;
  Rec q;
  for (auto* p : d->pages) {
    if (on(PdfElementType::PAGES)) want["page"].push_back({{"type", S("page")}, {"num", N(p->pageNum)}, {"width", N(p->clipRightX - p->clipLeftX)}, {"height", N(p->clipLowerY - p->clipUpperY)}, {"origin", S("pdftotext++")}});
    if (on(PdfElementType::FIGURES)) for (auto* f : p->figures) { common(q, "figure", f); want["figure"].push_back(q); }
    if (on(PdfElementType::SHAPES)) for (auto* f : p->shapes) { common(q, "shape", f); want["shape"].push_back(q); }
    for (auto* b : p->blocks) {
      if (!gen::selected(roles, b)) continue;
      if (on(PdfElementType::TEXT_BLOCKS)) { common(q, "block", b); q.push_back({"font", S(b->fontName)}); q.push_back({"fontSize", N(b->fontSize)}); q.push_back({"text", S(b->text)}); q.push_back({"role", S(roleName(b->role))}); want["block"].push_back(q); }
      for (auto* l : b->lines) for (auto* w : l->words) {
        if (on(PdfElementType::WORDS)) { common(q, "word", w); q.push_back({"font", S(w->fontName)}); q.push_back({"fontSize", N(w->fontSize)}); q.push_back({"text", S(w->text)}); q.push_back({"block", S(b->id)}); want["word"].push_back(q); }
        if (on(PdfElementType::CHARACTERS)) for (auto* c : w->characters) {
          if (c->isDiacriticMarkOfBaseChar) continue;
          common(q, "char", c);
          auto* fi = d->fontInfos.at(c->fontName); J col; col.t = J::ARR; for (int k = 0; k < 3; k++) col.a.push_back(N(c->color[k]));
          for (auto& x : Rec{{"wMode", N(c->pos->wMode)}, {"rotation", N(c->pos->rotation)}, {"font", S(c->fontName)}, {"fontSize", N(c->fontSize)}, {"weight", N(fi->weight)}, {"italic", B(fi->isItalic)}, {"type-3", B(fi->isType3)}, {"color", col}, {"opacity", N(c->opacity)},
               {"text", S(c->isBaseCharOfDiacriticMark ? c->textWithDiacriticMark : c->text)}, {"word", S(w->id)}, {"block", S(b->id)}}) q.push_back(x);
          want["char"].push_back(q);
        }
      }
    }
  }
  JsonlSerializer s(r.i(0, 6));
  std::string got = toStdout(s, d, roles, units);
  std::map<std::string, size_t> seen;
  size_t b = 0, line = 0; std::string last; std::set<std::string> done;
  CHECK("every record ends with a newline", got.empty() || got.back() == '\n', "the output ends in " << show(got.substr(got.size() - std::min<size_t>(20, got.size()))));
  while (b < got.size()) {
    size_t e = got.find('\n', b); if (e == std::string::npos) e = got.size();
    std::string t = got.substr(b, e - b); b = e + 1; line++;
    J j; bool ok = parseJson(t, &j) && j.t == J::OBJ;
    CHECK("every line is a JSON object", ok, "line " << line << ": " << show(t));
    if (!ok) return;
    const J* ty = j.get("type"); std::string k = ty ? ty->s : "";
    auto& ws = want[k]; size_t n = seen[k]++;
    CHECK("exactly the selected elements", n < ws.size(), "record " << n + 1 << " of type '" << k << "' but only " << ws.size() << " elements: " << show(t));
    if (n >= ws.size()) return;
    std::set<std::string> keys;
    for (auto& f : j.o) CHECK("no duplicate or unknown field", keys.insert(f.first).second && std::any_of(ws[n].begin(), ws[n].end(), [&](auto& x) { return x.first == f.first; }), "field " << show(f.first) << " in " << show(t));
    for (auto& f : ws[n]) { const J* v = j.get(f.first); CHECK("field " + f.first, v && same(*v, f.second), "record " << show(t) << ": expected " << f.first << " = " << str(f.second)); }
    if (k != last) { CHECK("the records of one kind are consecutive", done.insert(k).second, "a second run of " << k << " records"); last = k; }
  }
  for (auto& w : want) CHECK("every selected element is written", seen[w.first] == w.second.size(), seen[w.first] << " records of type " << w.first << ", expected " << w.second.size());
  if (idx % 8 == 0) { checkFile(s, r, d, roles, units, got); }
}
