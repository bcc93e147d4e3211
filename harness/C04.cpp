// SRCS: serializers/PlainTextSerializer.cpp serializers/PlainTextExtendedSerializer.cpp serializers/Serializer.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp utils/MathUtils.cpp utils/Counter.cpp Types.cpp
#include "serial.h"
#include "serializers/PlainTextExtendedSerializer.h"
using namespace ppp::types;
using namespace ppp::serialization;
static const char* roleName(SemanticRole r) {
  switch (r) {
    case SemanticRole::PARAGRAPH: return "PARAGRAPH"; case SemanticRole::REFERENCE: return "REFERENCE"; case SemanticRole::MARGINAL: return "MARGINAL"; case SemanticRole::FOOTNOTE: return "FOOTNOTE";
    case SemanticRole::HEADING: return "HEADING"; case SemanticRole::FORMULA: return "FORMULA"; case SemanticRole::TITLE: return "TITLE"; case SemanticRole::AUTHOR_INFO: return "AUTHOR-INFO";
    case SemanticRole::ABSTRACT: return "ABSTRACT"; case SemanticRole::DATE: return "DATE"; case SemanticRole::CAPTION: return "CAPTION"; case SemanticRole::TABLE: return "TABLE"; case SemanticRole::OTHER: return "OTHER"; case SemanticRole::TOC: return "TOC";
  }
  return "?";
}
void oneCase(uint64_t idx, Rng& r) {
  std::unique_ptr<gen::Doc> D(gen::document(r));
  auto roles = gen::roleFilter(r);
  std::unordered_set<PdfElementType> units; if (r.p(50)) units.insert(PdfElementType::WORDS);
  KIND(hashstr(gen::shape(D->d)));
  std::string want; bool firstBlock = true;
  for (auto* p : D->d->pages) {
    for (auto* b : p->blocks) {
      if (!gen::selected(roles, b)) continue;
      std::string t; bool first = true;
      for (auto* l : b->lines) for (auto* w : l->words) {
        if (w->isSecondPartOfHyphenatedWord) continue;
        t += first ? "" : " "; first = false;
        t += w->isFirstPartOfHyphenatedWord ? w->isFirstPartOfHyphenatedWord->text : w->text;
      }
      want += std::string(firstBlock ? "" : "\n\n") + "[" + roleName(b->role) + "] " + (b->isEmphasized ? "\x01" : "") + t; firstBlock = false;
    }
    want += "\n\x0c";
  }
  want += "\n";
  PlainTextExtendedSerializer s;
  std::string got = toStdout(s, D->d, roles, units);
  CHECK("extended plain text", got == want, "roles " << roles.size() << " document " << gen::shape(D->d) << " gives " << show(got) << " expected " << show(want));
  if (idx % 8 == 0) checkFile(s, r, D->d, roles, units, want);
}
