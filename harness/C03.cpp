// SRCS: serializers/PlainTextSerializer.cpp serializers/PlainTextExtendedSerializer.cpp serializers/Serializer.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp utils/MathUtils.cpp utils/Counter.cpp Types.cpp
#include "serial.h"
#include "serializers/PlainTextSerializer.h"
using namespace ppp::types;
using namespace ppp::serialization;
void oneCase(uint64_t idx, Rng& r) {
  std::unique_ptr<gen::Doc> D(gen::document(r));
  auto roles = gen::roleFilter(r);
  std::unordered_set<PdfElementType> units; if (r.p(50)) units.insert(PdfElementType::WORDS);
  KIND(hashstr(gen::shape(D->d)));
  std::string want; bool firstBlock = true;
  for (auto* p : D->d->pages) for (auto* b : p->blocks) {
    if (!gen::selected(roles, b)) continue;
    std::string t; bool first = true;
    for (auto* l : b->lines) for (auto* w : l->words) {
      if (w->isSecondPartOfHyphenatedWord) continue;
      t += first ? "" : " "; first = false;
      t += w->isFirstPartOfHyphenatedWord ? w->isFirstPartOfHyphenatedWord->text : w->text;
    }
    want += (firstBlock ? "" : "\n\n") + t; firstBlock = false;
  }
  want += "\n";
  PlainTextSerializer s;
  std::string got = toStdout(s, D->d, roles, units);
  CHECK("plain text", got == want, "roles " << roles.size() << " document " << gen::shape(D->d) << " gives " << show(got) << " expected " << show(want));
  if (idx % 8 == 0) checkFile(s, r, D->d, roles, units, want);
}
