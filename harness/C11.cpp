// SRCS: WordsDehyphenation.cpp serializers/PlainTextSerializer.cpp serializers/Serializer.cpp utils/PdfElementsUtils.cpp utils/TextUtils.cpp utils/MathUtils.cpp Types.cpp
#include "serial.h"
#include "WordsDehyphenation.h"
#include "serializers/PlainTextSerializer.h"
using namespace ppp::types;

static const std::vector<std::string> T = {"a", "b-", "-", "--", "", "xy", "xy-", "a-b", "-c", "foo--", "\xc3\xa4-", "\xc2\xad", "\xe2\x80\x90", "a\xe2\x80\x90", "1-", "Q.", std::string("z\0-", 3), "-\n", "--x"};

struct Ser : ppp::serialization::PlainTextSerializer { using PlainTextSerializer::serializeToStream; };
void oneCase(uint64_t idx, Rng& r) {
  PdfDocument d;
  std::vector<PdfTextLine*> lines; std::vector<PdfWord*> words; std::vector<PdfCharacter*> chars;
  int hyph = r.pick(std::vector<int>{10, 40, 80});
  int np = r.i(0, 3);
  for (int p = 0; p < np; p++) {
    auto* page = new PdfPage(); page->pageNum = p + 1; d.pages.push_back(page);
    for (int b = r.i(0, 3); b > 0; b--) {
      auto* block = new PdfTextBlock(); block->doc = &d; page->blocks.push_back(block);
      for (int l = r.i(0, 4); l > 0; l--) {
        auto* line = new PdfTextLine(); line->doc = &d; line->block = block; block->lines.push_back(line); lines.push_back(line);
        for (int w = r.i(0, r.p(50) ? 1 : 3); w > 0; w--) {
          auto* word = new PdfWord(); word->doc = &d; word->line = line; word->text = r.pick(T);
          if (r.p(hyph) && (word->text.empty() || word->text.back() != '-')) word->text += "-";
          for (char c : word->text) { auto* ch = new PdfCharacter(); ch->text = std::string(1, c); ch->word = word; word->characters.push_back(ch); chars.push_back(ch); }
          line->words.push_back(word); words.push_back(word);
        }
      }
    }
  }
  std::ostringstream o;
  for (auto* p : d.pages) { o << "P"; for (auto* b : p->blocks) { o << "B"; for (auto* l : b->lines) { o << "L"; for (auto* w : l->words) o << show(w->text); } } }
  std::string h = o.str();
  KIND(hashstr(h));
  // expected: parts[k] of the k-th merged word, in order
  std::map<PdfWord*, int> first, second;
  std::vector<std::string> merged;
  PdfTextLine* prev = nullptr;
  for (auto* l : lines) {
    if (l->words.empty()) continue;
    if (prev) {
      auto *a = prev->words.back(), *b = l->words[0];
      if (a->text.size() > 1 && a->text.back() == '-') {
        if (second.count(a) && a == prev->words[0]) { int k = second[a]; merged[k] = merged[k].substr(0, merged[k].size() - 1) + b->text; first[a] = second[b] = k; }
        else { merged.push_back(a->text.substr(0, a->text.size() - 1) + b->text); first[a] = second[b] = int(merged.size()) - 1; }
      }
    }
    prev = l;
  }
  std::vector<std::string> texts; std::vector<std::vector<PdfWord*>> ws; std::vector<std::vector<PdfCharacter*>> cs;
  for (auto* w : words) { texts.push_back(w->text); cs.push_back(w->characters); }
  for (auto* l : lines) ws.push_back(l->words);
  ppp::config::WordsDehyphenationConfig cfg;
  ppp::modules::WordsDehyphenation(&d, &cfg).process();
  for (size_t k = 0; k < lines.size(); k++) CHECK("the words of a line stay", lines[k]->words == ws[k], h);
  std::map<int, const PdfWord*> obj;
  for (size_t k = 0; k < words.size(); k++) {
    auto* w = words[k];
    CHECK("texts of words stay", w->text == texts[k] && w->characters == cs[k], h << " word " << k);
    bool f = first.count(w), s = second.count(w);
    CHECK("first part marked exactly if hyphenated", (w->isFirstPartOfHyphenatedWord != nullptr) == f, h << " word " << k << " " << show(texts[k]) << " expected " << f);
    CHECK("second part marked exactly after a hyphenated word", (w->isSecondPartOfHyphenatedWord != nullptr) == s, h << " word " << k << " " << show(texts[k]) << " expected " << s);
    for (int q = 0; q < 2; q++) {
      auto* m = q ? w->isSecondPartOfHyphenatedWord : w->isFirstPartOfHyphenatedWord;
      if (!m || !(q ? s : f)) continue;
      int id = q ? second[w] : first[w];
      CHECK("merged text", m->text == merged[id], h << " word " << k << ": " << show(m->text) << " expected " << show(merged[id]));
      if (!obj.count(id)) { for (auto& x : obj) CHECK("one word per hyphenated word", x.second != m, h); obj[id] = m; }
      CHECK("all parts refer to the same word", obj[id] == m, h << " word " << k);
      CHECK("merged word is a new word of the document", m->doc == &d && std::find(words.begin(), words.end(), m) == words.end(), h);
    }
  }
  // the text survives: each hyphenated word is written once, merged
  std::ostringstream got;
  std::unordered_set<SemanticRole> roles;
  Ser ser; ser.serializeToStream(&d, roles, {}, got);
  std::string want; bool any = false;
  for (auto* p : d.pages) for (auto* b : p->blocks) {
    if (any) want += "\n\n";
    any = true;
    bool fw = true;
    for (auto* l : b->lines) for (auto* w : l->words) {
      if (second.count(w)) continue;
      if (!fw) want += " ";
      fw = false;
      want += first.count(w) ? merged[first[w]] : w->text;
    }
  }
  want += "\n";
  CHECK("the text of the document survives", got.str() == want, h << ": " << show(got.str()) << " expected " << show(want));
  std::set<const PdfWord*> del;
  for (auto* w : words) { del.insert(w->isFirstPartOfHyphenatedWord); del.insert(w->isSecondPartOfHyphenatedWord); }
  for (auto* w : words) { del.erase(w); delete w; }
  for (auto* m : del) delete m;
  for (auto* c : chars) delete c;
  for (auto* l : lines) delete l;
}
