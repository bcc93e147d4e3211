// SRCS: Validators.cpp PdfDocumentSerialization.cpp utils/PdfElementsUtils.cpp utils/MathUtils.cpp utils/TextUtils.cpp utils/Counter.cpp Types.cpp serializers/PlainTextSerializer.cpp serializers/PlainTextExtendedSerializer.cpp serializers/Serializer.cpp
#include "common.h"
#include <boost/any.hpp>
#include <boost/program_options.hpp>
#include "PdfDocumentSerialization.h"
#include "Types.h"
#include "Validators.h"
#include "utils/PdfElementsUtils.h"
using namespace ppp::types;
using std::string;
using std::vector;
namespace el = ppp::utils::elements;

static const vector<string> TYPES = {"pages", "blocks", "lines", "words", "characters", "figures", "shapes"};
static const vector<string> ROLES = {"paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date", "caption", "table", "other", "toc"};
static const std::map<string, SerializationFormat> FORMATS = {{"txt", SerializationFormat::TXT}, {"txt-extended", SerializationFormat::TXT_EXTENDED}};
static const std::map<string, PdfElementType> TYPE = {{"pages", PdfElementType::PAGES}, {"blocks", PdfElementType::TEXT_BLOCKS}, {"lines", PdfElementType::TEXT_LINES}, {"words", PdfElementType::WORDS}, {"characters", PdfElementType::CHARACTERS}, {"figures", PdfElementType::FIGURES}, {"shapes", PdfElementType::SHAPES}};
static const std::map<string, SemanticRole> ROLE = {{"paragraph", SemanticRole::PARAGRAPH}, {"reference", SemanticRole::REFERENCE}, {"marginal", SemanticRole::MARGINAL}, {"footnote", SemanticRole::FOOTNOTE}, {"heading", SemanticRole::HEADING}, {"formula", SemanticRole::FORMULA}, {"title", SemanticRole::TITLE}, {"author-info", SemanticRole::AUTHOR_INFO}, {"abstract", SemanticRole::ABSTRACT}, {"date", SemanticRole::DATE}, {"caption", SemanticRole::CAPTION}, {"table", SemanticRole::TABLE}, {"other", SemanticRole::OTHER}, {"toc", SemanticRole::TOC}};

template <class E> void check(const char* kind, const std::map<string, E>& m, const vector<string>& vals, bool set) {
  boost::any v;
  if (set) v = m.begin()->second;
  bool ok = !set && vals.size() == 1 && m.count(vals[0]), got = false;
  E* tag = nullptr;
  try { validate(v, vals, tag, 0); got = true; } catch (const boost::program_options::error&) {}
  std::ostringstream o;
  o << kind << " " << vals.size() << " values"; for (auto& x : vals) o << " '" << x << "'"; o << (set ? " (set before)" : "");
  CHECK("a value is accepted exactly if it is the name of one choice", got == ok, o.str() << (got ? " accepted" : " rejected"));
  if (ok && got) {
    CHECK("a name means its enumerator", !v.empty() && v.type() == typeid(E) && boost::any_cast<E>(v) == m.at(vals[0]), o.str());
  }
}

void oneCase(uint64_t idx, Rng& r) {
  // values: names, names of other options, mutated names, several values, none
  vector<string> pool = TYPES;
  pool.insert(pool.end(), ROLES.begin(), ROLES.end());
  for (auto s : {"txt", "txt-extended", "jsonl", "", "text", "Pages", "block", "all", "0", "1", "6", "14"}) pool.push_back(s);
  vector<string> vals;
  int n = r.p(85) ? 1 : r.i(0, 3);
  for (int i = 0; i < n; i++) {
    string s = r.pick(pool);
    if (r.p(25)) {
      switch (r.i(0, 4)) {
        case 0: s += r.p(50) ? " " : "s"; break;
        case 1: if (!s.empty()) s.erase(r.i(0, s.size() - 1), 1); break;
        case 2: if (!s.empty()) s[0] = toupper(s[0]); break;
        case 3: s = " " + s; break;
        default: s += r.pick(pool);
      }
    }
    vals.push_back(s);
  }
  bool set = r.p(8);
  { std::ostringstream o; for (auto& x : vals) o << x << "|"; o << set; KIND(hashstr(o.str())); }
  check("type", TYPE, vals, set);
  check("role", ROLE, vals, set);
  check("format", FORMATS, vals, set);

  for (auto& e : TYPE) CHECK("name of a type", el::getPdfElementTypeName(e.second) == e.first, e.first << " got " << el::getPdfElementTypeName(e.second));
  for (auto& e : ROLE) CHECK("name of a role", el::getSemanticRoleName(e.second) == e.first, e.first << " got " << el::getSemanticRoleName(e.second));
  for (auto& e : FORMATS) CHECK("name of a format", el::getSerializationFormatName(e.second) == e.first, e.first << " got " << el::getSerializationFormatName(e.second));
  auto ts = el::getPdfElementTypes();
  CHECK("all types are listed once", ts.size() == TYPE.size() && std::set<PdfElementType>(ts.begin(), ts.end()).size() == ts.size(), ts.size());
  auto rs = el::getSemanticRoles();
  CHECK("all roles are listed once", rs.size() == ROLE.size() && std::set<SemanticRole>(rs.begin(), rs.end()).size() == rs.size(), rs.size());
  auto fs = el::getSerializationFormats();
  CHECK("all formats are listed once", fs.size() == 3 && std::set<SerializationFormat>(fs.begin(), fs.end()).size() == 3, fs.size());
  string sep = r.pick(vector<string>{", ", "|", "", " or "});
  auto join = [&](const vector<string>& v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? sep : "") + v[i]; return s; };
  CHECK("names of all types, separated", el::getPdfElementTypesStr(sep) == join(TYPES), el::getPdfElementTypesStr(sep));
  CHECK("names of all roles, separated", el::getSemanticRolesStr(sep) == join(ROLES), el::getSemanticRolesStr(sep));
  std::set<ppp::serialization::Serializer*> used;
  for (auto f : fs) {
    auto* s = ppp::serialization::getSerializer(f);
    bool has = FORMATS.count(el::getSerializationFormatName(f));
    CHECK("a serializer exactly for the formats that are accepted", (s != nullptr) == has, el::getSerializationFormatName(f));
    if (s) CHECK("every format has its own serializer", used.insert(s).second, el::getSerializationFormatName(f));
  }
  auto* p = ppp::serialization::getSerializer(SerializationFormat::TXT);
  CHECK("txt is plain text", dynamic_cast<ppp::serialization::PlainTextSerializer*>(p), "");
  CHECK("txt-extended is extended plain text", dynamic_cast<ppp::serialization::PlainTextExtendedSerializer*>(ppp::serialization::getSerializer(SerializationFormat::TXT_EXTENDED)), "");
  // the choices shown to the user are the accepted ones, in any order
  string cs = ppp::serialization::getSerializationFormatChoicesStr();
  CHECK("the choices shown are the accepted formats", cs == "txt, txt-extended" || cs == "txt-extended, txt", cs);
}
