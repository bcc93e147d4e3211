// SRCS: utils/TextUtils.cpp
#include "json.h"
#include "utils/TextUtils.h"
using namespace ppp::utils::text;
static const std::vector<std::string> PIECES = {"a", "B", "foo", " ", "  ", "\t", "\n", "\r", "\f", "\v", ".", "?", "!", ")", ";", ",", "\"", "\\", "\b", "\x01", "\x1f", "\x7f", "\xc3\xa4", "\xff", "-", "long-word-here", "Z", "0", "/", "{", "}", std::string(1, '\0'), "\xe2\x80\xa8"};
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
void oneCase(uint64_t idx, Rng& r) {
  std::string s; int n = r.i(0, 14);
  bool spacey = r.p(40), bytes = r.p(20);
  for (int k = 0; k < n; k++) s += bytes ? std::string(1, char(r.i(0, 255))) : spacey && r.p(50) ? std::string(1, " \t\n"[r.i(0, 2)]) : r.pick(PIECES);
  if (idx < 256) s = std::string(1, char(idx));
  KIND(hashstr(s));
  // escapeJson
  std::string e = escapeJson(s); J j;
  CHECK("escaped string is a JSON string that decodes to the input", parseJson("\"" + e + "\"", &j) && j.t == J::STR && j.s == s, "escapeJson(" << show(s) << ") = " << show(e));
  std::string want;
  for (unsigned char c : s) {
    char b[8];
    switch (c) { case '"': want += "\\\""; break; case '\\': want += "\\\\"; break; case '\b': want += "\\b"; break; case '\f': want += "\\f"; break; case '\n': want += "\\n"; break; case '\r': want += "\\r"; break; case '\t': want += "\\t"; break;
      default: if (c < 0x20) { snprintf(b, 8, "\\u%04x", c); want += b; } else want += char(c); }
  }
  CHECK("escaped string", e == want, "escapeJson(" << show(s) << ") = " << show(e));
  // splitIntoWords
  std::string delims = r.p(60) ? " \t\r\n\f\v" : r.p(50) ? "-." : "a";
  auto split = [&](auto text, auto isd) {
    std::vector<decltype(text)> out; decltype(text) cur;
    for (auto c : text) { if (isd(c)) { if (!cur.empty()) out.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) out.push_back(cur);
    return out;
  };
  std::vector<std::string> w = {"x"}, ew = split(s, [&](char c) { return delims.find(c) != std::string::npos; });
  ew.insert(ew.begin(), "x");
  splitIntoWords(s, &w, delims.c_str());
  CHECK("words of a string", w == ew, "splitIntoWords(" << show(s) << ") gives " << w.size() - 1 << " words, expected " << ew.size() - 1);
  std::wstring ws_; for (unsigned char c : s) ws_ += wchar_t(c >= 0x80 ? 0x2000 + c : c);
  std::vector<std::wstring> ww, eww = split(ws_, [&](wchar_t c) { return c < 128 && delims.find(char(c)) != std::string::npos; });
  splitIntoWords(ws_, &ww, delims.c_str());
  CHECK("words of a wide string", ww == eww, "splitIntoWords(L" << show(s) << ") gives " << ww.size() << " words, expected " << eww.size());
  if (delims[0] == ' ') { std::vector<std::string> d; splitIntoWords(s, &d); ew.erase(ew.begin()); CHECK("default delimiters", d == ew, show(s)); }
  // predicates
  std::string sd = r.p(60) ? "?!.);" : "a-";
  CHECK("ends with sentence delimiter", endsWithSentenceDelimiter(s, sd.c_str()) == (!s.empty() && sd.find(s.back()) != std::string::npos), show(s));
  CHECK("ends with default sentence delimiter", endsWithSentenceDelimiter(s) == (!s.empty() && std::string("?!.);").find(s.back()) != std::string::npos), show(s));
  CHECK("starts with upper", startsWithUpper(s) == (!s.empty() && s[0] >= 'A' && s[0] <= 'Z'), show(s));
  // shorten
  unsigned len = r.i(0, 20);
  CHECK("shorten", shorten(s, len) == (s.size() <= len ? s : s.substr(0, len) + "..."), "shorten(" << show(s) << "," << len << ") = " << show(shorten(s, len)));
  // strip (only ASCII: isspace of other bytes is not defined)
  std::string as; for (char c : s) as += (c & 0x80) ? 'x' : c;
  size_t lo = 0, hi = as.size(); while (lo < hi && ws(as[lo])) lo++; while (hi > lo && ws(as[hi - 1])) hi--;
  CHECK("strip", strip(as) == as.substr(lo, hi - lo), "strip(" << show(as) << ") = " << show(strip(as)));
  // createRandomString
  static const std::vector<std::string> ALPH = {"a", "ab", "xyz", "0123456789"};
  std::string al = r.pick(ALPH), pre = r.p(50) ? "" : s.substr(0, 5);
  unsigned rl = r.i(0, 12);
  std::string rs = createRandomString(rl, pre, al.c_str());
  bool in = rs.size() == pre.size() + rl && rs.compare(0, pre.size(), pre) == 0;
  for (size_t k = pre.size(); in && k < rs.size(); k++) in = al.find(rs[k]) != std::string::npos;
  CHECK("random string", in, "createRandomString(" << rl << "," << show(pre) << "," << al << ") = " << show(rs));
  if (idx % 64 == 0) { std::set<char> seen; for (char c : createRandomString(400, "", al.c_str())) seen.insert(c); CHECK("every character of the alphabet can occur", seen.size() == al.size(), "alphabet " << al << ": only " << seen.size() << " of its characters occur in 400"); }
  // join
  std::vector<std::string> parts; std::string sep = r.p(30) ? "" : r.p(50) ? ", " : "-", ej;
  for (int k = r.i(0, 4); k > 0; k--) parts.push_back(r.p(30) ? "" : r.pick(PIECES));
  for (size_t k = 0; k < parts.size(); k++) ej += (k ? sep : "") + parts[k];
  CHECK("join", join(parts, sep) == ej, "join of " << parts.size() << " strings with \"" << sep << "\" = " << show(join(parts, sep)) << " expected " << show(ej));
  // wrap keeps the text: apart from the indents, only single spaces become line breaks
  unsigned width = r.i(1, 30), ind = r.i(0, r.p(80) ? std::min(8u, width) : 40u);
  std::string wr = wrap(s, width, ind);
  size_t a = 0; bool good = wr.compare(0, ind, std::string(ind, ' ')) == 0; size_t b = ind;
  for (; good && a < s.size(); a++) {
    if (b >= wr.size()) { good = false; break; }
    if (wr[b] == s[a]) {
      b++;
      // a kept newline may be followed by an indent
      if (s[a] == '\n' && ind && wr.compare(b, ind, std::string(ind, ' ')) == 0 && wr.size() - b >= (s.size() - a - 1) + ind && s.compare(a + 1, std::string::npos, wr.substr(b)) != 0) b += ind;
    } else if (wr[b] == '\n' && s[a] == ' ') { b++; good = wr.compare(b, ind, std::string(ind, ' ')) == 0; b += ind; }
    else good = false;
  }
  std::string x = s, y = wr;
  auto strip_ws = [](std::string t) { std::string o; for (char c : t) if (c != ' ' && c != '\n') o += c; return o; };
  CHECK("wrap keeps all characters", strip_ws(x) == strip_ws(y), "wrap(" << show(s) << "," << width << "," << ind << ") = " << show(wr));
  CHECK("wrap starts with the indent", wr.compare(0, ind, std::string(ind, ' ')) == 0 && wr.size() >= s.size() + ind, "wrap(" << show(s) << "," << width << "," << ind << ") = " << show(wr));
  if (s.find('\n') == std::string::npos && ind < width && ind == 0) {
    std::string flat = wr; for (char& c : flat) if (c == '\n') c = ' ';
    CHECK("wrap only turns spaces into line breaks", flat == s, "wrap(" << show(s) << "," << width << ") = " << show(wr));
    // no line is longer than the width unless it consists of a single word
    std::stringstream ss(wr); std::string line;
    while (std::getline(ss, line)) CHECK("wrapped lines are not longer than the width", line.size() <= width || line.find(' ', 0) == std::string::npos || line.find(' ') > width, "wrap(" << show(s) << "," << width << ") has the line " << show(line));
  }
  (void)good;
}
