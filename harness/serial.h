// Running a serializer and comparing file, stream and standard output.
#pragma once
#include "json.h"
#include "docs.h"
#include "serializers/Serializer.h"
#include <sys/stat.h>
inline std::string readFile(const std::string& p, bool* ok) { std::ifstream f(p, std::ios::binary); *ok = f.is_open(); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline std::string scratch() { static std::string d; if (d.empty()) { char t[] = "/tmp/vserial_XXXXXX"; d = mkdtemp(t); atexit([] { if (d.rfind("/tmp/vserial_", 0) == 0) (void)!system(("rm -rf '" + d + "'").c_str()); }); } return d; }
// runs serialize() with standard output redirected into a string
template <class S> std::string toStdout(const S& s, const ppp::types::PdfDocument* d, const std::unordered_set<ppp::types::SemanticRole>& ro, const std::unordered_set<ppp::types::PdfElementType>& un) {
  std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf());
  s.serialize(d, ro, un, "-");
  std::cout.rdbuf(old);
  return o.str();
}
template <class S> void checkFile(const S& s, Rng& r, const ppp::types::PdfDocument* d, const std::unordered_set<ppp::types::SemanticRole>& ro, const std::unordered_set<ppp::types::PdfElementType>& un, const std::string& want) {
  static const std::vector<std::string> DIRS = {"", "sub", "sub/sub", "with space", "quo'te", "do$HOME", "semi;colon", "amp&x", "star*", "-dash", "deep/a/b/c", "\xc3\xa4", "(p)", "#h", "back\\slash", "dou\"ble", "`tick`", "~"};
  static const std::vector<std::string> NAMES = {"out.txt", "-", "o u t", "a;b", "$x", "noext", "'q'", "-n"};
  std::string dir = scratch(), sub = r.pick(DIRS), name = r.pick(NAMES);
  if (!sub.empty()) dir += "/" + sub;
  std::string path = dir + "/" + name; bool ok;
  unlink(path.c_str());
  if (r.p(30)) { mkdir(dir.c_str(), 0755); std::ofstream f(path); for (int k = 0; k < 9000; k++) f << "old content"; }
  s.serialize(d, ro, un, path);
  std::string got = readFile(path, &ok);
  CHECK("written to the given path", ok, "no file at " << path);
  if (ok) CHECK("the file holds exactly the serialization", got == want, "file " << path << " holds " << got.size() << " bytes, expected " << want.size());
  unlink(path.c_str());
  struct stat sb;
  CHECK("nothing is written elsewhere", r.p(95) || (stat("out.txt", &sb) && stat("sub", &sb)), "files in the working directory");
}
