// SRCS: utils/MathUtils.cpp utils/PdfElementsUtils.cpp Types.cpp
#include "elems.h"
#include "utils/PdfElementsUtils.h"
using namespace ppp::types;
using namespace ppp::utils::elements;

static std::string S(const PdfElement* a, const PdfElement* b) { return gen::boxstr(a) + " " + gen::boxstr(b); }
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

void oneCase(uint64_t idx, Rng& r) {
  PdfCharacter a, b;
  int style = r.i(0, 5);
  gen::box(r, &a, style, r.i(0, 3));
  gen::box(r, &b, style, r.p(70) ? a.pos->rotation : r.i(0, 3));
  if (r.p(30)) b.pos->leftX = a.pos->leftX + r.pick(std::vector<double>{0, 0.00005, -0.00005, 0.0001, 0.00011, -0.00011});
  if (r.p(30)) b.pos->upperY = a.pos->upperY + r.pick(std::vector<double>{0, 0.00005, -0.00005, 0.0001, 0.00011, -0.00011});
  if (r.p(10)) a.pos->rightX = a.pos->leftX;
  if (r.p(10)) { std::swap(a.pos->leftX, a.pos->rightX); }
  if (r.p(5)) { a.pos->rotation = r.pick(std::vector<int>{-1, 4, 7}); }
  KIND(hashstr(S(&a, &b)));
  for (PdfCharacter* e : {&a, &b}) {
    auto& p = *e->pos;
    double q[4][4] = {{p.leftX, p.upperY, p.rightX, p.lowerY}, {p.upperY, p.rightX, p.lowerY, p.leftX}, {p.rightX, p.lowerY, p.leftX, p.upperY}, {p.lowerY, p.leftX, p.upperY, p.rightX}};
    int k = p.rotation >= 1 && p.rotation <= 3 ? p.rotation : 0;
    CHECK("rotLeftX", p.getRotLeftX() == q[k][0], gen::boxstr(e) << " " << p.getRotLeftX());
    CHECK("rotUpperY", p.getRotUpperY() == q[k][1], gen::boxstr(e) << " " << p.getRotUpperY());
    CHECK("rotRightX", p.getRotRightX() == q[k][2], gen::boxstr(e) << " " << p.getRotRightX());
    CHECK("rotLowerY", p.getRotLowerY() == q[k][3], gen::boxstr(e) << " " << p.getRotLowerY());
    double w = p.rightX - p.leftX, h = p.lowerY - p.upperY;
    CHECK("width", p.getWidth() == w && p.getHeight() == h, gen::boxstr(e) << " width " << p.getWidth() << " height " << p.getHeight());
    CHECK("rotated width", p.getRotWidth() == (k % 2 ? h : w) && p.getRotHeight() == (k % 2 ? w : h), gen::boxstr(e) << " rotated width " << p.getRotWidth() << " height " << p.getRotHeight());
  }
  double tol = 0.0001;
  double hg = a.pos->leftX < b.pos->leftX - tol ? b.pos->leftX - a.pos->rightX : a.pos->leftX - b.pos->rightX;
  double vg = a.pos->upperY < b.pos->upperY - tol ? b.pos->upperY - a.pos->lowerY : a.pos->upperY - b.pos->lowerY;
  CHECK("horizontal gap", computeHorizontalGap(&a, &b) == hg, S(&a, &b) << " gap " << computeHorizontalGap(&a, &b) << " expected " << hg);
  CHECK("vertical gap", computeVerticalGap(&a, &b) == vg, S(&a, &b) << " gap " << computeVerticalGap(&a, &b) << " expected " << vg);
  auto ratio = [](double s1, double e1, double s2, double e2) {
    if (s1 > e1) std::swap(s1, e1);
    if (s2 > e2) std::swap(s2, e2);
    double o = std::max(0.0, std::min(e1, e2) - std::max(s1, s2));
    return std::make_pair(e1 - s1 > 0 ? o / (e1 - s1) : 0.0, e2 - s2 > 0 ? o / (e2 - s2) : 0.0);
  };
  auto cmp = [&](const char* n, std::pair<double, double> x, std::pair<double, double> y) {
    CHECK(n, near(x.first, y.first) && near(x.second, y.second), n << " of " << S(&a, &b) << ": (" << x.first << "," << x.second << ") expected (" << y.first << "," << y.second << ")");
    CHECK(std::string(n) + " range", x.first >= 0 && x.first <= 1 && x.second >= 0 && x.second <= 1, n << " of " << S(&a, &b) << ": (" << x.first << "," << x.second << ")");
  };
  auto ex = ratio(a.pos->leftX, a.pos->rightX, b.pos->leftX, b.pos->rightX), ey = ratio(a.pos->upperY, a.pos->lowerY, b.pos->upperY, b.pos->lowerY);
  cmp("x overlap ratios", computeXOverlapRatios(&a, &b), ex);
  cmp("y overlap ratios", computeYOverlapRatios(&a, &b), ey);
  double v[4]; for (double& x : v) x = gen::coord(r, style);
  cmp("overlap ratios", computeOverlapRatios(v[0], v[1], v[2], v[3]), ratio(v[0], v[1], v[2], v[3]));
  CHECK("max x overlap ratio", near(computeMaxXOverlapRatio(&a, &b), std::max(ex.first, ex.second)), S(&a, &b));
  CHECK("max y overlap ratio", near(computeMaxYOverlapRatio(&a, &b), std::max(ey.first, ey.second)), S(&a, &b));
  CHECK("offsets", computeLeftXOffset(&a, &b) == a.pos->leftX - b.pos->leftX && computeRightXOffset(&a, &b) == a.pos->rightX - b.pos->rightX, S(&a, &b));
  double t = r.pick(std::vector<double>{0, 0.5, 1, 2.25, 0.00005, 0.0001});
  CHECK("equal leftX", computeHasEqualLeftX(&a, &b, t) == (std::fabs(a.pos->leftX - b.pos->leftX) <= t), S(&a, &b) << " tolerance " << t);
  CHECK("equal rightX", computeHasEqualRightX(&a, &b, t) == (std::fabs(a.pos->rightX - b.pos->rightX) <= t), S(&a, &b) << " tolerance " << t);
  CHECK("equal upperY", computeHasEqualUpperY(&a, &b, t) == (std::fabs(a.pos->upperY - b.pos->upperY) <= t), S(&a, &b) << " tolerance " << t);
  CHECK("equal lowerY", computeHasEqualLowerY(&a, &b, t) == (std::fabs(a.pos->lowerY - b.pos->lowerY) <= t), S(&a, &b) << " tolerance " << t);
  a.fontSize = r.i(0, 5) * 0.5; b.fontSize = r.i(0, 5) * 0.5;
  static const std::vector<std::string> F = {"", "A", "B", "a", "Ab"};
  a.fontName = r.pick(F); b.fontName = r.pick(F);
  CHECK("equal font size", computeHasEqualFontSize(&a, &b, t) == (std::fabs(a.fontSize - b.fontSize) <= t), a.fontSize << " " << b.fontSize << " tolerance " << t);
  CHECK("equal font", computeHasEqualFont(&a, &b) == (a.fontName == b.fontName), a.fontName << " " << b.fontName);
}
