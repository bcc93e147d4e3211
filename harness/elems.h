// Builders of layout elements.
#pragma once
#include "common.h"
#include "Types.h"
#include "Config.h"
namespace gen {
using namespace ppp::types;

inline double coord(Rng& r, int style) {
  switch (style) {
    case 0: return r.i(0, 20);
    case 1: return r.i(-20, 20);
    case 2: return r.i(-20, -1) - 0.5;
    case 3: return r.d(-1000, 1000);
    case 4: return r.d(0, 600);
    default: return r.i(0, 6) * 0.25;
  }
}
inline void box(Rng& r, PdfElement* e, int style, int rot = 0) {
  double a = coord(r, style), b = coord(r, style), c = coord(r, style), d = coord(r, style);
  e->pos->leftX = std::min(a, b); e->pos->rightX = std::max(a, b);
  e->pos->upperY = std::min(c, d); e->pos->lowerY = std::max(c, d);
  e->pos->rotation = rot;
}
inline std::string boxstr(const PdfElement* e) {
  std::ostringstream o; o.precision(17);
  o << "(" << e->pos->leftX << "," << e->pos->upperY << "," << e->pos->rightX << "," << e->pos->lowerY;
  if (e->pos->rotation) o << " rot" << e->pos->rotation;
  o << ")";
  return o.str();
}
template <class T> std::string boxes(const std::vector<T*>& v) { std::string s; for (auto* e : v) s += boxstr(e); return s; }
}
