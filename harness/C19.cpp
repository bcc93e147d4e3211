// SRCS: utils/MathUtils.cpp utils/TextUtils.cpp utils/PdfElementsUtils.cpp Types.cpp
#include "elems.h"
#include "utils/Comparators.h"
#include "utils/FixedCapacityPriorityQueue.h"
using namespace ppp::types;
using namespace ppp::utils::comparators;

template <class T, class Cmp, class Gen> static void run(Rng& r, const char* what, Cmp less, Gen gen) {
  int cap = r.i(1, r.p(20) ? 12 : 4), n = r.i(0, 25);
  FixedCapacityPriorityQueue<T, Cmp> q(cap);
  std::vector<T> model;
  std::ostringstream h; h << what << " capacity " << cap << ", pushes";
  CHECK("starts empty", q.empty() && q.size() == 0, h.str());
  for (int i = 0; i < n; i++) {
    if (r.p(15) && !model.empty()) {
      T t = q.top();
      q.pop();
      model.erase(std::find(model.begin(), model.end(), t));
      h << " pop";
    }
    bool full = int(model.size()) == cap;
    T top{}; if (full) top = q.top();
    T x = gen(r);
    q.push(x);
    h << " " << i;
    if (full) {
      auto it = std::find(model.begin(), model.end(), top);
      CHECK("top is an element", it != model.end(), h.str());
      if (it == model.end()) return;
      model.erase(it);
    }
    model.push_back(x);
    CHECK("size", q.size() == model.size() && int(q.size()) <= cap, h.str() << " size " << q.size());
    if (q.empty()) return;
    bool best = true;
    for (auto& m : model) best &= !less(q.top(), m);
    CHECK("top comes first", best, h.str());
    if (r.p(40)) {
      std::vector<T> out(r.i(0, 2));
      auto cmp = [&](const T& a, const T& b) { return less(a, b); };
      q.sort(cmp, &out);
      CHECK("sort: all elements", std::multiset<T>(out.begin(), out.end()) == std::multiset<T>(model.begin(), model.end()), h.str());
      bool sorted = true;
      for (size_t j = 1; j < out.size(); j++) sorted &= !cmp(out[j], out[j - 1]);
      CHECK("sort: in order", sorted, h.str());
      CHECK("sort: queue unchanged", q.size() == model.size(), h.str());
    }
  }
  KIND(hashstr(h.str()) ^ r.next());
  std::multiset<T> rest;
  while (!q.empty()) { rest.insert(q.top()); q.pop(); }
  CHECK("exactly the elements not removed", rest == std::multiset<T>(model.begin(), model.end()), h.str());
}

void oneCase(uint64_t idx, Rng& r) {
  run<int, std::less<int>>(r, "int", std::less<int>(), [](Rng& r) { return r.i(-5, 5); });
  run<int, std::greater<int>>(r, "int, greater", std::greater<int>(), [](Rng& r) { return r.i(-1000, 1000); });
  run<std::string, std::greater<std::string>>(r, "string", std::greater<std::string>(), [](Rng& r) { return std::string(size_t(r.i(0, 3)), char('a' + r.i(0, 3))); });
  std::vector<std::unique_ptr<PdfFigure>> own;
  run<PdfElement*, RightXDescComparator>(r, "element", RightXDescComparator(), [&](Rng& r) -> PdfElement* { own.emplace_back(new PdfFigure()); gen::box(r, own.back().get(), r.i(0, 1)); return own.back().get(); });
}
