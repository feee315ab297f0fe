// Signals and a reference 9/7 analysis filter bank.
#pragma once
#include "pbt.h"
#include <vector>
namespace dwt {
using V = std::vector<double>;
inline auto genSignal(pbt::Source &s, pbt::Case &c, int len) -> V {
  V x(static_cast<size_t>(len), 0);
  double scale = std::pow(10.0, static_cast<double>(s.range(-3, 3)));
  switch (s.range(0, 4)) {
  case 0: {
    for (int n = static_cast<int>(s.range(1, 4)); n > 0; n--) {
      x[static_cast<size_t>(s.range(0, len - 1))] = s.real(-1, 1) * scale;
    }
    c.label("impulses");
    break;
  }
  case 1: {
    double v = s.real(-1, 1) * scale;
    x.assign(x.size(), v);
    c.label("constant");
    break;
  }
  case 2: {
    double f = s.real(0, 3.14159);
    double p = s.real(0, 6.28);
    for (size_t i = 0; i < x.size(); i++) {
      x[i] = scale * std::sin(f * static_cast<double>(i) + p);
    }
    c.label("tone");
    break;
  }
  case 3: {
    uint64_t k = s.draw(~0ULL);
    for (auto &v : x) {
      k = pbt::mix64(k);
      v = scale * (static_cast<double>(k >> 11) / 4503599627370496.0 - 1);
    }
    c.label("noise");
    break;
  }
  default: {
    auto at = static_cast<size_t>(s.range(0, len - 1));
    for (size_t i = at; i < x.size(); i++) {
      x[i] = scale;
    }
    c.label("step");
    break;
  }
  }
  return x;
}
inline auto at(const V &x, long i) -> double { // whole-sample symmetric extension
  long n = static_cast<long>(x.size());
  while (i < 0 || i >= n) {
    if (i < 0) {
      i = -i;
    }
    if (i >= n) {
      i = 2 * (n - 1) - i;
    }
  }
  return x[static_cast<size_t>(i)];
}
// reference analysis: 9/7 biorthogonal filters, coarse half first
inline auto refDwt(const V &in, int levels) -> V {
  static const double lp[] = {0.852698679009404, 0.377402855612654, -0.110624404418423,
                              -0.023849465019380, 0.037828455506995};
  static const double hp[] = {-0.788485616405665, 0.418092273222212, 0.040689417609559,
                              -0.064538882628938};
  V out = in;
  V x = in;
  for (int l = 0; l < levels; l++) {
    size_t n = x.size();
    V lo;
    V hi;
    for (size_t j = 0; j < n; j += 2) {
      double a = lp[0] * x[j];
      double d = hp[0] * x[j + 1];
      for (long t = 1; t <= 4; t++) {
        a += lp[t] * (at(x, static_cast<long>(j) - t) + at(x, static_cast<long>(j) + t));
      }
      for (long t = 1; t <= 3; t++) {
        d += hp[t] * (at(x, static_cast<long>(j) + 1 - t) + at(x, static_cast<long>(j) + 1 + t));
      }
      lo.push_back(a);
      hi.push_back(d);
    }
    std::copy(lo.begin(), lo.end(), out.begin());
    std::copy(hi.begin(), hi.end(), out.begin() + static_cast<long>(n / 2));
    x = lo;
  }
  return out;
}
inline auto maxAbs(const V &x) -> double {
  double m = 0;
  for (auto v : x) {
    m = std::max(m, std::fabs(v));
  }
  return m;
}
inline auto dist(const V &a, const V &b) -> double {
  double m = a.size() == b.size() ? 0 : 1e300;
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    double d = std::fabs(a[i] - b[i]);
    m = d <= m ? m : d; // NaN propagates
  }
  return m;
}

} // namespace dwt
