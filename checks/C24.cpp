// C24: interpolation of keyframes against direct definitions.
#include "refsynth.h"
#include <Tools/include/Tools.h>

using namespace haptics::tools;
using ref::Points;
namespace ht = haptics::types;

namespace {
auto genPoints(pbt::Source &s, pbt::Case &c, int minCount) -> Points {
  Points p;
  int n = minCount + static_cast<int>(s.weighted({4, 4, 2, 1, 1}) == 4 ? s.range(0, 40) : s.range(0, 6));
  int x = 0;
  int gap = static_cast<int>(s.pick(std::vector<int>{1, 3, 10, 100, 500}));
  bool flat = s.chance(1, 6);
  double last = 0;
  for (int i = 0; i < n; i++) {
    double y = s.chance(1, 4) ? static_cast<double>(s.range(-2, 2)) / 2 : s.real(-1, 1);
    if (i > 0 && flat && s.boolean()) {
      y = last;
    }
    last = y;
    p.emplace_back(x, y);
    x += static_cast<int>(s.range(1, gap));
  }
  std::string d = "points:";
  for (auto &q : p) {
    d += pbt::str(" ", q.first, ":", q.second);
  }
  c.describe(d);
  c.label(n > 8, "more than 8 keyframes");
  c.label(n % 2 == 0, "even number of keyframes");
  return p;
}
void compare(pbt::Case &c, const char *what, const std::vector<double> &got,
             const std::vector<double> &want, double tol) {
  c.require(got.size() == want.size(), pbt::str(what, "-length"),
            pbt::str(what, " gives ", got.size(), " samples, expected ", want.size()));
  for (size_t i = 0; i < got.size(); i++) {
    c.require(std::fabs(got[i] - want[i]) <= tol, pbt::str(what, "-value"),
              pbt::str(what, " at sample ", i, ": ", got[i], ", expected ", want[i]));
  }
}
void curves(pbt::Source &s, pbt::Case &c) {
  Points p = genPoints(s, c, 3);
  c.nontrivial();
  compare(c, "linear", linearInterpolation2(p), ref::linear(p, false), 1e-9);
  compare(c, "cubic", cubicInterpolation2(p), ref::linear(p, true), 1e-9);
  compare(c, "codec-linear", interpolationCodec(p, ht::CurveType::Linear), ref::linear(p, false), 1e-9);
  compare(c, "codec-cubic", interpolationCodec(p, ht::CurveType::Cubic), ref::linear(p, true), 1e-9);
  compare(c, "akima", akimaInterpolation(p), ref::akima(p), 1e-8);
  compare(c, "bezier", bezierInterpolation(p), ref::bezier(p), 1e-6);
  compare(c, "spline", cubicInterpolation(p), ref::naturalSpline(p), 1e-6);
  if (p.back().first <= 1500) {
    compare(c, "bspline", bsplineInterpolation(p), ref::bspline(p), ref::bsplineTolerance(p));
    c.label("b-spline");
  }
}
void twoPoints(pbt::Source &s, pbt::Case &c) {
  Points p = genPoints(s, c, 2);
  p.resize(2);
  c.nontrivial();
  compare(c, "linear", linearInterpolation2(p), ref::linear(p, false), 1e-9);
  compare(c, "cubic", cubicInterpolation2(p), ref::linear(p, true), 1e-9);
  compare(c, "codec-linear", interpolationCodec(p, ht::CurveType::Linear), ref::linear(p, false), 1e-9);
  compare(c, "codec-cubic", interpolationCodec(p, ht::CurveType::Cubic), ref::linear(p, true), 1e-9);
}
void pointwise(pbt::Source &s, pbt::Case &c) {
  int x0 = static_cast<int>(s.range(-1000, 1000));
  int x1 = x0 + static_cast<int>(s.range(1, 2000));
  double y0 = s.real(-100, 100);
  double y1 = s.real(-100, 100);
  double x = s.chance(1, 3) ? static_cast<double>(s.range(x0 - 5, x1 + 5)) : s.real(x0 - 20, x1 + 20);
  c.describe(pbt::str("(", x0, ",", y0, ") (", x1, ",", y1, ") at ", x));
  c.nontrivial(y0 != y1);
  double want = x <= x0 ? y0 : x >= x1 ? y1 : ref::lerp(x0, y0, x1, y1, x);
  double got = linearInterpolation({x0, y0}, {x1, y1}, x);
  c.label(x < x0 || x > x1, "outside");
  c.require(std::fabs(got - want) < 1e-9, "linear-point", pbt::str(got, ", expected ", want));
  // average frequency of a linear chirp from its start to a position inside it
  if (x >= x0 && x <= x1) {
    double avg = (y0 + ref::lerp(x0, y0, x1, y1, x)) / 2;
    double ch = chirpInterpolation(x0, x1, y0, y1, x);
    c.require(std::fabs(ch - avg) < 1e-9, "chirp", pbt::str(ch, ", expected ", avg));
    double rev = chirpInterpolation(x1, x0, y1, y0, x);
    c.require(std::fabs(rev - avg) < 1e-9, "chirp-reversed", pbt::str(rev, ", expected ", avg));
    c.require(chirpInterpolation(x0, x0, y0, y1, x) == y1, "chirp-empty", "a chirp of length 0");
    c.require(linearInterpolation({x0, y0}, {x0, y1}, x0) == y1, "linear-empty", "a line of length 0");
  }
  // affine map of intervals, also of decreasing ones
  double a = s.real(-10, 10);
  double b = a + (s.boolean() ? 1 : -1) * s.real(0.01, 10);
  double u = s.real(-20, 20);
  double g = genericNormalization(a, b, y0, y1, u);
  double wantG = y0 + (y1 - y0) * (u - a) / (b - a);
  c.require(std::fabs(g - wantG) < 1e-6 * (1 + std::fabs(wantG)), "normalise",
            pbt::str(g, ", expected ", wantG));
  c.require(genericNormalization(a, a, y0, y1, u) == -1, "normalise-empty", "an empty interval");
  int n = static_cast<int>(s.edgy(-5, 1 << 30));
  bool pow2 = false;
  for (int k = 0; k < 31; k++) {
    pow2 = pow2 || n == (1 << k);
  }
  c.require(isPowerOfTwo(n) == pow2, "power-of-two", pbt::str(n));
  std::string str = s.boolean() ? std::to_string(s.edgy(0, 1LL << 40)) : hm::genString(s, 6, true);
  bool digits = !str.empty();
  bool ascii = true;
  for (unsigned char ch : str) {
    digits = digits && ch >= '0' && ch <= '9';
    ascii = ascii && ch < 128;
  }
  if (ascii) {
    c.require(isNumber(str) == digits, "is-number", str);
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C24";
  cfg.rule = "curves: 3-46 keyframes at strictly increasing samples (gaps 1..500, values in [-1,1], "
             "plateaus), every curve interpolation compared sample by sample with a direct definition; "
             "twoPoints; pointwise: single-point linear, chirp and range mapping. Non-trivial: every "
             "curve case; pointwise cases whose two values differ.";
  cfg.assumptions = {"keyframes are at strictly increasing sample positions starting at 0",
                     "B-splines are compared within one tenth of a parameter step"};
  cfg.targets = {{"curves", curves, 20000, 400000},
                 {"twoPoints", twoPoints, 10000, 200000},
                 {"pointwise", pointwise, 100000, 2000000}};
  return pbt::run(cfg, argc, argv);
}
