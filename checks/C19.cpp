// C19: discrete wavelet transform: reference filter bank, perfect reconstruction, linearity.
#include "dwt.h"
#include "pbt.h"
#include <FilterBank/include/Wavelet.h>

using haptics::filterbank::Wavelet;

namespace {
using namespace dwt;
void transform(pbt::Source &s, pbt::Case &c) {
  int lg = static_cast<int>(s.range(3, 10));
  int len = 1 << lg;
  // at the deepest level the analysed band still has to be longer than half the filter
  int levels = static_cast<int>(s.range(0, lg - 2));
  V x = genSignal(s, c, len);
  c.describe(pbt::str("length=", len, " levels=", levels, " x0=", x[0], " max=", maxAbs(x)));
  double scale = maxAbs(x) + 1e-12;
  c.nontrivial(levels > 0 && maxAbs(x) > 0);
  c.label(levels == lg - 2, "all levels");
  c.label(levels == 0, "no level");
  Wavelet w;
  V in = x;
  V y;
  bool sized = s.boolean();
  if (sized) {
    y.assign(static_cast<size_t>(len), s.real(-1, 1));
  }
  w.DWT(in, levels, y);
  c.require(in == x, "input-modified", "the analysis changed its input");
  c.require(y.size() == x.size(), "length", pbt::str("analysis gives ", y.size(), " values"));
  if (levels > 0) {
    double d = dist(y, refDwt(x, levels));
    c.require(d <= 1e-9 * scale, "reference", pbt::str("analysis differs from the 9/7 filters by ", d));
  }
  V back(static_cast<size_t>(len), s.boolean() ? 0 : 3.5);
  if (levels == 0) {
    y = x; // no analysis step: the coefficients are the signal
  }
  V coef = y;
  w.inv_DWT(coef, levels, back);
  c.require(coef == y, "input-modified", "the synthesis changed its input");
  double d = dist(back, x);
  c.require(d <= 1e-6 * scale, "reconstruction", pbt::str("reconstruction error ", d, " of ", scale));
  // both directions are linear
  if (levels > 0) {
    V x2 = genSignal(s, c, len);
    double a = s.real(-2, 2);
    V comb = x;
    for (size_t i = 0; i < comb.size(); i++) {
      comb[i] = a * x[i] + x2[i];
    }
    V y2;
    V yc;
    w.DWT(x2, levels, y2);
    w.DWT(comb, levels, yc);
    double scale2 = 3 * (scale + maxAbs(x2));
    V r(static_cast<size_t>(len));
    V rc(static_cast<size_t>(len));
    V lin = yc;
    for (size_t i = 0; i < lin.size(); i++) {
      lin[i] = a * y[i] + y2[i];
    }
    c.require(dist(lin, yc) <= 1e-9 * scale2, "linearity", "the analysis is not linear");
    // synthesis of arbitrary coefficients (not only of analysed signals), then analysis
    V z = genSignal(s, c, len);
    V zc = z;
    w.inv_DWT(zc, levels, r);
    V zz;
    w.DWT(r, levels, zz);
    double e = dist(zz, z);
    c.require(e <= 1e-6 * (maxAbs(z) + 1e-12) * 4, "synthesis-analysis",
              pbt::str("coefficients change by ", e));
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C19";
  cfg.rule = "Signals of 8..1024 samples (impulses, constants, tones, noise, steps, amplitude 1e-3..1e3), "
             "every legal number of levels; analysis against a reference filter bank, synthesis after "
             "analysis, analysis after synthesis, linearity. Non-trivial: at least one level and a "
             "non-zero signal.";
  cfg.assumptions = {"lengths are powers of two of at least 8 and the number of levels is at most log2(length/4)",
                     "the caller sizes the synthesis output"};
  cfg.targets = {{"transform", transform, 240000, 8000000}};
  return pbt::run(cfg, argc, argv);
}
