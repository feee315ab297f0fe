// Signals and configurations for the wavelet encoder.
#pragma once
#include "dwt.h"
#include <algorithm>
namespace wavgen {
using namespace dwt;
struct Setup {
  int bl = 0;
  int fs = 0;
  unsigned ts = 0;
  int levels = 0;
  int budget = 0;
  double cutoff = 0;
  V sig;
};
inline auto genAny(pbt::Source &s, pbt::Case &c, int n, int bl) -> V {
  V x(static_cast<size_t>(n), 0);
  int at = 0;
  while (at < n) { // pieces of different character, so that blocks differ
    int len = static_cast<int>(s.range(1, 2 * bl));
    len = std::min(len, n - at);
    if (s.chance(1, 4)) {
      c.label("silence");
    } else {
      V p = genSignal(s, c, std::max(len, 8));
      double m = maxAbs(p);
      // loudness from inaudible to full scale, including scales at the ends of the scale's coding
      double gain = s.pick<double>({1, 0.1, 0.01, 0.001, 0.995, 0.5, 1e-5});
      for (int i = 0; i < len; i++) {
        x[static_cast<size_t>(at + i)] = m == 0 ? 0 : p[static_cast<size_t>(i)] / m * gain;
      }
    }
    at += len;
  }
  return x;
}
inline auto genSetup(pbt::Source &s, pbt::Case &c) -> Setup {
  Setup u;
  int lg = static_cast<int>(s.range(3, 9));
  u.bl = 1 << lg;
  u.levels = lg - 2;
  u.fs = s.pick<int>({8000, 1000, 2000, 4000, 44100, 48000, 500, 22050});
  std::vector<int> tss;
  for (int t : {1000, 8000, 48000, 44100, 480, 1920, 2000, 44100 * 4, u.fs, u.fs * 2}) {
    if ((static_cast<long>(u.bl) * t) % u.fs == 0) {
      tss.push_back(t);
    }
  }
  u.ts = static_cast<unsigned>(s.pick(tss));
  switch (s.range(0, 3)) {
  case 0:
    u.budget = 15 * (u.levels + 1);
    break;
  case 1:
    u.budget = static_cast<int>(s.range(0, 15 * (u.levels + 1) + 20));
    break;
  default:
    u.budget = static_cast<int>(s.range(0, 15 * (u.levels + 1)));
    break;
  }
  u.cutoff = static_cast<double>(s.range(0, 500)) + (s.boolean() ? 0.5 : 0);
  int n = static_cast<int>(s.range(0, 3 * u.bl + 7));
  u.sig = genAny(s, c, n, u.bl);
  c.describe(pbt::str("block ", u.bl, " rate ", u.fs, " timescale ", u.ts, " budget ", u.budget, " of ",
                      15 * (u.levels + 1), " samples ", n));
  return u;
}
} // namespace wavgen
