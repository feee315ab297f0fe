// Random bands ready for rendering, and their rendering by direct definition.
#pragma once
#include "refsynth.h"
#include <Spiht/include/Spiht_Enc.h>
#include <Types/include/Channel.h>
#include <numeric>

namespace ref {
inline auto ceilDiv(int a, int b) -> int { return (a + b - 1) / b; }
inline auto name(ht::BandType t) -> const char * {
  static const char *n[] = {"transient", "curve", "vectorial", "wavelet"};
  return n[static_cast<int>(t)];
}
struct Setup {
  unsigned ts;
  int fs;
  int pad;
  uint32_t n;
};
inline auto genSetup(pbt::Source &s) -> Setup {
  Setup u{};
  u.ts = static_cast<unsigned>(s.pick(std::vector<int>{1000, 480, 8000, 48000}));
  u.fs = static_cast<int>(s.pick(std::vector<int>{8000, 1000, 2000, 500, 44100, 48000}));
  u.pad = s.chance(1, 4) ? static_cast<int>(s.range(1, 50)) : 0;
  u.n = static_cast<uint32_t>(s.edgy(0, 1500));
  return u;
}
inline auto genBand(pbt::Source &s, const Setup &u, bool before = false) -> ht::Band {
  auto t = static_cast<ht::BandType>(s.range(0, 3));
  ht::Band b(t, 0, 1000);
  const int span = static_cast<int>(static_cast<int64_t>(u.n) * u.ts / u.fs) + 1;
  if (t == ht::BandType::WaveletWave) {
    b.setUpperFrequencyLimit(s.chance(3, 4) ? u.fs : 1000);
    int block = 1;
    for (int n = static_cast<int>(s.range(0, 3)), i = 0; i < n; i++) {
      ht::Effect e;
      std::vector<double> w;
      // block boundaries on ticks
      int ticks = static_cast<int>(s.range(1, 20)) * (static_cast<int>(u.ts) / std::max(1, (int)std::__gcd(u.ts, (unsigned)b.getUpperFrequencyLimit())));
      block = i == 0 ? ticks : block;
      auto len = static_cast<int64_t>(block) * b.getUpperFrequencyLimit() / u.ts;
      if (len > 3000) {
        break;
      }
      uint64_t k = s.draw(~0ULL);
      for (int64_t j = 0; j < len; j++) {
        k = pbt::mix64(k);
        w.push_back(static_cast<double>(k >> 11) / 4503599627370496.0 - 1);
      }
      e.setWaveletSamples(w);
      e.setPosition(i * block);
      b.addEffect(e);
    }
    b.setBlockLength(block);
    return b;
  }
  if (t == ht::BandType::Curve) {
    b.setCurveType(static_cast<ht::CurveType>(s.range(0, 5)));
  }
  int step = t == ht::BandType::Curve ? ceilDiv(static_cast<int>(u.ts), u.fs) : 1;
  for (int n = static_cast<int>(s.range(0, 4)); n > 0; n--) {
    ht::Effect e;
    e.setPosition(static_cast<int>(before && s.chance(1, 8) ? s.range(-span / 2 - 1, 0) : s.edgy(0, span)));
    if (s.chance(2, 3)) {
      e.setPhase(static_cast<float>(s.real(0, 6.2831)));
    }
    e.setBaseSignal(static_cast<ht::BaseSignal>(s.range(0, 4)));
    int p = s.chance(2, 3) ? 0 : static_cast<int>(s.range(0, std::max(1, span / 4)));
    int gap = std::max(step, static_cast<int>(s.pick(std::vector<int>{1, span / 20, span / 4, span})));
    for (int k = static_cast<int>(s.weighted({1, 2, 3, 3, 3, 2, 2})); k > 0; k--) {
      std::optional<float> a = static_cast<float>(s.real(-1, 1));
      std::optional<int> f;
      if (t == ht::BandType::VectorialWave) {
        if (s.chance(1, 4)) {
          a.reset();
        }
        if (!s.chance(1, 3)) {
          f = s.chance(1, 8) ? 0 : static_cast<int>(s.range(1, 300));
        }
      } else if (s.chance(1, 8)) {
        a.reset();
      }
      std::optional<int> pos = p;
      if (p == 0 && t == ht::BandType::VectorialWave && s.chance(1, 8)) {
        pos.reset(); // the start of the effect
      }
      ht::Keyframe kf(pos, a, f);
      e.addKeyframe(kf);
      p += static_cast<int>(s.range(step, gap));
    }
    b.addEffect(e);
  }
  return b;
}
// a band of coded wavelet blocks, one after the other
inline auto codedBand(pbt::Source &s, const Setup &u) -> ht::Band {
  ht::Band b(ht::BandType::WaveletWave, 0, 0);
  const int ts = static_cast<int>(u.ts);
  const int samples = 1 << s.range(4, 6);
  int up = ts;
  int ticks = samples;
  int k = s.pick(std::vector<int>{1, 2, 4, 6, 8, 16});
  if (ts % k == 0 && s.boolean()) {
    up = ts / k;
    ticks = samples * k;
  } else if (samples % k == 0 && ts * k <= 48000) {
    up = ts * k;
    ticks = samples / k;
  }
  if (static_cast<int64_t>(ticks) * u.fs > 400LL * ts) {
    up = ts;
    ticks = samples;
  }
  b.setUpperFrequencyLimit(up);
  b.setBlockLength(ticks);
  haptics::spiht::Spiht_Enc enc;
  for (int n = static_cast<int>(s.range(0, 4)), i = 0; i < n; i++) {
    int bits = static_cast<int>(s.range(2, 8));
    std::vector<int> w;
    uint64_t z = s.draw(~0ULL);
    for (int j = 0; j < samples; j++) {
      z = pbt::mix64(z);
      int m = (1 << bits) - 1;
      w.push_back(static_cast<int>(z >> 33) % (2 * m + 1) - m);
    }
    std::vector<unsigned char> stream;
    enc.encodeEffect(w, bits, static_cast<float>(s.real(0.05, 0.6)), stream);
    ht::Effect e;
    e.setWaveletBitstream(stream);
    e.setPosition(static_cast<int>(i * ticks));
    b.addEffect(e);
  }
  return b;
}
// expected samples with a per-sample tolerance (negative: not compared)
struct Want {
  std::vector<double> v, tol;
};
inline auto expectCurve(ht::Band &b, const Setup &u) -> Want {
  Want w{std::vector<double>(u.n, 0), std::vector<double>(u.n, 1e-6)};
  for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
    auto &e = b.getEffectAt(i);
    ref::Points p;
    int first = 0;
    for (int k = 0; k < static_cast<int>(e.getKeyframesSize()); k++) {
      auto &kf = e.getKeyframeAt(k);
      if (!kf.getAmplitudeModulation()) {
        continue;
      }
      int x = static_cast<int>(static_cast<int64_t>(*kf.getRelativePosition()) * u.fs / u.ts);
      if (p.empty()) {
        first = x;
      }
      p.emplace_back(x - first, *kf.getAmplitudeModulation());
    }
    if (p.empty()) {
      continue;
    }
    std::vector<double> amp;
    double tol = 1e-6;
    if (p.size() == 1) {
      amp = {p[0].second};
    } else if (p.size() == 2) {
      amp = ref::linear(p, false);
    } else {
      switch (b.getCurveTypeOrDefault()) {
      case ht::CurveType::Linear:
        amp = ref::linear(p, false);
        break;
      case ht::CurveType::Akima:
        amp = ref::akima(p);
        break;
      case ht::CurveType::Bezier:
        amp = ref::bezier(p);
        break;
      case ht::CurveType::Bspline:
        amp = ref::bspline(p);
        tol = ref::bsplineTolerance(p);
        break;
      default: // cubic, and curves of unknown type
        amp = ref::linear(p, true);
        break;
      }
    }
    double exact = static_cast<double>(e.getPosition()) * u.fs / u.ts + u.pad * u.fs / 1000.0;
    auto lo = static_cast<int64_t>(std::floor(exact - 1e-6)) + first;
    auto hi = static_cast<int64_t>(std::floor(exact + 1e-6)) + first;
    if (exact < 0) { // before the start, between two samples: either of them
      hi = static_cast<int64_t>(std::ceil(exact + 1e-6)) + first;
    } else if (u.pad == 0) {
      lo = hi = static_cast<int64_t>(e.getPosition()) * u.fs / u.ts + first;
    }
    for (size_t k = 0; k < amp.size(); k++) {
      int64_t at = lo + static_cast<int64_t>(k);
      if (lo != hi) { // a rounding decides about one sample: not compared
        for (int64_t z = at; z <= at + hi - lo; z++) {
          if (z >= 0 && z < static_cast<int64_t>(u.n)) {
            w.tol[static_cast<size_t>(z)] = -1;
          }
        }
      } else if (at >= 0 && at < static_cast<int64_t>(u.n)) {
        w.v[static_cast<size_t>(at)] += amp[k];
        if (w.tol[static_cast<size_t>(at)] >= 0) {
          w.tol[static_cast<size_t>(at)] += tol;
        }
      }
    }
  }
  return w;
}
inline auto expectBand(ht::Band &b, const Setup &u) -> Want {
  if (b.getBandType() == ht::BandType::Curve) {
    return expectCurve(b, u);
  }
  Want w{std::vector<double>(u.n, 0), std::vector<double>(u.n, 1e-6)};
  for (uint32_t i = 0; i < u.n; i++) {
    double t = static_cast<double>(u.ts) * i / u.fs - static_cast<double>(u.ts) * u.pad / 1000.0;
    for (int k = 0; k < static_cast<int>(b.getEffectsSize()); k++) {
      auto &e = b.getEffectAt(k);
      Opt v;
      if (b.getBandType() == ht::BandType::WaveletWave) {
        double x = (t - e.getPosition()) * b.getUpperFrequencyLimit() / u.ts;
        bool strict = u.pad == 0 && b.getUpperFrequencyLimit() == u.fs;
        if (strict) { // sample k of the block that starts at sample position*fs/ts
          x = static_cast<double>(i) - static_cast<double>(e.getPosition()) * u.fs / u.ts;
        }
        if (strict || std::fabs(x - std::round(x)) > 1e-5) {
          double j = std::floor(x);
          auto &ws = e.getWaveletSamples();
          v = j < 0 || j >= static_cast<double>(ws.size()) ? 0.0 : ws[static_cast<size_t>(j)];
        }
      } else {
        bool vec = b.getBandType() == ht::BandType::VectorialWave;
        v = vec ? ref::vectorial(e, t, u.ts) : ref::transient(e, t, u.ts);
        if (vec && u.pad != 0 && v && e.getKeyframesSize() > 0) { // rounding at the ends
          double a = t - e.getPosition();
          double z = a - e.getKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1).getRelativePosition().value_or(0);
          if (std::fabs(a) < 1e-6 || std::fabs(z) < 1e-6) {
            v.reset();
          }
        }
      }
      if (v) {
        w.v[i] += *v;
      } else {
        w.tol[i] = -1;
      }
    }
  }
  return w;
}
} // namespace ref
