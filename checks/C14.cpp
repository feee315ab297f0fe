// C14: value of an effect, band or channel at any moment.
#include "refsynth.h"
#include <Types/include/Channel.h>

namespace ht = haptics::types;
using ref::Opt;

namespace {
struct Setup {
  unsigned ts;
  int lo, hi;
};
auto genSetup(pbt::Source &s) -> Setup {
  return {static_cast<unsigned>(s.pick(std::vector<int>{1000, 480, 8000, 48000, 44100, 1})), static_cast<int>(s.range(0, 1)), 1000};
}
auto genEffect(pbt::Source &s, ht::BandType t, const Setup &u, int position) -> ht::Effect {
  ht::Effect e;
  e.setPosition(position);
  e.setEffectType(ht::EffectType::Basis);
  if (s.chance(2, 3)) {
    e.setPhase(static_cast<float>(s.real(0, 6.2831)));
  }
  if (s.chance(4, 5)) {
    e.setBaseSignal(static_cast<ht::BaseSignal>(s.range(0, 4)));
  }
  if (t == ht::BandType::WaveletWave) {
    std::vector<double> w;
    for (int n = static_cast<int>(s.range(0, 40)); n > 0; n--) {
      w.push_back(s.real(-1, 1));
    }
    e.setWaveletSamples(w);
    return e;
  }
  int n = static_cast<int>(s.weighted({1, 2, 3, 3, 3, 2}));
  int p = s.chance(2, 3) ? 0 : static_cast<int>(s.edgy(0, 500));
  int gap = static_cast<int>(s.pick(std::vector<int>{5, 50, 1000, 20000}));
  for (int i = 0; i < n; i++) {
    std::optional<float> a = static_cast<float>(s.real(-1, 1));
    std::optional<int> f;
    if (t == ht::BandType::VectorialWave) {
      if (s.chance(1, 4)) {
        a.reset();
      }
      if (!s.chance(1, 3)) {
        f = s.chance(1, 8) ? u.lo : static_cast<int>(s.chance(1, 3) ? s.range(u.lo, u.hi) : s.range(u.lo, 60));
      }
    } else if (t == ht::BandType::Transient && s.chance(1, 8)) {
      a.reset();
    } else if (t == ht::BandType::Curve && s.chance(1, 10)) {
      a.reset();
    }
    std::optional<int> pos = p;
    if (p == 0 && t == ht::BandType::VectorialWave && s.chance(1, 8)) {
      pos.reset(); // the start of the effect
    }
    ht::Keyframe k(pos, a, f);
    e.addKeyframe(k);
    p += static_cast<int>(s.range(1, gap));
  }
  return e;
}
auto genTime(pbt::Source &s, ht::Band &b, unsigned ts) -> double {
  double d = ref::transientTicks(ts);
  if (b.getEffectsSize() > 0 && s.chance(4, 5)) {
    auto &e = b.getEffectAt(static_cast<int>(s.range(0, static_cast<int64_t>(b.getEffectsSize()) - 1)));
    double at = e.getPosition();
    if (e.getKeyframesSize() > 0) {
      at += e.getKeyframeAt(static_cast<int>(s.range(0, static_cast<int64_t>(e.getKeyframesSize()) - 1)))
                 .getRelativePosition().value_or(0);
    }
    switch (s.range(0, 3)) {
    case 0:
      return at; // exactly on a keyframe
    case 1:
      return std::floor(at + s.real(-1, 1) * 20);
    case 2:
      return at + s.real(0, d);
    default:
      return at + s.real(-1, 1) * 200;
    }
  }
  return s.real(-10, 5000);
}
auto name(ht::BandType t) -> const char * {
  static const char *n[] = {"transient", "curve", "vectorial", "wavelet"};
  return n[static_cast<int>(t)];
}
auto genBand(pbt::Source &s, ht::BandType t, const Setup &u) -> ht::Band {
  ht::Band b(t, u.lo, t == ht::BandType::WaveletWave ? static_cast<int>(s.pick(std::vector<int>{1000, 8000, 2000}))
                                                      : u.hi);
  if (t == ht::BandType::Curve) {
    b.setCurveType(s.boolean() ? ht::CurveType::Linear : ht::CurveType::Cubic);
  }
  int n = static_cast<int>(s.range(0, 4));
  for (int i = 0; i < n; i++) {
    auto e = genEffect(s, t, u, static_cast<int>(s.edgy(0, 3000)));
    b.addEffect(e);
  }
  return b;
}
auto refWavelet(ht::Effect &e, double t, int up, unsigned ts) -> Opt {
  double x = (t - e.getPosition()) * up / ts;
  if (std::fabs(x - std::round(x)) < 1e-5 && x != std::round(x)) {
    return {};
  }
  double i = std::floor(x);
  auto &w = e.getWaveletSamples();
  return i < 0 || i >= static_cast<double>(w.size()) ? 0.0 : w[static_cast<size_t>(i)];
}
auto refEffect(ht::Band &b, ht::Effect &e, double t, unsigned ts) -> Opt {
  switch (b.getBandType()) {
  case ht::BandType::Transient:
    return ref::transient(e, t, ts);
  case ht::BandType::Curve:
    return ref::curve(e, t, b.getCurveTypeOrDefault() == ht::CurveType::Cubic);
  case ht::BandType::VectorialWave:
    return ref::vectorial(e, t, ts);
  default:
    return refWavelet(e, t, b.getUpperFrequencyLimit(), ts);
  }
}
// the effect that started last decides; nothing outside the band
auto refBand(ht::Band &b, double t, unsigned ts, int *active) -> Opt {
  *active = -1;
  int n = static_cast<int>(b.getEffectsSize());
  if (n == 0) {
    return 0.0;
  }
  if (b.getBandType() != ht::BandType::WaveletWave) {
    auto &l = b.getEffectAt(n - 1);
    double end = l.getPosition();
    if (l.getKeyframesSize() > 0) {
      end += l.getKeyframeAt(static_cast<int>(l.getKeyframesSize()) - 1).getRelativePosition().value_or(0);
      if (b.getBandType() == ht::BandType::Transient) {
        end += ref::transientTicks(ts);
      }
    }
    if (t < 0 || t > end) {
      return 0.0;
    }
  }
  for (int i = n - 1; i >= 0; i--) {
    auto &e = b.getEffectAt(i);
    if (e.getPosition() <= t) {
      *active = i;
      return refEffect(b, e, t, ts);
    }
  }
  return 0.0;
}
void check(pbt::Case &c, const char *what, double got, const Opt &want, double t) {
  if (!want) {
    c.label("on a jump (not compared)");
    return;
  }
  c.require(std::fabs(got - *want) <= 1e-6 || (std::isnan(got) && std::isnan(*want)), what,
            pbt::str(what, " at ", t, ": ", got, ", expected ", *want));
}
auto describe(ht::Band &b) -> std::string {
  hm::Flat f;
  hm::flattenBand(b, "band", f);
  std::string w;
  for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
    w += pbt::str(" ", b.getEffectAt(i).getWaveletSamples().size());
  }
  return hm::dump(f) + (b.getBandType() == ht::BandType::WaveletWave ? " wavelet samples:" + w : "");
}

void effects(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s);
  auto t = static_cast<ht::BandType>(s.range(0, 3));
  ht::Band b = genBand(s, t, u);
  c.describe(pbt::str("timescale ", u.ts, describe(b)));
  for (int q = 0; q < 12; q++) {
    double at = genTime(s, b, u.ts);
    int active = -1;
    Opt want = refBand(b, at, u.ts, &active);
    double got = b.Evaluate(at, b.getLowerFrequencyLimit(), b.getUpperFrequencyLimit(), u.ts);
    check(c, (std::string(name(t)) + "-band").c_str(), got, want, at);
    c.label(active >= 0, std::string(name(t)) + " effect active");
    c.label(want && *want != 0, std::string(name(t)) + " non-zero");
    c.nontrivial(want && *want != 0);
    // the effects themselves, also outside of the band's choice
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      auto &e = b.getEffectAt(i);
      if (t == ht::BandType::VectorialWave) {
        check(c, "vectorial-effect", e.EvaluateVectorial(at, u.lo, u.hi, u.ts), ref::vectorial(e, at, u.ts), at);
      } else if (t == ht::BandType::Transient) {
        double g = e.EvaluateTransient(at, ref::transientTicks(u.ts));
        check(c, "transient-effect", g, ref::transient(e, at, u.ts), at);
      } else if (t == ht::BandType::Curve) {
        check(c, "curve-effect", e.EvaluateKeyframes(at, b.getCurveTypeOrDefault(), u.ts),
              ref::curve(e, at, b.getCurveTypeOrDefault() == ht::CurveType::Cubic), at);
      } else {
        check(c, "wavelet-effect", e.EvaluateWavelet(at, b.getUpperFrequencyLimit(), u.ts),
              refWavelet(e, at, b.getUpperFrequencyLimit(), u.ts), at);
      }
    }
  }
}
// a channel is the clamped sum of its bands
void channel(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s);
  ht::Channel ch;
  int n = static_cast<int>(s.range(0, 4));
  std::string d;
  for (int i = 0; i < n; i++) {
    ht::Band b = genBand(s, static_cast<ht::BandType>(s.range(0, 3)), u);
    d += describe(b);
    ch.addBand(b);
  }
  c.describe(pbt::str("timescale ", u.ts, d));
  for (int q = 0; q < 12 && n > 0; q++) {
    double at = genTime(s, ch.getBandAt(static_cast<int>(s.range(0, n - 1))), u.ts);
    double sum = 0;
    bool known = true;
    int parts = 0;
    for (int i = 0; i < n; i++) {
      int active = -1;
      Opt v = refBand(ch.getBandAt(i), at, u.ts, &active);
      known = known && v.has_value();
      sum += v.value_or(0);
      parts += v.value_or(0) != 0;
    }
    if (!known) {
      continue;
    }
    c.label(parts > 1, "several bands sound");
    c.label(std::fabs(sum) > 1, "clamped");
    c.nontrivial(parts > 0);
    check(c, "channel", ch.Evaluate(at, u.ts), std::clamp(sum, -1.0, 1.0), at);
  }
}
// frequencies outside of the band's limits are brought to the limits between two keyframes
void limits(pbt::Source &s, pbt::Case &c) {
  unsigned ts = static_cast<unsigned>(s.pick(std::vector<int>{1000, 8000, 48000}));
  int lo = static_cast<int>(s.range(0, 200));
  int hi = lo + static_cast<int>(s.range(0, 300));
  int f = static_cast<int>(s.edgy(1, 1000));
  int len = static_cast<int>(s.range(1, 5000));
  ht::Effect e(static_cast<int>(s.range(0, 1000)), static_cast<float>(s.real(0, 6.28)),
               static_cast<ht::BaseSignal>(s.range(0, 4)), ht::EffectType::Basis);
  e.addKeyframe(0, s.real(-1, 1), f);
  e.addKeyframe(len, s.real(-1, 1), f);
  ht::Effect clamped = e;
  int g = std::clamp(f, lo, hi);
  for (int i = 0; i < 2; i++) {
    clamped.getKeyframeAt(i).setFrequencyModulation(g);
  }
  c.describe(pbt::str("timescale ", ts, " frequency ", f, " limits ", lo, "..", hi, " length ", len));
  c.nontrivial(f != g);
  c.label(f < lo, "below");
  c.label(f > hi, "above");
  for (int q = 0; q < 4; q++) {
    double at = e.getPosition() + s.real(0, len);
    check(c, "limits", e.EvaluateVectorial(at, lo, hi, ts), ref::vectorial(clamped, at, ts), at);
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C14";
  cfg.rule = "Random bands of every kind (0-4 effects of 0-5 keyframes, keyframes lacking amplitude or "
             "frequency, all base signals, time scales 1..48000 ticks/s) and channels of up to 4 bands, "
             "evaluated at 12 moments each (on, near and between keyframes, outside) against direct "
             "definitions. Non-trivial: the expected value is non-zero at one of the moments.";
  cfg.assumptions = {"keyframe positions are present and strictly increasing",
                     "values exactly on a jump of the signal (square/sawtooth edge, last curve keyframe) are "
                     "not compared"};
  cfg.targets = {{"effects", effects, 240000, 6000000},
                 {"channel", channel, 120000, 2800000},
                 {"limits", limits, 100000, 2000000}};
  return pbt::run(cfg, argc, argv);
}
