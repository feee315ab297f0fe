// C15: sampled rendering of bands and channels.
#include "refband.h"

namespace ht = haptics::types;
using namespace ref;

namespace {
auto describe(ht::Band &b) -> std::string {
  hm::Flat f;
  hm::flattenBand(b, "band", f);
  return hm::dump(f);
}
void compare(pbt::Case &c, const std::string &what, const std::vector<double> &got, const Want &w) {
  c.require(got.size() == w.v.size(), what + "-length",
            pbt::str(what, ": ", got.size(), " samples, expected ", w.v.size()));
  for (size_t i = 0; i < got.size(); i++) {
    if (w.tol[i] >= 0) {
      c.require(std::fabs(got[i] - w.v[i]) <= w.tol[i], what,
                pbt::str(what, " sample ", i, ": ", got[i], ", expected ", w.v[i]));
    }
  }
}

void render(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s);
  ht::Channel ch;
  int n = static_cast<int>(s.range(0, 4));
  Want total{std::vector<double>(u.n, 0), std::vector<double>(u.n, 1e-6)};
  std::string d = pbt::str("timescale ", u.ts, " fs ", u.fs, " pad ", u.pad, " samples ", u.n);
  for (int i = 0; i < n; i++) {
    ht::Band b = genBand(s, u, true);
    d += describe(b);
    ch.addBand(b);
  }
  c.describe(d);
  bool clamped = false;
  bool sound = false;
  for (int i = 0; i < n; i++) {
    auto &b = ch.getBandAt(i);
    Want w = expectBand(b, u);
    compare(c, std::string(name(b.getBandType())) + "-band", b.EvaluationBand(u.n, u.fs, u.pad, u.ts), w);
    for (size_t k = 0; k < u.n; k++) {
      sound = sound || w.v[k] != 0;
      total.v[k] += w.v[k];
      total.tol[k] = w.tol[k] < 0 || total.tol[k] < 0 ? -1 : total.tol[k] + w.tol[k];
    }
    c.label(b.getEffectsSize() == 0, "empty band");
    c.label(b.getEffectsSize() > 0, std::string(name(b.getBandType())) + " band");
    if (b.getBandType() == ht::BandType::Curve) {
      for (int e = 0; e < static_cast<int>(b.getEffectsSize()); e++) {
        c.label(pbt::str("curve with ", std::min<size_t>(3, b.getEffectAt(e).getKeyframesSize()),
                         b.getEffectAt(e).getKeyframesSize() >= 3 ? "+" : "", " keyframes"));
      }
    }
  }
  for (auto &v : total.v) { // mixed before it is limited
    clamped = clamped || std::fabs(v) > 1;
    v = std::clamp(v, -1.0, 1.0);
  }
  c.label(clamped, "clamped");
  c.label(u.pad > 0, "padding");
  c.nontrivial(sound);
  auto got = ch.EvaluateChannel(u.n, u.fs, u.pad, u.ts);
  compare(c, "channel", got, total);
  for (auto v : got) {
    c.require(v >= -1 && v <= 1, "range", pbt::str("sample ", v));
  }
  // rendering changes nothing
  c.require(ch.EvaluateChannel(u.n, u.fs, u.pad, u.ts) == got, "repeat", "a second rendering differs");
}
// moving every effect by a whole number of samples moves the signal
void shift(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s);
  u.pad = 0;
  u.n = static_cast<uint32_t>(s.range(1, 600));
  ht::Band b = genBand(s, u);
  int unit = static_cast<int>(u.ts) / static_cast<int>(std::__gcd(u.ts, static_cast<unsigned>(u.fs)));
  int ticks = unit * static_cast<int>(s.range(1, 50));
  auto by = static_cast<uint32_t>(static_cast<int64_t>(ticks) * u.fs / u.ts);
  c.describe(pbt::str("timescale ", u.ts, " fs ", u.fs, " samples ", u.n, " moved by ", ticks, describe(b)));
  if (b.getBandType() == ht::BandType::WaveletWave && b.getUpperFrequencyLimit() != u.fs) {
    pbt::Case::discard();
  }
  ht::Band m = b;
  for (int i = 0; i < static_cast<int>(m.getEffectsSize()); i++) {
    m.getEffectAt(i).setPosition(m.getEffectAt(i).getPosition() + ticks);
  }
  auto a = b.EvaluationBand(u.n, u.fs, 0, u.ts);
  auto z = m.EvaluationBand(u.n + by, u.fs, 0, u.ts);
  Want w = expectBand(b, u);
  bool sound = false;
  for (uint32_t i = 0; i < by; i++) {
    c.require(z[i] == 0, "shift-lead", pbt::str("sample ", i, " before the moved effects is ", z[i]));
  }
  for (uint32_t i = 0; i < u.n; i++) {
    sound = sound || a[i] != 0;
    if (w.tol[i] >= 0) {
      c.require(std::fabs(a[i] - z[i + by]) < 1e-6, "shift",
                pbt::str("sample ", i, " is ", a[i], ", moved it is ", z[i + by]));
    }
  }
  c.nontrivial(sound);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C15";
  cfg.rule = "Channels of 0-4 random bands of every kind (all six curve types, effects of 0-6 keyframes, "
             "wavelet blocks, empty bands) rendered to 0-1500 samples at 500..48000 Hz with time scales "
             "480..48000 and leading padding; compared sample by sample with direct definitions, plus "
             "shift equivariance. Non-trivial: the expected signal is not silent.";
  cfg.assumptions = {"curve keyframes fall on strictly increasing samples and carry amplitudes",
                     "keyframe positions are present and strictly increasing; frequencies are 1..1000 Hz",
                     "samples on a jump of the signal are not compared"};
  cfg.targets = {{"render", render, 12000, 200000}, {"shift", shift, 12000, 150000}};
  return pbt::run(cfg, argc, argv);
}
