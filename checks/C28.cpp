// C28: the psychohaptic model and the sharing of the bit budget.
#include "wavgen.h"
#include <Encoder/include/WaveletEncoder.h>
#include <PsychohapticModel/include/PsychohapticModel.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Types/include/Band.h>
#include <complex>
#include <limits>

using namespace wavgen;
namespace ht = haptics::types;
using haptics::encoder::WaveletEncoder;
using haptics::spiht::Spiht_Dec;
using haptics::tools::PsychohapticModel;

namespace {
constexpr double kTie = 1e-7; // closer decisions than that are not judged

// ---- reference: peaks -----------------------------------------------------------------------
struct Peak {
  size_t first; // of the run of equal values that makes the peak
  size_t last;
  double height;
  double prominence;
};
auto local(const V &x) -> std::vector<Peak> {
  std::vector<Peak> out;
  for (size_t i = 1; i < x.size();) {
    size_t j = i;
    while (j + 1 < x.size() && x[j + 1] == x[i]) {
      j++;
    }
    if (x[i - 1] < x[i] && j + 1 < x.size() && x[j + 1] < x[i]) {
      out.push_back({i, j, x[i], 0});
    }
    i = j + 1;
  }
  return out;
}
// how far one has to go down from the peak before one can go higher, on the side that is less deep
void prominence(const V &x, Peak &p) {
  double left = p.height;
  for (size_t i = p.first; i-- > 0 && x[i] <= p.height;) {
    left = std::min(left, x[i]);
  }
  double right = p.height;
  for (size_t i = p.last + 1; i < x.size() && x[i] <= p.height; i++) {
    right = std::min(right, x[i]);
  }
  p.prominence = p.height - std::max(left, right);
}
// the peaks of at least these; tie: a decision too close to be judged
auto refPeaks(const V &x, double minProminence, double minHeight, bool *tie = nullptr) -> std::vector<Peak> {
  std::vector<Peak> out;
  for (auto &p : local(x)) {
    if (tie != nullptr && std::fabs(p.height - minHeight) < kTie) {
      *tie = true;
    }
    if (p.height < minHeight) {
      continue;
    }
    prominence(x, p);
    if (tie != nullptr && std::fabs(p.prominence - minProminence) < kTie) {
      *tie = true;
    }
    if (p.prominence >= minProminence) {
      out.push_back(p);
    }
  }
  return out;
}

// ---- reference: masks -----------------------------------------------------------------------
auto freqOf(size_t i, size_t n, int fs) -> double {
  return static_cast<double>(i) * fs / static_cast<double>(2 * n - 1);
}
// in decibels
auto maskOf(double height, double at, double f) -> double {
  return height - 5 + 5.0 / 1400 * at - 30 * (f - at) * (f - at) / (at * at);
}
// energy of what can just be felt: up to 0 dB, never less again above
auto threshold(size_t n, int fs) -> V {
  V out(n, 1);
  const double b = 1 - 250.0 / 550;
  for (size_t i = 0; i < n; i++) {
    double l = std::log10(freqOf(i, n, fs) / 550 + b) / std::log10(b);
    double db = std::fabs(50 * l * l) - 45;
    if (db >= 0) {
      break;
    }
    out[i] = std::pow(10.0, db / 10);
  }
  return out;
}
auto bandsOf(size_t n) -> std::vector<size_t> { // ends of the sub-bands
  std::vector<size_t> ends = {n};
  while (ends.back() > 4) {
    ends.push_back(ends.back() / 2);
  }
  std::reverse(ends.begin(), ends.end());
  return ends;
}
struct Model {
  std::vector<double> energy;
  std::vector<double> mask;
  size_t peaks = 0;
  bool tie = false;
};
// the peaks' mask of a spectrum, in linear domain
auto globalMask(const V &spect, int fs, Model &m) -> V {
  size_t n = spect.size();
  double top = *std::max_element(spect.begin(), spect.end());
  auto peaks = refPeaks(spect, 12, top - 45, &m.tie);
  m.peaks = peaks.size();
  V mask = threshold(n, fs);
  for (size_t i = 0; i < n; i++) {
    double best = -std::numeric_limits<double>::infinity();
    for (auto &p : peaks) {
      best = std::max(best, maskOf(p.height, freqOf((p.first + p.last + 1) / 2, n, fs), freqOf(i, n, fs)));
    }
    mask[i] += peaks.empty() ? 0 : std::pow(10.0, best / 10);
  }
  return mask;
}
auto model(const V &block, int fs) -> Model {
  size_t n = block.size();
  V spect(n);
  for (size_t k = 0; k < n; k++) {
    std::complex<double> sum = 0;
    for (size_t i = 0; i < n; i++) {
      double w = -3.14159265358979323846 * static_cast<double>((i * k) % (2 * n)) / static_cast<double>(n);
      sum += block[i] * std::complex<double>(std::cos(w), std::sin(w));
    }
    spect[k] = 20 * std::log10(std::abs(sum) / std::sqrt(static_cast<double>(n)));
  }
  Model m;
  V mask = globalMask(spect, fs, m);
  // values of the spectrum that are equal but for rounding: which of them is the peak is not judged
  uint32_t random = 12345;
  for (int k = 0; k < 8 && !m.tie; k++) {
    V other = spect;
    for (size_t i = 0; i < n; i++) {
      random = random * 1664525 + 1013904223;
      double by = k == 0 ? static_cast<double>(i) / static_cast<double>(n)
                  : k == 1 ? -static_cast<double>(i) / static_cast<double>(n)
                  : k == 2 ? (i % 2 != 0 ? 1 : 0)
                           : static_cast<double>(random >> 8) / (1 << 24);
      other[i] += 1e-9 * by;
    }
    V moved = globalMask(other, fs, m);
    for (size_t i = 0; i < n; i++) {
      m.tie = m.tie || std::fabs(moved[i] - mask[i]) > 1e-6 * mask[i];
    }
  }
  size_t i = 0;
  for (size_t end : bandsOf(n)) {
    m.energy.push_back(0);
    m.mask.push_back(0);
    for (; i < end; i++) {
      m.energy.back() += std::pow(10.0, spect[i] / 10);
      m.mask.back() += mask[i];
    }
  }
  return m;
}

// ---- targets ---------------------------------------------------------------------------------
auto genSpectrum(pbt::Source &s, pbt::Case &c) -> V {
  size_t n = s.chance(1, 10) ? static_cast<size_t>(s.range(1, 4)) : static_cast<size_t>(s.range(5, 80));
  V x(n);
  switch (s.range(0, 3)) {
  case 0: // few levels: plateaus and equal peaks
    for (auto &v : x) {
      v = static_cast<double>(s.range(0, 3)) * 10;
    }
    c.label("plateaus");
    break;
  case 1:
    for (auto &v : x) {
      v = s.real(-120, 60);
    }
    c.label("noise");
    break;
  case 2: { // a walk: shoulders and nested valleys
    double at = 0;
    for (auto &v : x) {
      at += s.real(-15, 15);
      v = at;
    }
    c.label("walk");
    break;
  }
  default: { // peaks over a floor
    for (auto &v : x) {
      v = -100 + s.real(0, 1);
    }
    for (int k = static_cast<int>(s.range(0, 6)); k > 0; k--) {
      x[static_cast<size_t>(s.range(0, static_cast<int64_t>(n) - 1))] = s.pick<double>({0, 0, -10, -30, -60, -90, 20});
    }
    c.label("lines");
    break;
  }
  }
  return x;
}
void peaks(pbt::Source &s, pbt::Case &c) {
  V x = genSpectrum(s, c);
  double prom = s.pick<double>({12, 0, 10, 20, 5.5, 100});
  double height = s.boolean() ? *std::max_element(x.begin(), x.end()) - 45 : s.pick<double>({-1e9, 0, 10, 20, -20.5});
  auto want = refPeaks(x, prom, height);
  c.describe(pbt::str("prominence ", prom, " height ", height, ":"));
  for (double v : x) {
    c.describe(pbt::str(v));
  }
  V in = x;
  auto got = PsychohapticModel::findPeaks(in, prom, height);
  c.require(in == x, "input-modified", "the spectrum was changed");
  c.require(got.locations.size() == got.heights.size(), "sizes", "places and heights differ in number");
  // a run of highest values that lasts to the end may count or not
  size_t tail = x.size() - 1;
  while (tail > 0 && x[tail - 1] == x.back()) {
    tail--;
  }
  size_t n = got.locations.size();
  if (n > 0 && tail + 1 < x.size() && got.locations.back() >= tail) {
    n--;
    c.label("run at the end");
  }
  c.nontrivial(!want.empty() && want.size() < local(x).size());
  c.label(want.size() > 1, "several peaks");
  c.label(want.empty(), "no peak");
  for (size_t i = 0; i < std::min(n, want.size()); i++) {
    c.require(got.locations[i] >= want[i].first && got.locations[i] <= want[i].last, "place",
              pbt::str("peak ", i, " at ", got.locations[i], " expected ", want[i].first, "..", want[i].last));
    size_t mid = (want[i].first + want[i].last) / 2;
    c.require(got.locations[i] == mid || got.locations[i] == (want[i].first + want[i].last + 1) / 2, "place",
              pbt::str("peak ", i, " at ", got.locations[i], ", not in the middle ", mid));
    c.require(got.heights[i] == want[i].height, "height", pbt::str("peak ", i, " of height ", got.heights[i]));
  }
  c.require(n == want.size(), "count", pbt::str(n, " peaks, expected ", want.size()));
}
void mask(pbt::Source &s, pbt::Case &c) {
  size_t n = static_cast<size_t>(8) << s.range(0, 6);
  int fs = s.pick<int>({8000, 1000, 2000, 48000, 500});
  PsychohapticModel pm(n, fs);
  V heights;
  std::vector<size_t> at;
  for (int k = static_cast<int>(s.range(0, 5)); k > 0; k--) {
    at.push_back(static_cast<size_t>(s.range(1, static_cast<int64_t>(n) - 1)));
    heights.push_back(s.real(-80, 60));
  }
  V out(static_cast<size_t>(s.range(0, 2)), 7);
  pm.peakMask(heights, at, out);
  c.nontrivial(at.size() > 1);
  c.label(at.empty(), "no peak");
  c.require(out.size() == (at.empty() ? 0 : n), "size", pbt::str(out.size()));
  for (size_t i = 0; i < out.size(); i++) {
    double want = -std::numeric_limits<double>::infinity();
    for (size_t k = 0; k < at.size(); k++) {
      want = std::max(want, maskOf(heights[k], freqOf(at[k], n, fs), freqOf(i, n, fs)));
    }
    c.require(std::fabs(out[i] - want) <= 1e-6 * (1 + std::fabs(want)), "mask",
              pbt::str("mask at ", i, " of ", n, " is ", out[i], " expected ", want));
  }
}
auto genBlock(pbt::Source &s, pbt::Case &c, const Setup &u) -> V {
  V x = genAny(s, c, u.bl, u.bl);
  if (s.boolean()) { // tones over what is there
    for (int k = static_cast<int>(s.range(1, 3)); k > 0; k--) {
      double f = s.real(0.01, 3.1);
      double a = s.pick<double>({0.5, 0.1, 0.01, 0.001});
      double p = s.real(0, 6.28);
      for (size_t i = 0; i < x.size(); i++) {
        x[i] += a * std::sin(f * static_cast<double>(i) + p);
      }
    }
    double m = maxAbs(x);
    for (auto &v : x) {
      v = m > 1 ? v / m : v;
    }
    c.label("tones");
  }
  return x;
}
void ratio(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s, c);
  PsychohapticModel pm(static_cast<size_t>(u.bl), u.fs);
  if (s.boolean()) {
    V other = genBlock(s, c, u);
    pm.getSMR(other);
    c.label("used model");
  }
  V x = genBlock(s, c, u);
  V in = x;
  auto got = pm.getSMR(in);
  c.require(in == x, "input-modified", "the block was changed");
  size_t bands = bandsOf(x.size()).size();
  c.require(got.SMR.size() == bands && got.bandenergy.size() == bands, "bands",
            pbt::str(got.SMR.size(), " ratios and ", got.bandenergy.size(), " energies of ", bands, " sub-bands"));
  if (maxAbs(x) == 0) {
    c.label("silent block");
    for (double e : got.bandenergy) {
      c.require(e == 0, "silence", pbt::str("energy of silence: ", e));
    }
    return;
  }
  Model want = model(x, u.fs);
  if (want.tie) {
    c.discard();
    return;
  }
  c.nontrivial(want.peaks > 0);
  c.label(want.peaks == 0, "no peak");
  c.label(want.peaks > 2, "several peaks");
  double total = 0;
  for (double e : want.energy) {
    total += e;
  }
  for (size_t b = 0; b < bands; b++) {
    double floor = 1e-20 * total;
    c.require(std::fabs(got.bandenergy[b] - want.energy[b]) <= 1e-6 * want.energy[b] + floor, "energy",
              pbt::str("energy of sub-band ", b, " is ", got.bandenergy[b], " expected ", want.energy[b]));
    if (want.energy[b] > floor * 1e6) {
      double r = 10 * std::log10(want.energy[b] / want.mask[b]);
      c.require(std::fabs(got.SMR[b] - r) <= 1e-4, "ratio",
                pbt::str("ratio of sub-band ", b, " is ", got.SMR[b], " expected ", r));
    }
  }
}
void share(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s, c);
  V x = genBlock(s, c, u);
  WaveletEncoder enc(u.bl, u.fs);
  ht::Band band;
  V in = x;
  enc.encodeSignal(in, u.budget, u.cutoff, band, u.ts);
  c.require(band.getEffectsSize() == 1, "blocks", pbt::str(band.getEffectsSize()));
  V coef = refDwt(x, u.levels);
  int budget = std::min(u.budget, 15 * (u.levels + 1));
  if (maxAbs(coef) == 0 || budget <= 0) {
    c.label("nothing to code");
    return;
  }
  Spiht_Dec dec;
  std::vector<int> K(x.size(), 0);
  double q = 0;
  int bits = 0;
  auto stream = band.getEffectAt(0).getWaveletBitstream();
  dec.decodeEffect(stream, K, u.bl, q, bits);
  if (q == 0) {
    c.label("nothing coded");
    return;
  }
  Model m = model(x, u.fs);
  auto ends = bandsOf(x.size());
  size_t bands = ends.size();
  auto begin = [&](size_t b) { return b == 0 ? 0 : ends[b - 1]; };
  auto quant = [&](double v, int b) {
    double delta = q / std::pow(2.0, b);
    double a = std::min(std::floor(std::fabs(v) / delta + 0.5), std::pow(2.0, b) - 1);
    return (v < 0 ? -1 : 1) * a * delta;
  };
  auto noise = [&](size_t b, int n) {
    double e = 0;
    for (size_t i = begin(b); i < ends[b]; i++) {
      double d = coef[i] - (n == 0 ? 0 : quant(coef[i], n));
      e += d * d;
    }
    return e;
  };
  // every bit goes where the mask is the least above the noise
  std::vector<int> alloc(bands, 0);
  V mnr(bands);
  double scale = maxAbs(coef);
  bool tie = m.tie;
  bool faint = false; // noise that is only rounding decides nothing
  auto update = [&](size_t b) {
    double e = noise(b, alloc[b]);
    faint = faint || e < 1e-20 * scale * scale;
    mnr[b] = alloc[b] >= 15 ? std::numeric_limits<double>::infinity() : 10 * std::log10(m.mask[b] / e);
  };
  for (size_t b = 0; b < bands; b++) {
    update(b);
  }
  for (int spent = 0; spent < budget; spent++) {
    size_t best = 0;
    for (size_t b = 1; b < bands; b++) {
      if (mnr[b] < mnr[best]) {
        best = b;
      }
    }
    for (size_t b = 0; b < bands; b++) {
      tie = tie || (b != best && alloc[b] < 15 && std::fabs(mnr[b] - mnr[best]) < kTie);
    }
    alloc[best]++;
    update(best);
  }
  if (tie) {
    c.label("tie");
    return;
  }
  if (faint) {
    c.label("faint");
    return;
  }
  c.nontrivial(budget < 15 * (u.levels + 1));
  c.label(budget < 15 * (u.levels + 1), "shared");
  std::string d = "bits";
  for (int a : alloc) {
    d += pbt::str(" ", a);
  }
  c.describe(d);
  for (size_t b = 0; b < bands; b++) {
    for (size_t i = begin(b); i < ends[b]; i++) {
      double v = K[i] * q / std::pow(2.0, bits);
      double w = alloc[b] == 0 ? 0 : quant(coef[i], alloc[b]);
      // a coefficient between two steps may go either way
      double lo = alloc[b] == 0 ? 0 : quant(coef[i] - 1e-9 * scale, alloc[b]);
      double hi = alloc[b] == 0 ? 0 : quant(coef[i] + 1e-9 * scale, alloc[b]);
      double eps = 1e-9 * q;
      c.require(std::fabs(v - w) <= eps || std::fabs(v - lo) <= eps || std::fabs(v - hi) <= eps, "share",
                pbt::str("coefficient ", i, " of sub-band ", b, " is ", v, ", with ", alloc[b], " bits ", w,
                         " (scale ", q, ")"));
    }
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C28";
  cfg.rule = "Spectra with plateaus, noise, walks and lines; peaks anywhere; blocks of 8 to 512 samples with tones, "
             "noise, impulses, steps and silence at loudness 1e-5..1, eight rates, every bit budget. Non-trivial: some "
             "but not all local maxima are peaks (peaks), two peaks at least (mask), a masking peak (ratio), bits are "
             "left out and no decision is too close (share).";
  cfg.assumptions = {"decisions closer than 1e-7 dB are not judged", "the FFT is a stand-in for the third-party header",
                     "a run of highest values at the very end of a spectrum may be a peak or not"};
  cfg.targets = {{"peaks", peaks, 120000, 3000000}, {"mask", mask, 16000, 200000}, {"ratio", ratio, 10000, 100000},
                 {"share", share, 10000, 100000}};
  return pbt::run(cfg, argc, argv);
}
