// C25: conversion of PCM recordings (extrema curve, wavelet residual, WAV files).
#include "dwt.h"
#include "pbt.h"
#include <Encoder/include/PcmEncoder.h>
#include <FilterBank/include/Filterbank.h>
#include <Tools/include/WavParser.h>
#include <WaveletDecoder/include/WaveletDecoder.h>

using namespace dwt;
namespace ht = haptics::types;
using haptics::encoder::EncodingConfig;
using haptics::encoder::PcmEncoder;
using haptics::encoder::WaveletEncoder;
using haptics::filterbank::Filterbank;
using haptics::tools::WavParser;

namespace {
// values on a grid of 1/2^10, so that "equal" is never a matter of tolerance
auto genRecording(pbt::Source &s, pbt::Case &c, int n) -> V {
  V x;
  double level = 0;
  switch (s.range(0, 4)) {
  case 0:
    c.label("steps");
    while (static_cast<int>(x.size()) < n) {
      level = static_cast<double>(s.range(-4, 4)) / 8;
      for (int k = static_cast<int>(s.range(1, 6)); k > 0 && static_cast<int>(x.size()) < n; k--) {
        x.push_back(level);
      }
    }
    break;
  case 1:
    c.label("noise");
    for (int i = 0; i < n; i++) {
      x.push_back(static_cast<double>(s.range(-512, 512)) / 1024);
    }
    break;
  case 2: {
    c.label("ramps");
    int dir = 1;
    int v = 0;
    while (static_cast<int>(x.size()) < n) {
      for (int k = static_cast<int>(s.range(1, 20)); k > 0 && static_cast<int>(x.size()) < n; k--) {
        v = std::clamp(v + dir * static_cast<int>(s.range(0, 60)), -512, 512);
        x.push_back(v / 1024.0);
      }
      dir = -dir;
    }
    break;
  }
  case 3: {
    c.label("tones");
    double f = s.real(0.001, 1.5);
    double f2 = s.real(0.001, 1.5);
    double a = s.real(0, 0.25);
    double b = s.real(0, 0.25);
    for (int i = 0; i < n; i++) {
      x.push_back(std::round(1024 * (a * std::sin(f * i) + b * std::sin(f2 * i + 1))) / 1024);
    }
    break;
  }
  default:
    c.label("silence");
    x.assign(static_cast<size_t>(n), s.boolean() ? 0 : 0.25);
    break;
  }
  return x;
}
using Points = std::vector<std::pair<int, double>>;
auto refExtrema(const V &x, bool border) -> Points {
  Points p;
  int n = static_cast<int>(x.size());
  if (n == 0) {
    return p;
  }
  if (n == 1) {
    return border ? Points{{0, x[0]}, {0, x[0]}} : p;
  }
  if (border) {
    p.emplace_back(0, x[0]);
  }
  for (int i = 1; i + 1 < n; i++) {
    double a = x[static_cast<size_t>(i - 1)];
    double v = x[static_cast<size_t>(i)];
    double b = x[static_cast<size_t>(i + 1)];
    bool peak = (v >= a && v >= b) || (v <= a && v <= b);
    if (peak && !(v == a && v == b)) {
      p.emplace_back(i, v);
    }
  }
  if (border) {
    p.emplace_back(n - 1, x.back());
  }
  return p;
}
auto show(const Points &p) -> std::string {
  std::string r;
  for (auto &q : p) {
    r += pbt::str(" ", q.first, ":", q.second);
  }
  return r;
}
void extrema(pbt::Source &s, pbt::Case &c) {
  V x = genRecording(s, c, static_cast<int>(s.range(0, 60)));
  bool border = s.boolean();
  auto got = PcmEncoder::localExtrema(x, border);
  auto want = refExtrema(x, border);
  c.describe(pbt::str(x.size(), " samples, border ", border, " extrema", show(want)));
  c.nontrivial(want.size() > 2);
  c.require(got == want, "extrema", pbt::str("got", show(got), " expected", show(want)));
}
auto wantKeyframes(const Points &pts, double rate, unsigned ts) -> Points {
  Points k;
  for (auto &p : pts) {
    int pos = static_cast<int>(std::round(static_cast<double>(ts) * p.first / rate));
    if (!k.empty() && k.back().first == pos) {
      k.back().second = p.second; // the later point of one tick counts
    } else {
      k.emplace_back(pos, p.second);
    }
  }
  return k;
}
void checkCurve(pbt::Case &c, ht::Band &b, const Points &want, double limit) {
  c.require(b.getBandType() == ht::BandType::Curve, "curve-type", "band type");
  c.require(b.getLowerFrequencyLimit() == 0 && b.getUpperFrequencyLimit() == static_cast<int>(limit), "curve-limits",
            pbt::str(b.getLowerFrequencyLimit(), "..", b.getUpperFrequencyLimit(), " expected 0..", limit));
  c.require(b.getEffectsSize() == 1 && b.getEffectAt(0).getPosition() == 0, "curve-effect", "one effect at 0");
  auto &e = b.getEffectAt(0);
  Points got;
  for (size_t i = 0; i < e.getKeyframesSize(); i++) {
    auto &k = e.getKeyframeAt(static_cast<int>(i));
    got.emplace_back(k.getRelativePosition().value(), k.getAmplitudeModulation().value());
    c.require(!k.getFrequencyModulation().has_value(), "curve-frequency", "a curve keyframe has a frequency");
  }
  bool same = got.size() == want.size();
  for (size_t i = 0; same && i < got.size(); i++) {
    same = got[i].first == want[i].first && std::fabs(got[i].second - want[i].second) < 1e-6;
  }
  c.require(same, "curve-keyframes", pbt::str("got", show(got), " expected", show(want)));
}
void curve(pbt::Source &s, pbt::Case &c) {
  V x = genRecording(s, c, static_cast<int>(s.range(0, 80)));
  auto pts = PcmEncoder::localExtrema(x, true);
  double rate = s.pick<double>({8000, 1000, 44100, 500, 48000, 3333});
  unsigned ts = static_cast<unsigned>(s.pick<int>({1000, 8000, 44100, 480, 100, 48000}));
  double limit = s.pick<double>({72.5, 1, 200, 44100, 0, -5});
  ht::Band b;
  bool ok = PcmEncoder::convertToCurveBand(pts, rate, limit, ts, &b);
  c.require(ok == (limit > 0), "curve-accept", pbt::str("limit ", limit, " gives ", ok));
  c.require(!PcmEncoder::convertToCurveBand(pts, rate, limit, ts, nullptr), "curve-null", "no band to fill");
  if (!ok) {
    return;
  }
  auto want = wantKeyframes(pts, rate, ts);
  c.describe(pbt::str("rate ", rate, " timescale ", ts, " keyframes", show(want)));
  c.nontrivial(want.size() > 1);
  c.label(want.size() < pts.size(), "merged keyframes");
  checkCurve(c, b, want, limit);
}
void put(std::string &o, uint32_t v, int bytes) {
  for (int i = 0; i < bytes; i++) {
    o.push_back(static_cast<char>(v >> (8 * i)));
  }
}
auto wavFile(const std::vector<V> &ch, int rate, bool asFloat) -> std::string {
  std::string o = "RIFF";
  uint32_t n = static_cast<uint32_t>(ch[0].size());
  uint32_t bytes = asFloat ? 4 : 2;
  uint32_t nch = static_cast<uint32_t>(ch.size());
  put(o, 36 + n * nch * bytes, 4);
  o += "WAVEfmt ";
  put(o, 16, 4);
  put(o, asFloat ? 3 : 1, 2);
  put(o, nch, 2);
  put(o, static_cast<uint32_t>(rate), 4);
  put(o, static_cast<uint32_t>(rate) * nch * bytes, 4);
  put(o, nch * bytes, 2);
  put(o, bytes * 8, 2);
  o += "data";
  put(o, n * nch * bytes, 4);
  for (uint32_t i = 0; i < n; i++) {
    for (auto &x : ch) {
      if (asFloat) {
        float f = static_cast<float>(x[i]);
        uint32_t u = 0;
        memcpy(&u, &f, 4);
        put(o, u, 4);
      } else {
        put(o, static_cast<uint32_t>(static_cast<int>(std::lround(x[i] * 32768))), 2);
      }
    }
  }
  return o;
}
void writeBytes(const std::string &path, const std::string &b) {
  FILE *f = fopen(path.c_str(), "wb");
  fwrite(b.data(), 1, b.size(), f);
  fclose(f);
}
void wav(pbt::Source &s, pbt::Case &c) {
  int nch = static_cast<int>(s.range(1, 5));
  int n = static_cast<int>(s.range(0, 60));
  int rate = s.pick<int>({8000, 1000, 44100, 48000, 96000});
  std::vector<V> ch;
  for (int i = 0; i < nch; i++) {
    V x;
    for (int k = 0; k < n; k++) {
      x.push_back(s.chance(1, 6) ? s.pick<double>({1, -1, 1.5, -2, 0.99999, -0.99999}) : s.real(-1, 1));
    }
    ch.push_back(x);
  }
  c.describe(pbt::str(nch, " channels of ", n, " samples at ", rate));
  c.nontrivial(n > 0);
  std::string path = pbt::scratch() + "/x.wav";
  bool mono = nch == 1 && s.boolean();
  c.label(mono, "mono writer");
  c.require(mono ? WavParser::saveFile(path, ch[0], rate) : WavParser::saveFile(path, ch, rate), "save", "saveFile");
  WavParser p;
  if (s.boolean()) { // a parser that has been used before
    std::string other = pbt::scratch() + "/y.wav";
    writeBytes(other, wavFile({V{0.5, 0.25}, V{0.125, 0}}, 22050, true));
    c.require(p.loadFile(other), "load", "loadFile");
  }
  c.require(p.loadFile(path), "load", "loadFile");
  c.require(p.getNumChannels() == ch.size() && p.getSamplerate() == static_cast<uint32_t>(rate) &&
                p.getNumSamples() == ch.size() * static_cast<size_t>(n),
            "header", pbt::str(p.getNumChannels(), " channels, rate ", p.getSamplerate(), ", ", p.getNumSamples(), " samples"));
  for (size_t i = 0; i < ch.size(); i++) {
    auto got = p.getSamplesChannel(i);
    c.require(got.size() == ch[i].size() && p.getAllSamples()[i] == got, "samples", "count");
    for (size_t k = 0; k < got.size(); k++) {
      double want = std::clamp(std::round(ch[i][k] * 32768), -32768.0, 32767.0) / 32768;
      c.require(got[k] == want, "samples", pbt::str("channel ", i, " sample ", k, ": ", ch[i][k], " -> ", got[k]));
    }
  }
  if (nch > 1) {
    ch[1].push_back(0);
    c.require(!WavParser::saveFile(path, ch, rate), "ragged", "channels of different lengths are saved");
  }
  c.require(!p.loadFile(pbt::scratch() + "/missing.wav"), "missing", "a missing file loads");
}
void encode(pbt::Source &s, pbt::Case &c) {
  int nch = static_cast<int>(s.range(1, 3));
  int lg = static_cast<int>(s.range(4, 8));
  int bl = 1 << lg;
  int rate = s.pick<int>({8000, 4000, 2000, 48000});
  std::vector<int> tss;
  for (int t : {1000, 8000, 48000, 2000, 4000, 480, rate}) {
    if ((static_cast<long>(bl) * t) % rate == 0) {
      tss.push_back(t);
    }
  }
  auto ts = static_cast<unsigned>(s.pick(tss));
  int n = static_cast<int>(s.range(0, 3 * bl));
  std::vector<V> ch;
  for (int i = 0; i < nch; i++) {
    ch.push_back(genRecording(s, c, n));
  }
  bool wavelets = s.boolean();
  bool vectorial = !wavelets || s.boolean();
  double limit = s.chance(2, 3) ? static_cast<double>(s.range(1, rate / 8)) : 0;
  int full = 15 * (lg - 1);
  int budget = s.chance(2, 3) ? full : static_cast<int>(s.range(1, full));
  EncodingConfig cfg(limit, bl, budget, wavelets, vectorial);
  auto modality = s.pick<ht::PerceptionModality>(
      {ht::PerceptionModality::Vibrotactile, ht::PerceptionModality::Force, ht::PerceptionModality::Stiffness,
       ht::PerceptionModality::VibrotactileTexture, ht::PerceptionModality::Temperature});
  ht::Perception p(1, 0, "d", modality);
  int have = s.chance(1, 3) ? static_cast<int>(s.range(0, nch)) : 0;
  bool extra = s.chance(1, 10);
  for (int i = 0; i < have + (extra ? nch - have + 1 : 0); i++) {
    ht::Channel mine(7 + i, "mine", 0.5, 1, 3);
    p.addChannel(mine);
  }
  std::string path = pbt::scratch() + "/in.wav";
  writeBytes(path, wavFile(ch, rate, s.boolean()));
  c.describe(pbt::str(nch, " channels of ", n, " samples at ", rate, " timescale ", ts, " limit ", limit, " block ", bl,
                      " budget ", budget, " wavelets ", wavelets, " vectorial ", vectorial, " existing channels ",
                      p.getChannelsSize()));
  int code = PcmEncoder::encode(path, cfg, ts, p);
  if (extra) {
    c.require(code == EXIT_FAILURE, "extra-channels", "a recording with fewer channels than the perception is accepted");
    return;
  }
  c.require(code == EXIT_SUCCESS, "refused", "encode failed");
  c.require(p.getChannelsSize() == ch.size(), "channels", pbt::str(p.getChannelsSize(), " channels"));
  c.nontrivial(n > 2);
  c.label(wavelets && vectorial && limit > 0, "both bands");
  c.label(wavelets && !vectorial && limit > 0, "high-pass wavelets");
  c.label(!wavelets, "curve only");
  c.label(budget == full, "full budget");
  Filterbank fb(rate);
  for (int i = 0; i < nch; i++) {
    V &x = ch[static_cast<size_t>(i)];
    auto channel = p.getChannelAt(i);
    c.require(i < have ? channel.getId() == 7 + i && channel.getDescription() == "mine" : channel.getId() == i,
              "channel-id", pbt::str("channel ", i, " has id ", channel.getId()));
    c.require(channel.getFrequencySampling().has_value() &&
                  channel.getFrequencySampling().value() == static_cast<uint32_t>(rate) &&
                  channel.getSampleCount().has_value() && channel.getSampleCount().value() == static_cast<uint32_t>(n),
              "sampling", "sample rate and count of the channel");
    V low = limit > 0 ? fb.LP(x, limit) : x;
    bool curveBand = vectorial && (limit > 0 || !wavelets);
    size_t bands = (curveBand ? 1 : 0) + (wavelets ? 1 : 0);
    c.require(channel.getBandsSize() == bands, "bands", pbt::str(channel.getBandsSize(), " bands, expected ", bands));
    V rest = x;
    if (curveBand) {
      auto b = channel.getBandAt(0);
      checkCurve(c, b, wantKeyframes(limit > 0 ? PcmEncoder::localExtrema(low, true) : refExtrema(x, true), rate, ts), limit > 0 ? limit : rate);
      ht::CurveType ct = b.getCurveTypeOrDefault();
      ht::CurveType wantType = modality == ht::PerceptionModality::Force || modality == ht::PerceptionModality::Stiffness
                                   ? ht::CurveType::Linear
                               : modality == ht::PerceptionModality::Temperature ? ht::CurveType::Unknown
                                                                                  : ht::CurveType::Cubic;
      c.require(ct == wantType, "curve-kind", "curve type for the modality");
      if (wavelets) {
        V r = b.EvaluationBand(static_cast<uint32_t>(n), rate, 0, ts);
        for (size_t k = 0; k < rest.size(); k++) {
          rest[k] -= r[k];
        }
      }
    } else if (wavelets && limit > 0) {
      for (size_t k = 0; k < rest.size(); k++) {
        rest[k] -= low[k];
      }
    }
    if (!wavelets) {
      continue;
    }
    auto b = channel.getBandAt(static_cast<int>(bands) - 1);
    WaveletEncoder we(bl, rate);
    ht::Band wantBand;
    we.encodeSignal(rest, budget, limit, wantBand, ts);
    c.require(b.getBandType() == ht::BandType::WaveletWave && b.getEffectsSize() == wantBand.getEffectsSize() &&
                  b.getBlockLengthOrDefault() == wantBand.getBlockLengthOrDefault() &&
                  b.getUpperFrequencyLimit() == wantBand.getUpperFrequencyLimit() &&
                  b.getLowerFrequencyLimit() == wantBand.getLowerFrequencyLimit(),
              "wavelet-band", "wavelet band metadata");
    if (budget == full) { // the wavelets carry what the curve does not
      haptics::waveletdecoder::WaveletDecoder wd;
      V got = wd.decodeBand(b, static_cast<int>(ts));
      c.require(got.size() >= rest.size(), "residual", "too few decoded samples");
      for (size_t k = 0; k < got.size(); k++) {
        double want = k < rest.size() ? rest[k] : 0;
        c.require(std::fabs(got[k] - want) <= 0.02, "residual",
                  pbt::str("channel ", i, " sample ", k, " of the wavelet band is ", got[k], ", expected ", want));
      }
    }
    if (budget == full && (curveBand || limit == 0) && modality != ht::PerceptionModality::Temperature && n > 0) {
      // end to end: the bands add up to the recording
      haptics::waveletdecoder::WaveletDecoder wd;
      ht::Channel out = channel;
      out.setGain(1);
      for (size_t k = 0; k < out.getBandsSize(); k++) {
        auto bb = out.getBandAt(static_cast<int>(k));
        wd.transformBand(bb, ts);
        out.replaceBandAt(static_cast<int>(k), bb);
      }
      V r = out.EvaluateChannel(static_cast<uint32_t>(n), rate, 0, ts);
      V want = x;
      for (auto &v : want) {
        v = std::clamp(v, -1.0, 1.0);
      }
      // a coefficient right below 1 may be cut to 127/128 of the scale
      c.require(dist(r, want) <= 0.02, "render", pbt::str("channel ", i, " differs by ", dist(r, want), " when rendered"));
      c.label("rendered");
    }
  }
}

// the split at the cut-off frequency: a Butterworth filter of order 8 there and back, so without delay
auto filters(pbt::Source &s, pbt::Case &c) -> void {
  double rate = static_cast<double>(s.pick(std::vector<int>{1000, 2000, 8000, 44100, 1}));
  double limit = s.real(0.02, 0.45);
  bool high = s.chance(1, 3);
  const int n = 3000; // settled, and not yet disturbed by the end, in the middle
  std::vector<std::array<double, 3>> tones;
  for (int k = static_cast<int>(s.range(1, 3)); k > 0; k--) {
    double f = s.chance(1, 2) ? std::clamp(limit * s.real(0.7, 1.4), 0.0, 0.49) : s.real(0, 0.49);
    tones.push_back({f, s.real(0.1, 1), s.real(0, 6)});
  }
  bool pulse = s.chance(1, 6);
  V x(n);
  for (int i = 0; i < n && !pulse; i++) {
    for (auto &t : tones) {
      x[static_cast<size_t>(i)] += t[1] * std::sin(2 * M_PI * t[0] * i + t[2]);
    }
  }
  if (pulse) {
    x[n / 2] = 1;
  }
  Filterbank fb(rate);
  V in = x;
  V y = high ? fb.HP(in, limit * rate) : fb.LP(in, limit * rate);
  c.describe(pbt::str(high ? "above " : "below ", limit, " of ", rate, " Hz, ", pulse ? "a pulse" : "tones", " at ", tones[0][0]));
  c.label(high, "high-pass");
  c.label(pulse, "pulse");
  c.nontrivial(true);
  c.require(y.size() == x.size(), "filter-length", pbt::str(y.size(), " samples"));
  c.require(in == x, "filter-input", "the signal is changed");
  if (pulse) {
    for (int k = 1; k < 300; k++) {
      c.require(std::fabs(y[static_cast<size_t>(n / 2 - k)] - y[static_cast<size_t>(n / 2 + k)]) < 1e-6, "filter-phase",
                pbt::str("response ", k, " samples before and after a pulse: ", y[static_cast<size_t>(n / 2 - k)], ", ",
                         y[static_cast<size_t>(n / 2 + k)]));
    }
    return;
  }
  for (int i = n / 2 - 100; i < n / 2 + 100; i++) {
    double want = 0;
    for (auto &t : tones) {
      double q = std::pow(std::tan(M_PI * t[0]) / std::tan(M_PI * limit), 16);
      want += (high ? q / (1 + q) : 1 / (1 + q)) * t[1] * std::sin(2 * M_PI * t[0] * i + t[2]);
    }
    c.require(std::fabs(y[static_cast<size_t>(i)] - want) < 1e-4, "filter-gain",
              pbt::str("sample ", i, " is ", y[static_cast<size_t>(i)], ", expected ", want));
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C25";
  cfg.rule = "Recordings of up to 768 samples and 3 channels (tones, noise, ramps, plateaus, silence) converted with "
             "every combination of bands, limits, block lengths and budgets; extrema and curves against direct "
             "definitions, full-budget conversions rendered back; WAV files of up to 5 channels written and read; tones and "
             "pulses filtered. "
             "Non-trivial: more than two extrema / keyframes / samples.";
  cfg.assumptions = {"the WAV container, FFT and IIR library are replaced by stand-ins (not available offline)",
                     "the block length is a whole number of ticks"};
  cfg.targets = {{"extrema", extrema, 120000, 3000000},
                 {"curve", curve, 60000, 1500000},
                 {"wav", wav, 20000, 400000},
                 {"encode", encode, 24000, 600000},
                 {"filters", filters, 6000, 150000}};
  return pbt::run(cfg, argc, argv);
}
