// C27: synthesis of an experience to a WAV file.
#include "refband.h"
#include <Synthesizer/include/Helper.h>
#include <Types/include/Haptics.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <sys/stat.h>
#include <unistd.h>

namespace ht = haptics::types;
using namespace ref;
using haptics::synthesizer::Helper;

namespace {
struct Wav {
  bool ok = false;
  unsigned format = 0, channels = 0, rate = 0, bits = 0;
  std::vector<std::vector<int>> v;
};
auto readWav(const std::string &path) -> Wav {
  Wav w;
  FILE *f = fopen(path.c_str(), "rb");
  if (f == nullptr) {
    return w;
  }
  std::string d;
  char buf[65536];
  size_t n = 0;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) {
    d.append(buf, n);
  }
  fclose(f);
  auto u = [&](size_t at, int bytes) {
    unsigned r = 0;
    for (int i = bytes - 1; i >= 0; i--) {
      r = r << 8 | static_cast<unsigned char>(d[at + static_cast<size_t>(i)]);
    }
    return r;
  };
  if (d.size() < 44 || d.substr(0, 4) != "RIFF" || d.substr(8, 8) != "WAVEfmt ") {
    return w;
  }
  w.format = u(20, 2);
  w.channels = u(22, 2);
  w.rate = u(24, 4);
  w.bits = u(34, 2);
  size_t at = 20 + u(16, 4);
  while (at + 8 <= d.size() && d.substr(at, 4) != "data") {
    at += 8 + u(at + 4, 4);
  }
  if (at + 8 > d.size() || w.channels == 0 || w.bits != 16) {
    return w;
  }
  size_t len = u(at + 4, 4);
  at += 8;
  if (at + len != d.size() || len % (2 * w.channels) != 0) {
    return w;
  }
  w.v.resize(w.channels);
  for (size_t i = 0; i < len; i += 2) {
    w.v[(i / 2) % w.channels].push_back(static_cast<int16_t>(u(at + i, 2)));
  }
  w.ok = true;
  return w;
}
// what is played of it: the decoded blocks
auto decoded(const ht::Band &b, unsigned ts) -> ht::Band {
  ht::Band d = b;
  if (d.getBandType() == ht::BandType::WaveletWave) {
    haptics::waveletdecoder::WaveletDecoder wd;
    wd.transformBand(d, ts);
  }
  return d;
}
auto endOf(ht::Band &b, unsigned ts) -> double {
  double end = 0;
  for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
    auto &e = b.getEffectAt(i);
    double len = 0;
    if (b.getBandType() == ht::BandType::WaveletWave) {
      len = b.getBlockLengthOrDefault();
    } else if (e.getKeyframesSize() > 0) {
      len = e.getKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1).getRelativePosition().value_or(0);
      if (b.getBandType() == ht::BandType::Transient) {
        len += transientTicks(ts);
      }
    }
    end = std::max(end, e.getPosition() + len);
  }
  return end;
}
auto describe(ht::Band &b) -> std::string {
  hm::Flat f;
  hm::flattenBand(b, "band", f);
  return hm::dump(f);
}
void synthesize(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s);
  u.n = static_cast<uint32_t>(s.edgy(0, 600));
  std::string version = "2023";
  std::string date = "2023-01-01";
  std::string text = "d";
  ht::Haptics h(version, date, text);
  if (u.ts != 1000 || s.boolean()) {
    h.setTimescale(u.ts);
  } else {
    c.label("default timescale");
  }
  struct Line {
    std::vector<ht::Band> bands;
    double factor;
  };
  std::vector<Line> lines;
  double length = 0; // ticks
  std::string d = pbt::str("timescale ", u.ts, " fs ", u.fs, " pad ", u.pad);
  for (int np = static_cast<int>(s.range(1, 2)), p = 0; p < np; p++) {
    std::string what = "p";
    ht::Perception perception(p, 0, what, ht::PerceptionModality::Vibrotactile);
    double unit = 1;
    if (s.chance(1, 3)) {
      int x = static_cast<int>(s.range(-2, 1));
      perception.setPerceptionUnitExponent(static_cast<int8_t>(x));
      unit = std::pow(10.0, x);
      c.label(x != 0, "unit exponent");
    }
    if (s.chance(1, 4)) {
      perception.setUnitExponent(static_cast<int8_t>(s.range(-3, 2))); // of another quantity
    }
    for (int nc = static_cast<int>(s.range(np > 1 ? 0 : 1, 3)), k = 0; k < nc; k++) {
      std::string name = "c";
      float gain = s.chance(1, 3) ? 1.0F : static_cast<float>(s.real(-1.5, 1.5));
      ht::Channel channel(k, name, gain, static_cast<float>(s.real(0, 1)), 1);
      Line line;
      line.factor = static_cast<double>(gain) * unit;
      d += pbt::str("\nchannel gain ", gain, " unit ", unit);
      double end = 0;
      for (int nb = static_cast<int>(s.range(0, 3)); nb > 0; nb--) {
        ht::Band b = s.chance(1, 4) ? codedBand(s, u) : genBand(s, u, true);
        if (b.getBandType() == ht::BandType::WaveletWave && b.getEffectsSize() > 0 &&
            b.getEffectAt(0).getWaveletBitstream().empty()) {
          b = codedBand(s, u);
        }
        d += describe(b);
        end = std::max(end, endOf(b, u.ts));
        c.label(b.getEffectsSize() > 0, std::string(ref::name(b.getBandType())) + " band");
        channel.addBand(b);
        line.bands.push_back(decoded(b, u.ts));
      }
      if (s.chance(1, 6)) {
        auto rate = static_cast<uint32_t>(s.pick(std::vector<int>{8000, 1000, 44100, 7}));
        channel.setFrequencySampling(rate);
        d += pbt::str(" rate ", rate);
        if (s.chance(2, 3)) {
          auto count = static_cast<uint32_t>(s.edgy(0, rate / 2));
          channel.setSampleCount(count);
          d += pbt::str(" samples ", count);
          c.label("recording length given");
          c.label(end > 0 && static_cast<double>(count) / rate * u.ts < end, "recording length cuts");
          end = static_cast<double>(count) * u.ts / rate;
        }
      } else if (s.chance(1, 8)) {
        channel.setSampleCount(static_cast<uint32_t>(s.range(0, 1000))); // of unknown rate
      }
      length = std::max(length, end);
      lines.push_back(line);
      perception.addChannel(channel);
    }
    h.addPerception(perception);
  }
  c.describe(d);
  c.label(pbt::str(std::min<size_t>(lines.size(), 4), " channels"));
  c.label(u.pad > 0, "padding");
  const double got = Helper::getTimeLength(h);
  c.require(std::fabs(got - length) <= 1e-6 * (1 + length), "length",
            pbt::str("the experience lasts ", got, " ticks, expected ", length));
  std::string path = pbt::scratch() + "/x.wav";
  unlink(path.c_str());
  const double exact = u.fs * (length / u.ts + 2 * u.pad / 1000.0);
  if (exact > 8000) {
    pbt::Case::discard();
  }
  const bool done = Helper::playFile(h, got, u.fs, u.pad, path);
  if (lines.empty()) {
    c.label("nothing to play");
    c.require(!done, "empty", "playing an experience without channels succeeds");
    return;
  }
  c.require(done, "play", "not played");
  Wav w = readWav(path);
  c.require(w.ok && w.format == 1, "wav", "not a complete 16 bit PCM file");
  c.require(w.rate == static_cast<unsigned>(u.fs), "rate", pbt::str("rate ", w.rate, ", expected ", u.fs));
  c.require(w.channels == lines.size(), "channels",
            pbt::str(w.channels, " channels, expected ", lines.size()));
  const size_t n = w.v[0].size();
  c.require(std::fabs(static_cast<double>(n) - exact) <= 0.5 + 1e-6, "samples",
            pbt::str(n, " samples, expected ", exact));
  u.n = static_cast<uint32_t>(n);
  bool sound = false;
  for (size_t l = 0; l < lines.size(); l++) {
    std::vector<double> v(n, 0);
    std::vector<double> tol(n, 1e-6);
    for (auto &b : lines[l].bands) {
      Want x = expectBand(b, u);
      for (size_t k = 0; k < n; k++) {
        v[k] += x.v[k];
        tol[k] = x.tol[k] < 0 || tol[k] < 0 ? -1 : tol[k] + x.tol[k];
      }
    }
    for (size_t k = 0; k < n; k++) {
      if (tol[k] < 0) {
        continue;
      }
      const double f = lines[l].factor * 32768;
      const double want = std::clamp(std::clamp(v[k], -1.0, 1.0) * f, -32768.0, 32767.0);
      sound = sound || std::fabs(want) > 1;
      c.label(std::fabs(v[k] * f) > 32768, "clipped");
      c.require(std::fabs(w.v[l][k] - want) <= 0.5 + tol[k] * std::fabs(f) + 1e-3, "signal",
                pbt::str("channel ", l, " sample ", k, " of ", n, ": ", w.v[l][k], ", expected ", want));
    }
  }
  c.nontrivial(sound);
  // a file that cannot be written is reported
  if (s.chance(1, 8)) {
    std::string nowhere = pbt::scratch() + "/missing/x.wav";
    c.require(!Helper::playFile(h, got, u.fs, u.pad, nowhere), "unwritable",
              "playing to a folder that does not exist succeeds");
    c.label("unwritable");
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C27";
  cfg.rule = "Experiences of 0-6 channels in 1-2 perceptions with 0-3 bands of every kind (coded wavelet "
             "blocks included), gains, unit exponents and announced recording lengths, synthesized to a WAV "
             "file at 500..48000 Hz with time scales 480..48000 and padding; the file is parsed and compared "
             "sample by sample with direct definitions. Non-trivial: the expected signal is not silent.";
  cfg.assumptions = {"curve keyframes fall on strictly increasing samples and carry amplitudes",
                     "keyframe positions are present and strictly increasing",
                     "samples on a jump of the signal are not compared"};
  cfg.targets = {{"synthesize", synthesize, 5000, 100000}};
  return pbt::run(cfg, argc, argv);
}
