// C20: wavelet encoding of a signal and synthesis of the band.
#include "wavgen.h"
#include <Encoder/include/WaveletEncoder.h>
#include <FilterBank/include/Wavelet.h>
#include <Spiht/include/Spiht_Dec.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <numeric>

using namespace wavgen;
namespace ht = haptics::types;
using haptics::encoder::WaveletEncoder;
using haptics::filterbank::Wavelet;
using haptics::spiht::Spiht_Dec;
using haptics::waveletdecoder::WaveletDecoder;

namespace {
auto quantised(double coef, int K, int bits, double q, int b) -> bool {
  // is the decoded value K*q/2^bits what b bits make of coef?
  int step = 1 << (bits - b);
  if (b > bits || K % step != 0) {
    return false;
  }
  double delta = q / std::pow(2.0, b);
  double top = q - delta;
  double val = K * q / std::pow(2.0, bits);
  if (std::fabs(val - coef) <= delta * (0.5 + 1e-6) + 1e-12 && std::fabs(val) <= top + 1e-9) {
    return true;
  }
  return std::fabs(coef) >= top - 1e-9 && std::fabs(std::fabs(val) - top) <= 1e-9 && val * coef >= 0;
}
void checkBlock(pbt::Case &c, const Setup &u, V block, std::vector<unsigned char> stream) {
  Spiht_Dec dec;
  std::vector<int> K(static_cast<size_t>(u.bl), 0);
  double q = 0;
  int bits = 0;
  dec.decodeEffect(stream, K, u.bl, q, bits);
  V coef = refDwt(block, u.levels);
  double m = maxAbs(coef);
  bool zero = std::all_of(K.begin(), K.end(), [](int k) { return k == 0; });
  if (m == 0) {
    c.require(zero, "silence", "a silent block decodes to sound");
    return;
  }
  int budget = std::min(u.budget, 15 * (u.levels + 1));
  if (budget <= 0) {
    c.require(zero, "no-budget", "a block without bits decodes to sound");
    return;
  }
  if (zero && stream.empty()) {
    c.label("empty stream");
    bits = 0;
    q = m < 1 ? std::min(std::ceil(m * 128), 127.0) / 128 : 1 + std::ceil((m - 1) * 8) / 8;
  } else {
    // the coded scale covers the largest coefficient, in steps of 1/128 below 1 and 1/8 above
    double step = m < 1 ? 1.0 / 128 : 1.0 / 8;
    c.require(q >= m - (m < 1 ? 1.0 / 128 : 0) - 1e-9 && q <= m + step + 1e-9, "scale",
              pbt::str("largest coefficient ", m, " coded with scale ", q));
  }
  c.require(bits >= 0 && bits <= 15, "bits", pbt::str(bits));
  // some allocation of exactly `budget` bits to the sub-bands (at most 15 each) explains the block
  std::set<int> sums = {0};
  size_t at = 0;
  for (int band = 0; band <= u.levels; band++) {
    size_t len = static_cast<size_t>(band == 0 ? u.bl >> u.levels : u.bl >> (u.levels - band + 1));
    std::vector<int> ok;
    for (int b = 0; b <= 15; b++) {
      bool all = true;
      if (b > bits) {
        // finer than the announced bit planes: only possible if nothing is there to code
        for (size_t i = at; i < at + len && all; i++) {
          all = K[i] == 0 && quantised(coef[i], 0, b, q, b);
        }
      } else {
        for (size_t i = at; i < at + len && all; i++) {
          all = quantised(coef[i], K[i], bits, q, b);
        }
      }
      if (all) {
        ok.push_back(b);
      }
    }
    if (ok.empty()) {
      std::string why;
      for (size_t i = at; i < at + len; i++) {
        why += pbt::str(" ", coef[i], "->", K[i] * q / std::pow(2.0, bits));
      }
      c.fail("quantisation", pbt::str("sub-band ", band, " is not quantised with any number of bits (scale ", q,
                                      ", ", bits, " bits):", why));
    }
    std::set<int> next;
    for (int a : sums) {
      for (int b : ok) {
        next.insert(a + b);
      }
    }
    sums = next;
    at += len;
  }
  c.require(sums.count(budget) != 0, "budget",
            pbt::str("no allocation of ", budget, " bits explains the block; possible totals up to ",
                     *sums.rbegin(), " from ", *sums.begin()));
}
void encode(pbt::Source &s, pbt::Case &c) {
  Setup u = genSetup(s, c);
  c.nontrivial(maxAbs(u.sig.empty() ? V{0} : u.sig) > 0 && u.budget > 0);
  size_t n = u.sig.size();
  size_t blocks = (n + static_cast<size_t>(u.bl) - 1) / static_cast<size_t>(u.bl);
  int ticks = static_cast<int>(static_cast<long>(u.bl) * u.ts / u.fs);
  c.label(blocks > 1, "several blocks");
  c.label(n % static_cast<size_t>(u.bl) != 0, "partial last block");
  c.label(u.budget >= 15 * (u.levels + 1), "full budget");

  WaveletEncoder enc(u.bl, u.fs);
  if (s.boolean()) { // an encoder that has been used before
    V other = genAny(s, c, static_cast<int>(s.range(1, 2 * u.bl)), u.bl);
    ht::Band b;
    enc.encodeSignal(other, static_cast<int>(s.range(1, 15 * (u.levels + 1))), 0, b, u.ts);
    c.label("used encoder");
  }
  ht::Band band;
  V in = u.sig;
  c.require(enc.encodeSignal(in, u.budget, u.cutoff, band, u.ts), "refused", "encodeSignal returned false");
  c.require(in == u.sig, "input-modified", "encoding changed the signal");
  c.require(band.getBandType() == ht::BandType::WaveletWave, "type", "band type");
  c.require(band.getBlockLength().has_value() && band.getBlockLength().value() == ticks, "block-length",
            pbt::str("block length ", band.getBlockLengthOrDefault(), " ticks, expected ", ticks));
  c.require(band.getUpperFrequencyLimit() == u.fs && band.getLowerFrequencyLimit() == static_cast<int>(u.cutoff),
            "limits", pbt::str(band.getLowerFrequencyLimit(), "..", band.getUpperFrequencyLimit()));
  c.require(band.getEffectsSize() == blocks, "blocks", pbt::str(band.getEffectsSize(), " blocks, expected ", blocks));

  WaveletEncoder fresh(u.bl, u.fs);
  ht::Band again;
  fresh.encodeSignal(in, u.budget, u.cutoff, again, static_cast<unsigned>(u.fs));
  Wavelet w;
  V want(blocks * static_cast<size_t>(u.bl), 0);
  for (size_t b = 0; b < blocks; b++) {
    auto &e = band.getEffectAt(static_cast<int>(b));
    c.require(e.getPosition() == static_cast<int>(b) * ticks, "position",
              pbt::str("block ", b, " at ", e.getPosition()));
    c.require(e.getWaveletBitstream() == again.getEffectAt(static_cast<int>(b)).getWaveletBitstream(),
              "history", pbt::str("block ", b, " depends on what was encoded before or on the time scale"));
    V block(static_cast<size_t>(u.bl), 0);
    for (size_t i = 0; i < block.size() && b * block.size() + i < n; i++) {
      block[i] = u.sig[b * block.size() + i];
    }
    checkBlock(c, u, block, e.getWaveletBitstream());
    // reference synthesis of the block
    Spiht_Dec dec;
    std::vector<int> K(static_cast<size_t>(u.bl), 0);
    double q = 0;
    int bits = 0;
    auto stream = e.getWaveletBitstream();
    dec.decodeEffect(stream, K, u.bl, q, bits);
    V coef(block.size());
    for (size_t i = 0; i < coef.size(); i++) {
      coef[i] = K[i] * q / std::pow(2.0, bits);
    }
    V time(block.size());
    w.inv_DWT(coef, u.levels, time);
    std::copy(time.begin(), time.end(), want.begin() + static_cast<long>(b * block.size()));
    if (u.budget >= 15 * (u.levels + 1)) {
      double m = maxAbs(refDwt(block, u.levels));
      double worst = std::max(m / 16384, m < 1 && m > 127.0 / 128 ? 1.0 / 64 : 0.0) + 1.0 / 8 / 32768;
      c.require(dist(time, block) <= 4 * (u.levels + 1) * worst, "precision",
                pbt::str("full budget, error ", dist(time, block), ", largest coefficient ", m));
    }
  }
  WaveletDecoder wd;
  V out = wd.decodeBand(band, static_cast<int>(u.ts));
  c.require(out.size() == want.size() && dist(out, want) <= 1e-9, "decode",
            pbt::str("decoded ", out.size(), " samples, expected ", want.size(), ", difference ", dist(out, want)));
  WaveletDecoder wd2;
  ht::Band t = band;
  wd2.transformBand(t, u.ts);
  c.require(t.getEffectsSize() == blocks, "transform-blocks", pbt::str(t.getEffectsSize()));
  for (size_t b = 0; b < blocks; b++) {
    auto &e = t.getEffectAt(static_cast<int>(b));
    c.require(e.getPosition() == static_cast<int>(b) * ticks, "transform-position",
              pbt::str("block ", b, " at ", e.getPosition(), " expected ", static_cast<int>(b) * ticks));
    V smp = e.getWaveletSamples();
    V ref(want.begin() + static_cast<long>(b) * u.bl, want.begin() + static_cast<long>(b + 1) * u.bl);
    c.require(dist(smp, ref) <= 1e-9, "transform", pbt::str("block ", b, " differs by ", dist(smp, ref)));
  }
  // sample by sample through the band
  if (blocks > 0) {
    for (int k = 0; k < 8; k++) {
      auto i = static_cast<size_t>(s.range(0, static_cast<int64_t>(want.size()) - 1));
      double v = t.Evaluate((static_cast<double>(i) + 0.5) * u.ts / u.fs, 0, u.fs, u.ts);
      c.require(std::fabs(v - want[i]) <= 1e-9, "evaluate", pbt::str("sample ", i, " is ", v, " expected ", want[i]));
    }
    V r = t.EvaluationBand(static_cast<uint32_t>(want.size()), u.fs, 0, u.ts);
    c.require(r.size() == want.size(), "render", "length");
    for (size_t i = 0; i < r.size(); i++) {
      c.require(std::fabs(r[i] - want[i]) <= 1e-9, "render", pbt::str("sample ", i, " is ", r[i], " expected ", want[i]));
    }
  }
  // other bands are left alone
  ht::Band other(ht::BandType::VectorialWave, 0, 100);
  ht::Effect ve(5, 0, ht::BaseSignal::Sine, ht::EffectType::Basis);
  other.addEffect(ve);
  wd2.transformBand(other, u.ts);
  c.require(other.getEffectsSize() == 1 && other.getEffectAt(0).getWaveletSamples().empty() &&
                wd2.decodeBand(other, static_cast<int>(u.ts)).empty(),
            "not-wavelet", "a band that is not a wavelet band was decoded");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C20";
  cfg.rule = "Signals of 0-3 blocks (silence, tones, noise, impulses, steps, at loudness 1e-5..1) encoded with "
             "block lengths 8..512, eight rates, matching time scales and every bit budget, then decoded. "
             "Non-trivial: the signal is not silent and the budget is positive.";
  cfg.assumptions = {"the block length is a whole number of ticks", "samples are within [-1, 1]",
                     "the psychohaptic weighting decides only how the budget is shared, any split is accepted"};
  cfg.targets = {{"encode", encode, 20000, 400000}};
  return pbt::run(cfg, argc, argv);
}
