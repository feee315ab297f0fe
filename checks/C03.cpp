// C03: MIHS stream round trip.
#include "pbt.h"
#include "streamgen.h"
#include <IOHaptics/include/IOStream.h>
#include <iostream>

using haptics::io::IOStream;
namespace ht = haptics::types;

namespace {
void label(sg::Made &m, pbt::Case &c) {
  hm::labels(m.h, c);
  bool cut = false;
  bool overlap = false;
  int units = 0;
  sg::eachBand(m.h, [&](auto &, auto &, auto &b) {
    int lastEnd = -1;
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      auto &e = b.getEffectAt(i);
      if (e.getKeyframesSize() == 0) {
        continue;
      }
      int a = e.getPosition() + e.getKeyframeAt(0).getRelativePosition().value_or(0);
      int z = e.getPosition() +
              e.getKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1).getRelativePosition().value_or(0);
      cut = cut || a / m.duration != z / m.duration;
      overlap = overlap || a <= lastEnd;
      lastEnd = std::max(lastEnd, z);
      units = std::max(units, z / m.duration);
    }
  });
  c.label(cut, "effect cut across units");
  c.label(overlap, "overlapping or unordered effects");
  c.label(units > 10, "more than ten units");
  c.nontrivial(hm::countEffects(m.h) > 0);
}

void roundTrip(pbt::Source &s, pbt::Case &c, const sg::Opts &o, bool viaFile) {
  auto m = sg::gen(s, o);
  label(m, c);
  c.describe(pbt::str("packet duration ", m.duration, "\n", hm::dump(m.h)));
  auto want = sg::expected(m.h);
  ht::Haptics got;
  if (viaFile) {
    std::string path = pbt::scratch() + "/s.hmpg";
    c.require(IOStream::writeFile(m.h, path, m.duration), "write", "writing fails");
    ht::Haptics old("x", "y", "z");
    got = old; // whatever was there before must be gone
    c.require(IOStream::readFile(path, got), "read", "reading back fails");
  } else {
    std::vector<std::vector<bool>> units;
    c.require(IOStream::writeUnits(m.h, units, m.duration), "write", "writing the units fails");
    auto reader = IOStream::initializeStream();
    IOStream::CRC crc;
    for (auto &u : units) {
      c.require(IOStream::readMIHSUnit(u, reader, crc), "read", "reading a unit fails");
    }
    got = reader.haptic;
    got.setTimescale(static_cast<int>(reader.timescale));
  }
  std::string d = sg::compare(want, got, false);
  c.require(d.empty(), "differs", "read back differently: " + d);
}
void parametric(pbt::Source &s, pbt::Case &c) {
  sg::Opts o;
  o.spatial = false;
  o.wavelets = false;
  roundTrip(s, c, o, true);
}
void everything(pbt::Source &s, pbt::Case &c) { roundTrip(s, c, sg::Opts(), s.boolean()); }

// one band, many effects and keyframes around the borders
void dense(pbt::Source &s, pbt::Case &c) {
  sg::Made m;
  m.duration = static_cast<int>(s.range(1, 60));
  m.h = ht::Haptics("2023", "d", "e");
  m.h.setTimescale(1000);
  ht::Perception p(1, 0, "p", ht::PerceptionModality::Vibrotactile);
  ht::Channel ch(2, "c", 1, 1, 1);
  ht::Band b;
  b.setBandType(static_cast<ht::BandType>(s.range(0, 2)));
  if (b.getBandType() == ht::BandType::Curve) {
    b.setCurveType(ht::CurveType::Linear);
  }
  b.setUpperFrequencyLimit(1000);
  hm::Dom d;
  const bool ids = s.boolean();
  int n = static_cast<int>(s.range(1, 12));
  for (int i = 0; i < n; i++) {
    ht::Effect e(static_cast<int>(s.range(0, 12 * m.duration)), ht::EffectType::Basis);
    if (ids) {
      e.setId(100 - i);
    }
    int k = static_cast<int>(s.range(1, 8));
    int at = 0;
    for (int j = 0; j < k; j++) {
      at += static_cast<int>(s.range(0, 2 * m.duration));
      auto kf = hm::genKeyframe(s, d, b.getBandType(), at);
      e.addKeyframe(kf);
    }
    sg::snapEffect(s, e, m.duration, 1000000);
    b.addEffect(e);
  }
  ch.addBand(b);
  p.addChannel(ch);
  m.h.addPerception(p);
  label(m, c);
  c.describe(pbt::str("packet duration ", m.duration, "\n", hm::dump(m.h)));
  std::string path = pbt::scratch() + "/s.hmpg";
  c.require(IOStream::writeFile(m.h, path, m.duration), "write", "writing fails");
  ht::Haptics got;
  c.require(IOStream::readFile(path, got), "read", "reading back fails");
  std::string df = sg::compare(sg::expected(m.h), got, false);
  c.require(df.empty(), "differs", "read back differently: " + df);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C03";
  cfg.rule = "Experiences (all metadata, library, four kinds of bands, references, composites) with "
             "effects and keyframes at and around packet borders, and packet durations from 1 to 4096 "
             "ticks, are written as MIHS and read back, through the file and unit by unit; 'dense' has "
             "one band with many overlapping effects. Non-trivial: at least one effect.";
  cfg.assumptions = {
      "effects are compared without regard to their order in the band, ids only where one was given",
      "composite effects are at position 0 and are read back as the effects they contain",
      "ids of effects are unique and differ from those of the library; keyframes are complete and sorted",
      "components without any effect are not carried"};
  cfg.targets = {{"parametric", parametric, 12000, 400000},
                 {"everything", everything, 12000, 400000},
                 {"dense", dense, 8000, 300000}};
  cfg.init = [] {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
  };
  return pbt::run(cfg, argc, argv);
}
