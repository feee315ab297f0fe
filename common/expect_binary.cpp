#include "formats.h"
#include <algorithm>
#include <cmath>

namespace hm {
namespace {
auto clampF(double v, double lo, double hi) -> double { return std::min(std::max(v, lo), hi); }
auto cut(const std::string &s) -> std::string { return s.substr(0, 255); }

// effect of a band as the binary format keeps it
void normEffect(ht::Effect &e, ht::BandType t) {
  ht::Effect r;
  r.setPosition(e.getPosition());
  r.setEffectType(e.getEffectType());
  if (e.getEffectType() == ht::EffectType::Reference) {
    r.setId(e.getId());
  } else if (e.getEffectType() == ht::EffectType::Composite) {
    for (int i = 0; i < static_cast<int>(e.getTimelineSize()); i++) {
      auto c = e.getTimelineEffectAt(i);
      normEffect(c, t);
      r.addTimelineEffect(c);
    }
  } else if (t == ht::BandType::WaveletWave) {
    r.setWaveletBitstream(e.getWaveletBitstream());
  } else {
    if (t == ht::BandType::VectorialWave) {
      r.setPhase(e.getPhase().value_or(0));
      r.setBaseSignal(e.getBaseSignal().value_or(ht::BaseSignal::Sine));
    }
    for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
      auto k = e.getKeyframeAt(i);
      fillKeyframe(k, t);
      r.addKeyframe(k);
    }
  }
  e = r;
}
void normLibrary(ht::Effect &e) {
  ht::Effect r;
  r.setId(e.getId());
  r.setPosition(e.getPosition());
  r.setEffectType(e.getEffectType());
  if (e.getEffectType() == ht::EffectType::Basis) {
    r.setPhase(e.getPhase().value_or(0));
    r.setBaseSignal(e.getBaseSignal().value_or(ht::BaseSignal::Sine));
  }
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto k = e.getKeyframeAt(i);
    r.addKeyframe(k);
  }
  for (int i = 0; i < static_cast<int>(e.getTimelineSize()); i++) {
    auto c = e.getTimelineEffectAt(i);
    normLibrary(c);
    r.addTimelineEffect(c);
  }
  e = r;
}
} // namespace

auto expectBinary(ht::Haptics &h0) -> Flat {
  ht::Haptics h = h0;
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &q = h.getPerceptionAt(p);
    for (int i = 0; i < static_cast<int>(q.getEffectLibrarySize()); i++) {
      normLibrary(q.getBasisEffectAt(i));
    }
    for (int c = 0; c < static_cast<int>(q.getChannelsSize()); c++) {
      auto &ch = q.getChannelAt(c);
      for (int b = 0; b < static_cast<int>(ch.getBandsSize()); b++) {
        auto &bd = ch.getBandAt(b);
        for (int e = 0; e < static_cast<int>(bd.getEffectsSize()); e++) {
          normEffect(bd.getEffectAt(e), bd.getBandType());
        }
      }
    }
  }
  Flat in = flatten(h);
  Flat out;
  for (auto &kv : in) {
    const std::string l = leaf(kv.first);
    Val v = kv.second;
    if (l == "prio" || l == "scheme" || l == "semantic") {
      v = Val::none();
    } else if (l == "ns") {
      v = Val::num(0);
    } else if (l == "ts" || l == "tscale") {
      continue;
    } else if (l == "timescale") {
      v = Val::num(1000);
    } else if (l == "refdev" && v.kind == Val::None) {
      v = Val::num(255);
    } else if (l == "uexp" && v.kind == Val::None) {
      v = Val::num(-3);
    } else if ((l == "puexp" || l == "rbodymask") && v.kind == Val::None) {
      v = Val::num(0);
    } else if (v.kind == Val::Num && l == "amp") {
      v.n = clampF(v.n, -1, 1);
    } else if (v.kind == Val::Num && l == "phase") {
      v.n = clampF(v.n, 0, 6.28318F);
    } else if (v.kind == Val::Num && (l == "gain" || l == "custom")) {
      v.n = clampF(v.n, -10000, 10000);
    } else if (v.kind == Val::Num &&
               (l == "mix" || l == "maxfreq" || l == "minfreq" || l == "resfreq" || l == "maxamp" ||
                l == "impedance" || l == "maxvolt" || l == "maxcurr" || l == "maxdisp" ||
                l == "weight" || l == "size")) {
      v.n = clampF(v.n, 0, 10000);
    } else if (v.kind == Val::Str && (l == "version" || l == "profile" || l == "date" ||
                                      l == "description" || l == "desc" || l == "name" || l == "mesh")) {
      v.s = cut(v.s);
    }
    out.emplace_back(kv.first, v);
  }
  return out;
}

auto binaryTolerance(const std::string &path, const Val &v) -> double {
  const std::string l = leaf(path);
  if (l == "amp") {
    return 1.0 / 255 + 1e-6;
  }
  if (l == "phase") {
    return 6.28318 / 65535 / 2 + 2e-6;
  }
  if (l == "gain" || l == "custom") {
    return 0.004;
  }
  if (l == "mix" || l == "maxfreq" || l == "minfreq" || l == "resfreq" || l == "maxamp" ||
      l == "impedance" || l == "maxvolt" || l == "maxcurr" || l == "maxdisp" || l == "weight" ||
      l == "size") {
    return 1e-5 + 4e-7 * std::fabs(v.n);
  }
  return 0;
}
} // namespace hm
