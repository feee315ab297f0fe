// Experiences for the MIHS stream format, placed around packet borders, and what the format keeps.
#pragma once
#include "formats.h"
#include "model.h"
#include <algorithm>
#include <set>

namespace sg {
namespace ht = haptics::types;

struct Opts {
  bool spatial = true;
  bool composites = true;
  bool wavelets = true;
  bool syncs = false;
  bool longStrings = true;
  int maxWindows = 60;
};
struct Made {
  ht::Haptics h;
  int duration = 128;
};

template <class F> void eachBand(ht::Haptics &h, F f) {
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &q = h.getPerceptionAt(p);
    for (int c = 0; c < static_cast<int>(q.getChannelsSize()); c++) {
      auto &ch = q.getChannelAt(c);
      for (int b = 0; b < static_cast<int>(ch.getBandsSize()); b++) {
        f(q, ch, ch.getBandAt(b));
      }
    }
  }
}

// moves some keyframes and effects to (or next to) multiples of the packet duration
inline auto snap(pbt::Source &s, int v, int d, int lo, int hi) -> int {
  if (!s.chance(1, 3)) {
    return v;
  }
  long r = static_cast<long>((v + d / 2) / d) * d + s.range(0, 2) - 1;
  return static_cast<int>(std::min<long>(std::max<long>(r, lo), hi));
}
inline void snapEffect(pbt::Source &s, ht::Effect &e, int d, int maxPos) {
  e.setPosition(snap(s, e.getPosition(), d, 0, maxPos));
  if (e.getEffectType() == ht::EffectType::Composite) {
    for (int i = 0; i < static_cast<int>(e.getTimelineSize()); i++) {
      snapEffect(s, e.getTimelineEffectAt(i), d, maxPos);
    }
    return;
  }
  int last = 0;
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto &k = e.getKeyframeAt(i);
    if (!k.getRelativePosition()) {
      if (last > 0) {
        k.setRelativePosition(last);
      }
      continue;
    }
    int at = snap(s, e.getPosition() + k.getRelativePosition().value(), d, e.getPosition() + last,
                  e.getPosition() + 65535);
    last = std::max(last, at - e.getPosition());
    k.setRelativePosition(last);
  }
}

inline auto gen(pbt::Source &s, const Opts &o) -> Made {
  Made m;
  static const std::vector<int> durations = {128, 100, 50, 64, 1000, 256, 33, 7, 1, 4096};
  m.duration = s.chance(1, 5) ? static_cast<int>(s.range(1, 2000)) : s.pick(durations);
  hm::Dom d;
  d.maxString = o.longStrings && s.chance(1, 4) ? 300 : 255;
  d.timescales = {1000, 1000, 8000, 44100, 1, 2000};
  d.optionalTimescale = true;
  d.syncs = false;
  d.kfAbsent = true;
  d.composites = o.composites;
  d.libraryTimelines = true;
  d.wavelets = o.wavelets;
  d.inexactBlocks = true;
  d.maxChannelId = 65535;
  d.maxPosition = std::min<int>((1 << 24) - 70000, m.duration * o.maxWindows);
  d.maxKeyframePosition = std::min(65535, m.duration * o.maxWindows);
  d.spatial = o.spatial;
  m.h = hm::genHaptics(s, d);
  if (o.syncs) {
    int n = static_cast<int>(s.range(0, 5));
    for (int i = 0; i < n; i++) {
      int t = static_cast<int>(s.edgy(0, m.duration * o.maxWindows));
      t = s.boolean() ? t / m.duration * m.duration : t;
      ht::Sync y = s.boolean() ? ht::Sync(t) : ht::Sync(t, m.h.getTimescaleOrDefault());
      m.h.addSync(y);
    }
  }
  // effects of bands: positions around packet borders, some with ids
  const bool ids = s.boolean();
  int nextId = 0;
  eachBand(m.h, [&](ht::Perception &p, ht::Channel &, ht::Band &b) {
    std::set<int> refs;
    for (int i = 0; i < static_cast<int>(p.getEffectLibrarySize()); i++) {
      refs.insert(p.getBasisEffectAt(i).getId());
    }
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      auto &e = b.getEffectAt(i);
      if (e.getSemantic().has_value() && s.chance(1, 6)) {
        std::string own = s.pick(std::vector<std::string>{"own keyword", "", "UX/click"});
        e.setSemantic(own);
      }
      if (b.getBandType() == ht::BandType::WaveletWave) {
        continue;
      }
      if (e.getEffectType() == ht::EffectType::Composite) {
        snapEffect(s, e, m.duration, d.maxPosition);
        e.setPosition(0); // so that positions inside are unambiguous
        continue;
      }
      snapEffect(s, e, m.duration, d.maxPosition);
      if (ids && e.getEffectType() == ht::EffectType::Basis && s.chance(2, 3)) {
        nextId += static_cast<int>(s.range(0, 3));
        while (refs.count(nextId) != 0 || nextId > 60000) {
          nextId++;
        }
        e.setId(nextId++);
      }
    }
  });
  return m;
}

inline void flat(ht::Effect &e, std::vector<ht::Effect> &out) {
  if (e.getEffectType() != ht::EffectType::Composite) {
    out.push_back(e);
    return;
  }
  for (int i = 0; i < static_cast<int>(e.getTimelineSize()); i++) {
    flat(e.getTimelineEffectAt(i), out);
  }
}

// order that does not depend on how the timeline was cut
inline auto key(ht::Effect &e) -> std::vector<double> {
  std::vector<double> k = {static_cast<double>(static_cast<int>(e.getEffectType())),
                           static_cast<double>(e.getPosition()),
                           static_cast<double>(e.getKeyframesSize())};
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto &f = e.getKeyframeAt(i);
    k.push_back(f.getRelativePosition().value_or(-1));
    k.push_back(f.getFrequencyModulation().value_or(-1));
    k.push_back(f.getAmplitudeModulation().has_value() ? 1 : 0);
    if (f.getAmplitudeModulation().has_value()) { // the code it is quantised to
      float a = (std::clamp<float>(*f.getAmplitudeModulation(), -1, 1) + 1.0F) / 2.0F;
      k.push_back(std::round(static_cast<double>(a) * 255));
    }
  }
  k.push_back(e.getId());
  return k;
}
inline void canonicalBand(ht::Band &b) {
  if (b.getBandType() == ht::BandType::WaveletWave) {
    return;
  }
  std::vector<ht::Effect> es;
  for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
    es.push_back(b.getEffectAt(i));
  }
  std::stable_sort(es.begin(), es.end(), [](ht::Effect x, ht::Effect y) { return key(x) < key(y); });
  while (b.getEffectsSize() > 0) {
    b.removeEffectAt(0);
  }
  for (auto &e : es) {
    b.addEffect(e);
  }
}

// the experience without what a stream cannot carry: components without effects
inline auto withoutEmpty(ht::Haptics h) -> ht::Haptics {
  for (int p = static_cast<int>(h.getPerceptionsSize()) - 1; p >= 0; p--) {
    auto &q = h.getPerceptionAt(p);
    for (int c = static_cast<int>(q.getChannelsSize()) - 1; c >= 0; c--) {
      auto &ch = q.getChannelAt(c);
      for (int b = static_cast<int>(ch.getBandsSize()) - 1; b >= 0; b--) {
        auto &bd = ch.getBandAt(b);
        for (int e = static_cast<int>(bd.getEffectsSize()) - 1; e >= 0; e--) {
          auto &ef = bd.getEffectAt(e);
          if (bd.getBandType() != ht::BandType::WaveletWave &&
              ef.getEffectType() == ht::EffectType::Basis && ef.getKeyframesSize() == 0) {
            bd.removeEffectAt(e);
          }
        }
        if (bd.getEffectsSize() == 0) {
          ch.removeBandAt(b);
        }
      }
      if (ch.getBandsSize() == 0) {
        q.removeChannelAt(c);
      }
    }
    if (q.getChannelsSize() == 0) {
      h.removePerceptionAt(p);
    }
  }
  return h;
}

// what reading the stream of h must give (ids of effects without an id: -1)
inline auto expected(const ht::Haptics &h0) -> ht::Haptics {
  ht::Haptics h = withoutEmpty(h0);
  h.setTimescale(static_cast<int>(h.getTimescaleOrDefault()));
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &q = h.getPerceptionAt(p);
    if (!q.getUnitExponent().has_value()) {
      q.setUnitExponent(q.getUnitExponentOrDefault());
    }
    if (!q.getPerceptionUnitExponent().has_value()) {
      q.setPerceptionUnitExponent(q.getPerceptionUnitExponentOrDefault());
    }
    for (int i = 0; i < static_cast<int>(q.getReferenceDevicesSize()); i++) {
      auto &r = q.getReferenceDeviceAt(i);
      r.setBodyPartMask(r.getBodyPartMask().value_or(0));
    }
    auto defaults = [](auto &self, ht::Effect &e) -> void {
      if (e.getEffectType() == ht::EffectType::Basis) {
        e.setPhase(e.getPhaseOrDefault());
        e.setBaseSignal(e.getBaseSignalOrDefault());
      }
      for (int i = 0; i < static_cast<int>(e.getTimelineSize()); i++) {
        self(self, e.getTimelineEffectAt(i));
      }
    };
    for (int i = 0; i < static_cast<int>(q.getEffectLibrarySize()); i++) {
      defaults(defaults, q.getBasisEffectAt(i));
    }
  }
  eachBand(h, [&](ht::Perception &, ht::Channel &, ht::Band &b) {
    std::vector<ht::Effect> es;
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      flat(b.getEffectAt(i), es);
    }
    while (b.getEffectsSize() > 0) {
      b.removeEffectAt(0);
    }
    for (auto &e : es) {
      ht::Effect r;
      r.setId(e.getId());
      r.setPosition(e.getPosition());
      r.setEffectType(e.getEffectType());
      if (e.getEffectType() == ht::EffectType::Basis) {
        if (e.getSemantic().has_value()) {
          auto sem = *e.getSemantic();
          const auto &known = hm::semanticKeywords(); // others have no code
          if (std::find(known.begin(), known.end(), sem) != known.end()) {
            r.setSemantic(sem);
          }
        }
        if (b.getBandType() == ht::BandType::WaveletWave) {
          r.setWaveletBitstream(e.getWaveletBitstream());
        } else {
          if (b.getBandType() == ht::BandType::VectorialWave) {
            r.setPhase(e.getPhaseOrDefault());
            r.setBaseSignal(e.getBaseSignalOrDefault());
          }
          for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
            auto k = e.getKeyframeAt(i);
            hm::fillKeyframe(k, b.getBandType());
            r.addKeyframe(k);
          }
          if (r.getKeyframesSize() == 0) {
            continue; // a child of a composite effect without keyframes is no effect
          }
        }
      }
      b.addEffect(r);
    }
  });
  return h;
}

// flattening both sides the same way; ids are compared only where the experience had one
inline auto compare(ht::Haptics want, ht::Haptics got, bool syncs) -> std::string {
  eachBand(want, [](ht::Perception &, ht::Channel &, ht::Band &b) { canonicalBand(b); });
  std::vector<std::set<int>> given; // ids the experience came with, per band
  eachBand(want, [&](ht::Perception &, ht::Channel &, ht::Band &b) {
    given.emplace_back();
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      if (b.getEffectAt(i).getEffectType() == ht::EffectType::Basis) {
        given.back().insert(b.getEffectAt(i).getId());
      }
    }
  });
  size_t at = 0;
  eachBand(got, [&](ht::Perception &, ht::Channel &, ht::Band &b) {
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      auto &e = b.getEffectAt(i);
      if (e.getEffectType() == ht::EffectType::Basis &&
          (at >= given.size() || given[at].count(e.getId()) == 0)) {
        e.setId(-1);
      }
    }
    at++;
    canonicalBand(b);
  });
  hm::Flat w = hm::flatten(want);
  hm::Flat g = hm::flatten(got);
  auto clampF = [](double v, double lo, double hi) { return std::min(std::max(v, lo), hi); };
  auto limit = [&](hm::Flat &f) {
  for (auto &kv : f) {
    const std::string l = hm::leaf(kv.first);
    hm::Val &v = kv.second;
    if (v.kind == hm::Val::Num && l == "amp") {
      v.n = clampF(v.n, -1, 1);
    } else if (v.kind == hm::Val::Num && l == "phase") {
      v.n = clampF(v.n, 0, 6.28318F);
    } else if (v.kind == hm::Val::Num && (l == "gain" || l == "custom")) {
      v.n = clampF(v.n, -10000, 10000);
    } else if (v.kind == hm::Val::Num &&
               (l == "mix" || l == "maxfreq" || l == "minfreq" || l == "resfreq" || l == "maxamp" ||
                l == "impedance" || l == "maxvolt" || l == "maxcurr" || l == "maxdisp" ||
                l == "weight" || l == "size")) {
      v.n = clampF(v.n, 0, 10000);
    } else if (v.kind == hm::Val::Str &&
               (l == "version" || l == "profile" || l == "date" || l == "description" ||
                l == "desc" || l == "name" || l == "mesh" || l == "scheme")) {
      v.s = v.s.substr(0, 255);
    }
  }
  };
  limit(w);
  limit(g);
  return hm::diff(w, g, hm::binaryTolerance, [&](const std::string &path) {
    const std::string l = hm::leaf(path);
    return !syncs && (l == "ns" || l == "ts" || l == "tscale");
  });
}
} // namespace sg
