// Experiences with repeated, nearly repeated, referenced and nested effects, and a reference
// resolution of references.
#pragma once
#include "model.h"
#include <algorithm>

namespace lib {
namespace ht = haptics::types;

inline auto genBasis(pbt::Source &s) -> ht::Effect {
  ht::Effect e(0, ht::EffectType::Basis);
  if (s.boolean()) {
    e.setPhase(static_cast<float>(s.range(0, 2)));
  }
  if (s.boolean()) {
    e.setBaseSignal(static_cast<ht::BaseSignal>(s.range(0, 2)));
  }
  if (s.chance(1, 5)) {
    std::string sem = s.boolean() ? "a" : "b";
    e.setSemantic(sem);
  }
  int n = static_cast<int>(s.range(0, 3));
  for (int i = 0; i < n; i++) {
    ht::Keyframe k(i * 10 + static_cast<int>(s.range(0, 1)), std::nullopt, std::nullopt);
    if (s.chance(3, 4)) {
      k.setAmplitudeModulation(static_cast<float>(s.range(0, 2)) / 4);
    }
    if (s.boolean()) {
      k.setFrequencyModulation(static_cast<int>(s.range(50, 51)));
    }
    e.addKeyframe(k);
  }
  return e;
}
// a copy with exactly one thing changed
inline auto almost(pbt::Source &s, ht::Effect e) -> ht::Effect {
  switch (s.range(0, 6)) {
  case 0:
    e.setPhase(3);
    break;
  case 1:
    e.setBaseSignal(ht::BaseSignal::SawToothDown);
    break;
  case 2: {
    std::string sem = "c";
    e.setSemantic(sem);
    break;
  }
  case 3: {
    ht::Keyframe k(99, 0.5F, std::nullopt);
    e.addKeyframe(k);
    break;
  }
  default:
    if (e.getKeyframesSize() == 0) {
      e.setPhase(4);
    } else {
      auto &k = e.getKeyframeAt(static_cast<int>(s.range(0, static_cast<int64_t>(e.getKeyframesSize()) - 1)));
      switch (s.range(0, 2)) {
      case 0:
        k.setAmplitudeModulation(k.getAmplitudeModulation().has_value() ? std::optional<float>() : std::optional<float>(0.F));
        break;
      case 1:
        k.setFrequencyModulation(k.getFrequencyModulation().value_or(0) + 7);
        break;
      default:
        k.setRelativePosition(k.getRelativePosition().value() + 3);
        break;
      }
    }
    break;
  }
  return e;
}
struct Gen {
  std::vector<ht::Effect> pool;
  std::vector<int> ids; // of the library
};
inline auto genComposite(pbt::Source &s, Gen &g, int depth) -> ht::Effect;
inline auto genAnyEffect(pbt::Source &s, Gen &g, int depth) -> ht::Effect {
  switch (s.weighted({6, 3, 2, depth > 0 ? 2U : 0U})) {
  case 0:
    return s.pick(g.pool);
  case 1:
    return almost(s, s.pick(g.pool));
  case 2: {
    ht::Effect e(0, ht::EffectType::Reference);
    e.setId(g.ids.empty() || s.chance(1, 8) ? static_cast<int>(s.range(50, 52)) : s.pick(g.ids));
    return e;
  }
  default:
    return genComposite(s, g, depth - 1);
  }
}
inline auto genComposite(pbt::Source &s, Gen &g, int depth) -> ht::Effect {
  ht::Effect e(0, ht::EffectType::Composite);
  int n = static_cast<int>(s.range(0, 3));
  for (int i = 0; i < n; i++) {
    ht::Effect ch = genAnyEffect(s, g, depth);
    ch.setPosition(static_cast<int>(s.range(0, 20)));
    e.addTimelineEffect(ch);
  }
  return e;
}
inline auto genPerception(pbt::Source &s, int id) -> ht::Perception {
  ht::Perception p(id, 0, "p", ht::PerceptionModality::Vibrotactile);
  Gen g;
  for (int i = static_cast<int>(s.range(1, 4)); i > 0; i--) {
    g.pool.push_back(genBasis(s));
  }
  int nl = s.boolean() ? static_cast<int>(s.range(0, 4)) : 0;
  std::vector<int> ids;
  for (int i = 0; i < nl; i++) {
    int nid = static_cast<int>(s.range(0, 9));
    while (std::find(ids.begin(), ids.end(), nid) != ids.end()) {
      nid++;
    }
    ids.push_back(nid);
  }
  for (int nid : ids) { // an entry refers only to those before it
    ht::Effect e = s.chance(2, 3) ? s.pick(g.pool) : genComposite(s, g, 2);
    e.setId(nid);
    e.setPosition(static_cast<int>(s.range(0, 5)));
    p.addBasisEffect(e);
    g.ids.push_back(nid);
  }
  int nc = static_cast<int>(s.range(0, 3));
  for (int c = 0; c < nc; c++) {
    ht::Channel ch(c, "c", 1, 1, 1);
    int nb = static_cast<int>(s.range(0, 3));
    for (int b = 0; b < nb; b++) {
      auto t = static_cast<ht::BandType>(s.range(0, 3));
      ht::Band band(t, 0, 1000);
      if (t == ht::BandType::WaveletWave) {
        band.setBlockLength(16);
      }
      int ne = static_cast<int>(s.range(0, 5));
      for (int k = 0; k < ne; k++) {
        ht::Effect e;
        if (t == ht::BandType::WaveletWave) {
          e = ht::Effect(k * 16, ht::EffectType::Basis);
          e.setWaveletBitstream({static_cast<unsigned char>(s.range(0, 255)), 1});
        } else {
          e = genAnyEffect(s, g, 2);
          e.setPosition(static_cast<int>(s.range(0, 300)));
        }
        band.addEffect(e);
      }
      ch.addBand(band);
    }
    p.addChannel(ch);
  }
  return p;
}
// reference semantics of a reference, nested ones included
inline auto resolve(ht::Effect e, ht::Perception &p, int depth = 0) -> ht::Effect {
  if (e.getEffectType() == ht::EffectType::Reference && depth < 20) {
    for (size_t i = 0; i < p.getEffectLibrarySize(); i++) {
      if (p.getBasisEffectAt(static_cast<int>(i)).getId() == e.getId()) {
        ht::Effect r = p.getBasisEffectAt(static_cast<int>(i));
        r.setPosition(e.getPosition());
        r.setId(-1);
        e = r;
        break;
      }
    }
  }
  for (size_t i = 0; i < e.getTimelineSize(); i++) {
    e.getTimelineEffectAt(static_cast<int>(i)) = resolve(e.getTimelineEffectAt(static_cast<int>(i)), p, depth + 1);
  }
  return e;
}
// the whole perception with its references resolved and without its library; ids of effects that
// are not references mean nothing
inline void dropIds(ht::Effect &e) {
  if (e.getEffectType() != ht::EffectType::Reference) {
    e.setId(-1);
  }
  for (size_t i = 0; i < e.getTimelineSize(); i++) {
    dropIds(e.getTimelineEffectAt(static_cast<int>(i)));
  }
}
inline auto meaning(ht::Perception p) -> ht::Perception {
  for (size_t c = 0; c < p.getChannelsSize(); c++) {
    auto &ch = p.getChannelAt(static_cast<int>(c));
    for (size_t b = 0; b < ch.getBandsSize(); b++) {
      auto &band = ch.getBandAt(static_cast<int>(b));
      for (size_t k = 0; k < band.getEffectsSize(); k++) {
        ht::Effect e = resolve(band.getEffectAt(static_cast<int>(k)), p);
        dropIds(e);
        band.replaceEffectAt(static_cast<int>(k), e);
      }
    }
  }
  p.clearEffectLibrary();
  return p;
}
inline auto dump(ht::Perception p) -> std::string {
  hm::Flat f;
  hm::flattenPerception(p, "p", f);
  return hm::dump(f);
}
inline auto diff(ht::Perception a, ht::Perception b) -> std::string {
  hm::Flat x;
  hm::Flat y;
  hm::flattenPerception(a, "p", x);
  hm::flattenPerception(b, "p", y);
  return hm::diffExact(x, y);
}
} // namespace lib
