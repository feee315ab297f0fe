// Experiences that satisfy the rules of their profile and level, the rules themselves (written
// from the requirements, independently of the checker under test), and single violations.
#pragma once
#include "model.h"
#include <algorithm>
#include <cmath>

namespace cf {
namespace ht = haptics::types;
using pbt::Source;

inline const std::string MPEG_SCHEME = "urn:mpeg:mpegi:haptics:effectsemantic:2023";

inline auto unitVector(Source &s) -> ht::Vector {
  double a = s.real(0, 6.283);
  double z = s.real(-1, 1);
  double r = std::sqrt(std::max(0.0, 1 - z * z));
  if (s.chance(1, 3)) { // axis
    int v[3] = {0, 0, 0};
    v[s.range(0, 2)] = s.boolean() ? 127 : -127;
    return ht::Vector((int8_t)v[0], (int8_t)v[1], (int8_t)v[2]);
  }
  auto q = [](double x) { return static_cast<int8_t>(std::lround(127 * x)); };
  return ht::Vector(q(r * std::cos(a)), q(r * std::sin(a)), q(z));
}

inline auto noNul(std::string v) -> std::string {
  std::replace(v.begin(), v.end(), '\0', 'z');
  return v;
}

struct Opt {
  bool anyByte = true;
  bool wavelets = true;
  bool references = true;
  bool optionalTimescale = false;
  int maxPosition = 1 << 30;
  int maxKeyframePosition = 1 << 30;
  int maxChannelId = 1 << 30;
};

inline auto genDom(const Opt &o) -> hm::Dom {
  hm::Dom d;
  d.anyByte = o.anyByte;
  d.kfAbsent = true;
  d.semanticScheme = false;
  d.syncs = true;
  d.wavelets = o.wavelets;
  d.references = o.references;
  d.optionalTimescale = o.optionalTimescale;
  d.maxPosition = o.maxPosition;
  d.maxKeyframePosition = o.maxKeyframePosition;
  d.maxChannelId = o.maxChannelId;
  d.timescales = {1000, 1, 480, 8000, 44100, 48000};
  return d;
}

// A conformant experience: generated freely, then every field that a rule constrains is redrawn
// within the rule.
inline auto genConformant(Source &s, const Opt &o) -> ht::Haptics {
  hm::Dom d = genDom(o);
  const bool simple = s.chance(1, 3);
  const int level = static_cast<int>(s.range(1, 2));
  if (simple) {
    d.timescales = {1000};
    d.wavelets = false;
    if (level == 1) {
      d.modalities = {ht::PerceptionModality::Vibrotactile, ht::PerceptionModality::Force,
                      ht::PerceptionModality::Stiffness,
                      ht::PerceptionModality::VibrotactileTexture};
    }
  }
  ht::Haptics h = hm::genHaptics(s, d);
  std::string profile = simple ? "Simple Parametric" : "Main";
  h.setProfile(profile);
  h.setLevel(static_cast<uint8_t>(level));
  std::string year = std::to_string(s.chance(1, 2) ? 2023 : s.range(2023, 9999));
  if (s.boolean()) {
    year += "-" + std::to_string(s.range(1, 9));
  }
  h.setVersion(year);
  static const std::vector<std::string> dates = {
      "2023",       "2023-04",    "2023-04-05",           "2023-12-31T23:59:59+00:00",
      "+2023-11-02", "1999-10-30", "2023-04-05T12:30+01:00", "2024-02-29T00:00:00.125-10:30Z"};
  std::string date = s.pick(dates);
  h.setDate(date);
  std::string desc = noNul(h.getDescription());
  h.setDescription(desc);
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) {
    auto &a = h.getAvatarAt(i);
    if (a.getMesh().has_value()) {
      std::string m = noNul(*a.getMesh());
      a.setMesh(m.empty() ? "x" : m);
    }
  }
  for (int p = 0; p < (int)h.getPerceptionsSize(); p++) {
    auto &q = h.getPerceptionAt(p);
    std::string pd = noNul(q.getDescription());
    q.setDescription(pd);
    if (s.chance(1, 5)) {
      static const std::vector<std::string> urns = {
          MPEG_SCHEME, "urn:example:haptics", "URN:a1:b?=c#d", "urn:x-y-z:0", "urn:uuid:1"};
      std::string urn = s.pick(urns);
      q.setEffectSemanticScheme(urn);
    }
    for (int i = 0; i < (int)q.getReferenceDevicesSize(); i++) {
      auto &r = q.getReferenceDeviceAt(i);
      std::string n = noNul(r.getName());
      r.setName(n);
      std::vector<float> f;
      auto add = [&](std::optional<float> x) {
        if (x.has_value()) {
          f.push_back(*x);
        }
      };
      add(r.getMinimumFrequency());
      add(r.getResonanceFrequency());
      add(r.getMaximumFrequency());
      std::sort(f.begin(), f.end());
      size_t k = 0;
      if (r.getMinimumFrequency().has_value()) {
        r.setMinimumFrequency(f[k++]);
      }
      if (r.getResonanceFrequency().has_value()) {
        r.setResonanceFrequency(f[k++]);
      }
      if (r.getMaximumFrequency().has_value()) {
        r.setMaximumFrequency(f[k++]);
      }
    }
    for (int c = 0; c < (int)q.getChannelsSize(); c++) {
      auto &ch = q.getChannelAt(c);
      std::string cd = noNul(ch.getDescription());
      ch.setDescription(cd);
      if (s.chance(1, 6)) {
        ch.setFrequencySampling(s.boolean() ? std::nullopt : std::optional<uint32_t>(8000));
      }
      if (ch.getDirection().has_value()) {
        ch.setDirection(unitVector(s));
      }
      if (ch.getActuatorResolution().has_value()) {
        auto v = [&] { return static_cast<int8_t>(s.chance(1, 4) ? 127 : s.range(0, 9)); };
        int8_t x = v();
        int8_t y = v();
        int8_t z = v();
        ch.setActuatorResolution(ht::Vector(x, y, z));
        if (ch.getActuatorTarget().has_value()) {
          auto t = *ch.getActuatorTarget();
          for (auto &u : t) {
            u = ht::Vector((int8_t)s.range(0, x), (int8_t)s.range(0, y), (int8_t)s.range(0, z));
          }
          ch.setActuatorTarget(t);
        }
        if (s.chance(1, 5)) {
          ch.setActuatorTarget(std::nullopt);
        }
        if (s.chance(1, 5)) {
          ch.setBodyPartTarget(std::nullopt);
        }
      }
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        if (bd.getBandType() == ht::BandType::WaveletWave) {
          bd.setBlockLength(1 << s.range(0, 20));
        }
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
          auto &ef = bd.getEffectAt(e);
          if (bd.getBandType() == ht::BandType::Transient &&
              ef.getEffectType() == ht::EffectType::Basis && s.chance(1, 6)) {
            ef.setPhase(hm::genFloat(s, 0, 6.28F, false));
          }
          if (q.getEffectSemanticScheme().has_value() &&
              *q.getEffectSemanticScheme() != MPEG_SCHEME && s.chance(1, 4)) {
            std::string own = "own keyword";
            ef.setSemantic(own);
          }
          for (int k = 0; k < (int)ef.getKeyframesSize(); k++) {
            if (s.chance(1, 20)) {
              ef.getKeyframeAt(k).setRelativePosition(std::nullopt);
            }
          }
        }
      }
    }
  }
  return h;
}

// The rules. Returns the names of the broken ones; 'open' is set when a limit is hit on which the
// documents disagree (127 or 128 channels, 63 or 65536 bands), so that either answer is right.
inline auto broken(ht::Haptics &h, bool &open) -> std::vector<std::string> {
  std::vector<std::string> out;
  auto need = [&](bool ok, const char *rule) {
    if (!ok) {
      out.emplace_back(rule);
    }
  };
  auto digits = [](const std::string &t) {
    return !t.empty() && std::all_of(t.begin(), t.end(), [](char c) { return c >= '0' && c <= '9'; });
  };
  const std::string v = h.getVersion();
  bool okVersion = v.size() >= 4 && digits(v.substr(0, 4)) && std::stoi(v.substr(0, 4)) >= 2023 &&
                   (v.size() == 4 || (v.size() == 6 && v[4] == '-' && v[5] >= '1' && v[5] <= '9'));
  need(okVersion, "version");
  const bool simple = h.getProfile() == "Simple Parametric";
  need(simple || h.getProfile() == "Main", "profile");
  const int level = h.getLevel();
  need(level == 1 || level == 2, "level");
  std::string date = h.getDate();
  bool okDate = false; // a year of four digits somewhere (the check is lenient about the rest)
  for (size_t i = 0; i + 4 <= date.size(); i++) {
    okDate = okDate || digits(date.substr(i, 4));
  }
  need(okDate, "date");
  if (h.getTimescale().has_value()) {
    need(!simple || *h.getTimescale() == 1000, "timescale of the simple profile");
    need(h.getProfile() != "Main" || *h.getTimescale() <= 48000, "timescale of the main profile");
  }
  std::vector<int> aids;
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) {
    auto &a = h.getAvatarAt(i);
    need(a.getId() != 0, "avatar id 0");
    need(std::find(aids.begin(), aids.end(), a.getId()) == aids.end(), "avatar ids unique");
    aids.push_back(a.getId());
    need(!a.getMesh().has_value() || !a.getMesh()->empty(), "mesh URI");
  }
  std::vector<int> pids;
  for (int p = 0; p < (int)h.getPerceptionsSize(); p++) {
    auto &q = h.getPerceptionAt(p);
    need(std::find(pids.begin(), pids.end(), q.getId()) == pids.end(), "perception ids unique");
    pids.push_back(q.getId());
    auto m = q.getPerceptionModality();
    need(!(simple && level == 1) || m == ht::PerceptionModality::Force ||
             m == ht::PerceptionModality::Vibrotactile || m == ht::PerceptionModality::Stiffness ||
             m == ht::PerceptionModality::VibrotactileTexture,
         "modality of the simple profile, level 1");
    need(q.getAvatarId() == 0 || std::find(aids.begin(), aids.end(), q.getAvatarId()) != aids.end(),
         "avatar reference");
    const auto scheme = q.getEffectSemanticScheme();
    if (scheme.has_value()) {
      need(scheme->size() > 6 && (scheme->substr(0, 4) == "urn:" || scheme->substr(0, 4) == "URN:"),
           "semantic scheme");
    }
    const int nc = (int)q.getChannelsSize();
    if (level == 1) {
      open = open || nc == 128;
      need(nc <= 128, "channel count of level 1");
    }
    std::vector<int> rids;
    for (int i = 0; i < (int)q.getReferenceDevicesSize(); i++) {
      auto &r = q.getReferenceDeviceAt(i);
      need(std::find(rids.begin(), rids.end(), r.getId()) == rids.end(), "device ids unique");
      rids.push_back(r.getId());
      auto le = [](const std::optional<float> &a, const std::optional<float> &b) {
        return !a.has_value() || !b.has_value() || *a <= *b;
      };
      need(le(r.getMinimumFrequency(), r.getMaximumFrequency()), "device minimum <= maximum");
      need(le(r.getMinimumFrequency(), r.getResonanceFrequency()), "device minimum <= resonance");
      need(le(r.getResonanceFrequency(), r.getMaximumFrequency()), "device resonance <= maximum");
    }
    std::vector<int> lids;
    for (int i = 0; i < (int)q.getEffectLibrarySize(); i++) {
      auto &e = q.getBasisEffectAt(i);
      need(std::find(lids.begin(), lids.end(), e.getId()) == lids.end(), "library ids unique");
      lids.push_back(e.getId());
      need(!simple || e.getEffectType() != ht::EffectType::Composite,
           "composite library effect in the simple profile");
    }
    std::vector<int> cids;
    for (int c = 0; c < nc; c++) {
      auto &ch = q.getChannelAt(c);
      need(std::find(cids.begin(), cids.end(), ch.getId()) == cids.end(), "channel ids unique");
      cids.push_back(ch.getId());
      auto rd = ch.getReferenceDeviceId();
      need(!rd.has_value() || std::find(rids.begin(), rids.end(), *rd) != rids.end(),
           "device reference");
      auto d = ch.getDirection();
      if (d.has_value()) {
        double n = std::sqrt(d->X * d->X + d->Y * d->Y + d->Z * d->Z) / 127.0;
        open = open || std::fabs(n - 0.99) < 1e-5 || std::fabs(n - 1.01) < 1e-5;
        need(n >= 0.99 && n <= 1.01, "unit direction");
      }
      const int nb = (int)ch.getBandsSize();
      need(level != 1 || nb <= 7, "band count of level 1");
      open = open || (level == 2 && nb > 63);
      auto res = ch.getActuatorResolution();
      auto tg = ch.getActuatorTarget();
      if (res.has_value()) {
        need(res->X >= 0 && res->Y >= 0 && res->Z >= 0, "negative resolution");
        if (tg.has_value()) {
          for (auto &t : *tg) {
            need(t.X >= 0 && t.Y >= 0 && t.Z >= 0 && t.X <= res->X && t.Y <= res->Y &&
                     t.Z <= res->Z,
                 "actuator target within the resolution");
          }
        }
      } else {
        need(!tg.has_value(), "actuator target without resolution");
      }
      for (int b = 0; b < nb; b++) {
        auto &bd = ch.getBandAt(b);
        const bool wavelet = bd.getBandType() == ht::BandType::WaveletWave;
        need(bd.getBandType() == ht::BandType::Curve || !bd.getCurveType().has_value(),
             "curve type of a band that is no curve");
        if (wavelet) {
          int l = bd.getBlockLengthOrDefault();
          need(l > 0 && (l & (l - 1)) == 0, "block length a power of two");
          need(!simple, "wavelet band in the simple profile");
        }
        need(bd.getLowerFrequencyLimit() <= bd.getUpperFrequencyLimit(), "band limits in order");
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
          auto &ef = bd.getEffectAt(e);
          need(!simple || ef.getEffectType() != ht::EffectType::Composite,
               "composite effect in the simple profile");
          need(!wavelet || ef.getKeyframesSize() == 0, "keyframes in a wavelet band");
          need(ef.getEffectType() != ht::EffectType::Reference ||
                   std::find(lids.begin(), lids.end(), ef.getId()) != lids.end(),
               "library reference");
          if (ef.getSemantic().has_value() && (!scheme.has_value() || *scheme == MPEG_SCHEME)) {
            auto &kw = hm::semanticKeywords();
            need(std::find(kw.begin(), kw.end(), *ef.getSemantic()) != kw.end(), "semantic keyword");
          }
        }
      }
    }
  }
  return out;
}

inline auto pickPerception(pbt::Source &s, ht::Haptics &h) -> ht::Perception & {
  if (h.getPerceptionsSize() == 0) {
    ht::Perception p(3, 0, "p", ht::PerceptionModality::Vibrotactile);
    h.addPerception(p);
  }
  return h.getPerceptionAt((int)s.range(0, (int)h.getPerceptionsSize() - 1));
}
inline auto pickChannel(pbt::Source &s, ht::Haptics &h) -> ht::Channel & {
  auto &p = pickPerception(s, h);
  if (p.getChannelsSize() == 0) {
    ht::Channel c(5, "c", 1, 1, 0);
    p.addChannel(c);
  }
  return p.getChannelAt((int)s.range(0, (int)p.getChannelsSize() - 1));
}
inline auto pickBand(pbt::Source &s, ht::Haptics &h) -> ht::Band & {
  auto &c = pickChannel(s, h);
  if (c.getBandsSize() == 0) {
    ht::Band b(ht::BandType::VectorialWave, 0, 1000);
    c.addBand(b);
  }
  return c.getBandAt((int)s.range(0, (int)c.getBandsSize() - 1));
}
inline auto pickEffect(pbt::Source &s, ht::Haptics &h) -> ht::Effect & {
  auto &b = pickBand(s, h);
  if (b.getEffectsSize() == 0) {
    ht::Effect e(0, ht::EffectType::Basis);
    b.addEffect(e);
  }
  return b.getEffectAt((int)s.range(0, (int)b.getEffectsSize() - 1));
}

// one change at a place a rule speaks about, mostly but not always a violation
inline void perturb(pbt::Source &s, ht::Haptics &h) {
  switch (s.range(0, 29)) {
  case 0: {
    static const std::vector<std::string> v = {"2022",  "2023-0", "2023-10", "20231", "202",
                                               "2023-", "2023_1", " 2023",   "2023 ", "abcd",
                                               "",      "0000",   "2023-a",  "9999",  "2023-9"};
    std::string x = s.pick(v);
    h.setVersion(x);
    break;
  }
  case 1: {
    static const std::vector<std::string> v = {"main",  "", "Simple", "Main", "Simple Parametric",
                                               "Main ", "Simple Parametric "};
    std::string x = s.pick(v);
    h.setProfile(x);
    break;
  }
  case 2:
    h.setLevel(static_cast<uint8_t>(s.chance(1, 2) ? s.range(0, 4) : s.range(0, 255)));
    break;
  case 3: {
    static const std::vector<std::string> v = {"", "soon", "1.2.34", "123", "2024", "2024-01-02"};
    std::string x = s.pick(v);
    h.setDate(x);
    break;
  }
  case 4:
    h.setTimescale(static_cast<unsigned>(s.pick(std::vector<int>{999, 1000, 1001, 47999, 48000, 48001, 0, 96000})));
    break;
  case 5: {
    ht::Avatar a(0, 1, ht::AvatarType::Vibration);
    h.addAvatar(a);
    break;
  }
  case 6:
    if (h.getAvatarsSize() > 0) {
      auto a = h.getAvatarAt((int)s.range(0, (int)h.getAvatarsSize() - 1));
      if (s.chance(1, 3)) {
        a.setId(a.getId() + 300);
      }
      h.addAvatar(a);
    }
    break;
  case 7: {
    ht::Avatar a(700, 1, ht::AvatarType::Custom);
    a.setMesh(s.boolean() ? "" : "a");
    h.addAvatar(a);
    break;
  }
  case 8: {
    auto p = pickPerception(s, h);
    if (s.chance(1, 3)) {
      p.setId(1000);
    }
    h.addPerception(p);
    break;
  }
  case 9:
    pickPerception(s, h).setPerceptionModality(s.pick(hm::allModalities()));
    break;
  case 10:
    pickPerception(s, h).setAvatarId(static_cast<int>(s.edgy(0, 300)));
    break;
  case 11: {
    static const std::vector<std::string> v = {
        "urn:mpeg:mpegi:haptics:effectsemantic:2023", "", "mpeg", "urn:", "http://x", "urn:ab:c"};
    std::string x = s.pick(v);
    pickPerception(s, h).setEffectSemanticScheme(x);
    break;
  }
  case 12: { // many channels
    auto &p = pickPerception(s, h);
    int n = static_cast<int>(s.pick(std::vector<int>{120, 127, 129, 130, 200}));
    int id = 1 << 29;
    while ((int)p.getChannelsSize() < n) {
      ht::Channel c(id++, "", 1, 1, 0);
      p.addChannel(c);
    }
    break;
  }
  case 13: { // several bands
    auto &c = pickChannel(s, h);
    int n = static_cast<int>(s.pick(std::vector<int>{7, 8, 9, 63, 6}));
    while ((int)c.getBandsSize() < n) {
      ht::Band b(ht::BandType::Transient, 0, 100);
      c.addBand(b);
    }
    break;
  }
  case 14: {
    auto &p = pickPerception(s, h);
    ht::ReferenceDevice r(static_cast<int>(s.range(0, 3)), "r");
    if (p.getReferenceDevicesSize() > 0 && s.chance(2, 3)) {
      r.setId(p.getReferenceDeviceAt((int)s.range(0, (int)p.getReferenceDevicesSize() - 1)).getId());
    }
    p.addReferenceDevice(r);
    break;
  }
  case 15: {
    auto &p = pickPerception(s, h);
    if (p.getReferenceDevicesSize() == 0) {
      ht::ReferenceDevice r(1, "r");
      p.addReferenceDevice(r);
    }
    auto &r = p.getReferenceDeviceAt((int)s.range(0, (int)p.getReferenceDevicesSize() - 1));
    for (int k = 0; k < 2; k++) {
      float f = static_cast<float>(s.range(0, 4) * 100);
      switch (s.range(0, 2)) {
      case 0:
        r.setMinimumFrequency(f);
        break;
      case 1:
        r.setMaximumFrequency(f);
        break;
      default:
        r.setResonanceFrequency(f);
        break;
      }
    }
    break;
  }
  case 16: {
    auto &p = pickPerception(s, h);
    ht::Effect e(0, ht::EffectType::Basis);
    e.setId(static_cast<int>(s.range(0, 3)));
    if (p.getEffectLibrarySize() > 0 && s.chance(2, 3)) {
      e.setId(p.getBasisEffectAt((int)s.range(0, (int)p.getEffectLibrarySize() - 1)).getId());
    }
    p.addBasisEffect(e);
    break;
  }
  case 17: {
    auto &p = pickPerception(s, h);
    ht::Effect e(0, ht::EffectType::Composite);
    e.setId(70000);
    p.addBasisEffect(e);
    break;
  }
  case 18: {
    auto &p = pickPerception(s, h);
    ht::Channel c(static_cast<int>(s.range(0, 3)), "", 1, 1, 0);
    if (p.getChannelsSize() > 0 && s.chance(2, 3)) {
      c.setId(p.getChannelAt((int)s.range(0, (int)p.getChannelsSize() - 1)).getId());
    }
    p.addChannel(c);
    break;
  }
  case 19:
    pickChannel(s, h).setReferenceDeviceId(static_cast<int>(s.edgy(0, 300)));
    break;
  case 20:
    pickChannel(s, h).setDirection(s.boolean() ? hm::genVector(s) : cf::unitVector(s));
    break;
  case 21: {
    auto &c = pickChannel(s, h);
    c.setActuatorResolution(s.chance(1, 3) ? hm::genVector(s)
                                           : ht::Vector((int8_t)s.range(0, 3), (int8_t)s.range(0, 3),
                                                        (int8_t)s.range(0, 3)));
    break;
  }
  case 22: {
    auto &c = pickChannel(s, h);
    std::vector<ht::Vector> t;
    for (int i = (int)s.range(0, 2); i >= 0; i--) {
      t.push_back(s.chance(1, 4) ? hm::genVector(s)
                                 : ht::Vector((int8_t)s.range(0, 3), (int8_t)s.range(0, 3),
                                              (int8_t)s.range(0, 3)));
    }
    c.setActuatorTarget(t);
    break;
  }
  case 23:
    pickBand(s, h).setCurveType(static_cast<ht::CurveType>(s.range(0, 5)));
    break;
  case 24: {
    auto &c = pickChannel(s, h);
    ht::Band b(ht::BandType::WaveletWave, 0, 1000);
    b.setBlockLength(static_cast<int>(s.chance(1, 2) ? 1 << s.range(0, 20) : s.range(0, 40)));
    c.addBand(b);
    break;
  }
  case 25: {
    auto &b = pickBand(s, h);
    if (s.boolean()) {
      b.setLowerFrequencyLimit(b.getUpperFrequencyLimit() + static_cast<int>(s.range(-1, 2)));
    } else {
      b.setUpperFrequencyLimit(b.getLowerFrequencyLimit() + static_cast<int>(s.range(-2, 1)));
    }
    break;
  }
  case 26: {
    auto &b = pickBand(s, h);
    ht::Effect e(1, ht::EffectType::Composite);
    b.addEffect(e);
    break;
  }
  case 27: {
    auto &e = pickEffect(s, h);
    ht::Keyframe k(0, 0.5F, 100);
    e.addKeyframe(k);
    break;
  }
  case 28: {
    auto &e = pickEffect(s, h);
    e.setEffectType(ht::EffectType::Reference);
    e.setId(static_cast<int>(s.edgy(0, 65535)));
    break;
  }
  default: {
    static const std::vector<std::string> v = {"UX_Click", "", "Click", "nothing", "ux_click", "UX_Click "};
    std::string x = s.chance(1, 3) ? s.pick(hm::semanticKeywords()) : s.pick(v);
    pickEffect(s, h).setSemantic(x);
    break;
  }
  }
}

} // namespace cf
