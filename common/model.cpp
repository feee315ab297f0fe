#include "model.h"
#include <Types/include/BodyPartTarget.h>
#include <Types/include/EffectSemantic.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>

namespace hm {
using pbt::Source;

auto Val::show() const -> std::string {
  std::ostringstream o;
  o.precision(10);
  if (kind == None) {
    return "-";
  }
  if (kind == Num) {
    o << n;
    return o.str();
  }
  o << '"';
  for (unsigned char c : s.size() > 60 ? s.substr(0, 60) : s) {
    if (c < 32 || c >= 127 || c == '\\') {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      o << b;
    } else {
      o << c;
    }
  }
  o << '"';
  if (s.size() > 60) {
    o << "(" << s.size() << " bytes)";
  }
  return o.str();
}

namespace {
template <class T> auto opt(const std::optional<T> &o) -> Val {
  return o.has_value() ? Val::num(static_cast<double>(*o)) : Val::none();
}
auto optE(const std::optional<ht::BaseSignal> &o) -> Val {
  return o.has_value() ? Val::num(static_cast<int>(*o)) : Val::none();
}
auto optS(const std::optional<std::string> &o) -> Val {
  return o.has_value() ? Val::str(*o) : Val::none();
}
auto vec(const ht::Vector &v) -> Val {
  return Val::str(pbt::str((int)v.X, ",", (int)v.Y, ",", (int)v.Z));
}
} // namespace

auto flattenEffect(ht::Effect &e, const std::string &p, Flat &o) -> void {
  o.emplace_back(p + ".id", Val::num(e.getId()));
  o.emplace_back(p + ".pos", Val::num(e.getPosition()));
  o.emplace_back(p + ".type", Val::num(static_cast<int>(e.getEffectType())));
  o.emplace_back(p + ".phase", opt(e.getPhase()));
  o.emplace_back(p + ".base", optE(e.getBaseSignal()));
  o.emplace_back(p + ".semantic", optS(e.getSemantic()));
  o.emplace_back(p + ".nk", Val::num(static_cast<double>(e.getKeyframesSize())));
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto k = e.getKeyframeAt(i);
    std::string q = p + ".k" + std::to_string(i);
    o.emplace_back(q + ".kpos", opt(k.getRelativePosition()));
    o.emplace_back(q + ".amp", opt(k.getAmplitudeModulation()));
    o.emplace_back(q + ".freq", opt(k.getFrequencyModulation()));
  }
  auto &w = e.getWaveletBitstream();
  std::string hex;
  for (auto b : w) {
    char t[4];
    snprintf(t, sizeof t, "%02x", b);
    hex += t;
  }
  o.emplace_back(p + ".wbits", Val::str(hex));
  o.emplace_back(p + ".nwsamp", Val::num(static_cast<double>(e.getWaveletSamples().size())));
  o.emplace_back(p + ".nt", Val::num(static_cast<double>(e.getTimelineSize())));
  for (int i = 0; i < static_cast<int>(e.getTimelineSize()); i++) {
    flattenEffect(e.getTimelineEffectAt(i), p + ".t" + std::to_string(i), o);
  }
}

auto flattenBand(ht::Band &b, const std::string &p, Flat &o) -> void {
  o.emplace_back(p + ".btype", Val::num(static_cast<int>(b.getBandType())));
  o.emplace_back(p + ".prio", opt(b.getPriority()));
  o.emplace_back(p + ".curve", b.getCurveType().has_value()
                                   ? Val::num(static_cast<int>(*b.getCurveType()))
                                   : Val::none());
  o.emplace_back(p + ".block", opt(b.getBlockLength()));
  o.emplace_back(p + ".low", Val::num(b.getLowerFrequencyLimit()));
  o.emplace_back(p + ".up", Val::num(b.getUpperFrequencyLimit()));
  o.emplace_back(p + ".ne", Val::num(static_cast<double>(b.getEffectsSize())));
  for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
    flattenEffect(b.getEffectAt(i), p + ".e" + std::to_string(i), o);
  }
}

auto flattenChannel(ht::Channel &c, const std::string &p, Flat &o, bool bands) -> void {
  o.emplace_back(p + ".cid", Val::num(c.getId()));
  o.emplace_back(p + ".desc", Val::str(c.getDescription()));
  o.emplace_back(p + ".prio", opt(c.getPriority()));
  o.emplace_back(p + ".gain", Val::num(c.getGain()));
  o.emplace_back(p + ".mix", Val::num(c.getMixingWeight()));
  o.emplace_back(p + ".bodymask", Val::num(c.getBodyPartMask()));
  o.emplace_back(p + ".refdev", opt(c.getReferenceDeviceId()));
  o.emplace_back(p + ".fs", opt(c.getFrequencySampling()));
  o.emplace_back(p + ".samples", opt(c.getSampleCount()));
  auto d = c.getDirection();
  o.emplace_back(p + ".dir", d.has_value() ? vec(*d) : Val::none());
  auto r = c.getActuatorResolution();
  o.emplace_back(p + ".res", r.has_value() ? vec(*r) : Val::none());
  auto bt = c.getBodyPartTarget();
  std::string s;
  if (bt.has_value()) {
    for (auto t : *bt) {
      s += std::to_string(static_cast<int>(t)) + " ";
    }
  }
  o.emplace_back(p + ".bodytarget", bt.has_value() ? Val::str(s) : Val::none());
  auto at = c.getActuatorTarget();
  s.clear();
  if (at.has_value()) {
    for (auto &t : *at) {
      s += vec(t).s + " ";
    }
  }
  o.emplace_back(p + ".acttarget", at.has_value() ? Val::str(s) : Val::none());
  o.emplace_back(p + ".nv", Val::num(static_cast<double>(c.getVerticesSize())));
  for (int i = 0; i < static_cast<int>(c.getVerticesSize()); i++) {
    o.emplace_back(p + ".v" + std::to_string(i) + ".vertex", Val::num(c.getVertexAt(i)));
  }
  o.emplace_back(p + ".nb", Val::num(static_cast<double>(c.getBandsSize())));
  if (bands) {
    for (int i = 0; i < static_cast<int>(c.getBandsSize()); i++) {
      flattenBand(c.getBandAt(i), p + ".b" + std::to_string(i), o);
    }
  }
}

auto flattenPerception(ht::Perception &q, const std::string &p, Flat &o) -> void {
  o.emplace_back(p + ".pid", Val::num(q.getId()));
  o.emplace_back(p + ".avatar", Val::num(q.getAvatarId()));
  o.emplace_back(p + ".desc", Val::str(q.getDescription()));
  o.emplace_back(p + ".prio", opt(q.getPriority()));
  o.emplace_back(p + ".scheme", optS(q.getEffectSemanticScheme()));
  o.emplace_back(p + ".modality", Val::num(static_cast<int>(q.getPerceptionModality())));
  o.emplace_back(p + ".uexp", opt(q.getUnitExponent()));
  o.emplace_back(p + ".puexp", opt(q.getPerceptionUnitExponent()));
  o.emplace_back(p + ".nr", Val::num(static_cast<double>(q.getReferenceDevicesSize())));
  for (int i = 0; i < static_cast<int>(q.getReferenceDevicesSize()); i++) {
    auto r = q.getReferenceDeviceAt(i);
    std::string t = p + ".r" + std::to_string(i);
    o.emplace_back(t + ".rid", Val::num(r.getId()));
    o.emplace_back(t + ".name", Val::str(r.getName()));
    o.emplace_back(t + ".rbodymask", opt(r.getBodyPartMask()));
    o.emplace_back(t + ".maxfreq", opt(r.getMaximumFrequency()));
    o.emplace_back(t + ".minfreq", opt(r.getMinimumFrequency()));
    o.emplace_back(t + ".resfreq", opt(r.getResonanceFrequency()));
    o.emplace_back(t + ".maxamp", opt(r.getMaximumAmplitude()));
    o.emplace_back(t + ".impedance", opt(r.getImpedance()));
    o.emplace_back(t + ".maxvolt", opt(r.getMaximumVoltage()));
    o.emplace_back(t + ".maxcurr", opt(r.getMaximumCurrent()));
    o.emplace_back(t + ".maxdisp", opt(r.getMaximumDisplacement()));
    o.emplace_back(t + ".weight", opt(r.getWeight()));
    o.emplace_back(t + ".size", opt(r.getSize()));
    o.emplace_back(t + ".custom", opt(r.getCustom()));
    o.emplace_back(t + ".rtype", r.getType().has_value() ? Val::num(static_cast<int>(*r.getType()))
                                                         : Val::none());
  }
  o.emplace_back(p + ".nl", Val::num(static_cast<double>(q.getEffectLibrarySize())));
  for (int i = 0; i < static_cast<int>(q.getEffectLibrarySize()); i++) {
    flattenEffect(q.getBasisEffectAt(i), p + ".l" + std::to_string(i), o);
  }
  o.emplace_back(p + ".nc", Val::num(static_cast<double>(q.getChannelsSize())));
  for (int i = 0; i < static_cast<int>(q.getChannelsSize()); i++) {
    flattenChannel(q.getChannelAt(i), p + ".c" + std::to_string(i), o);
  }
}

auto flatten(ht::Haptics &h) -> Flat {
  Flat o;
  o.emplace_back("version", Val::str(h.getVersion()));
  o.emplace_back("profile", Val::str(h.getProfile()));
  o.emplace_back("level", Val::num(h.getLevel()));
  o.emplace_back("date", Val::str(h.getDate()));
  o.emplace_back("description", Val::str(h.getDescription()));
  o.emplace_back("timescale", opt(h.getTimescale()));
  o.emplace_back("na", Val::num(static_cast<double>(h.getAvatarsSize())));
  for (int i = 0; i < static_cast<int>(h.getAvatarsSize()); i++) {
    auto a = h.getAvatarAt(i);
    std::string t = "a" + std::to_string(i);
    o.emplace_back(t + ".aid", Val::num(a.getId()));
    o.emplace_back(t + ".lod", Val::num(a.getLod()));
    o.emplace_back(t + ".atype", Val::num(static_cast<int>(a.getType())));
    o.emplace_back(t + ".mesh", optS(a.getMesh()));
  }
  o.emplace_back("ns", Val::num(static_cast<double>(h.getSyncsSize())));
  for (int i = 0; i < static_cast<int>(h.getSyncsSize()); i++) {
    auto a = h.getSyncsAt(i);
    std::string t = "s" + std::to_string(i);
    o.emplace_back(t + ".ts", Val::num(a.getTimestamp()));
    o.emplace_back(t + ".tscale", opt(a.getTimescale()));
  }
  o.emplace_back("np", Val::num(static_cast<double>(h.getPerceptionsSize())));
  for (int i = 0; i < static_cast<int>(h.getPerceptionsSize()); i++) {
    flattenPerception(h.getPerceptionAt(i), "p" + std::to_string(i), o);
  }
  return o;
}

auto dump(const Flat &f) -> std::string {
  std::ostringstream o;
  std::string prefix;
  for (const auto &kv : f) {
    if (kv.second.kind == Val::None || (kv.second.kind == Val::Str && kv.second.s.empty() &&
                                        leaf(kv.first) == "wbits")) {
      continue;
    }
    auto dot = kv.first.rfind('.');
    std::string pre = dot == std::string::npos ? "" : kv.first.substr(0, dot);
    if (pre != prefix) {
      o << "\n" << pre << ":";
      prefix = pre;
    }
    o << " " << leaf(kv.first) << "=" << kv.second.show();
  }
  return o.str();
}
auto dump(ht::Haptics &h) -> std::string { return dump(flatten(h)); }

auto leaf(const std::string &path) -> std::string {
  auto d = path.rfind('.');
  return d == std::string::npos ? path : path.substr(d + 1);
}

auto diff(const Flat &expected, const Flat &actual,
          const std::function<double(const std::string &, const Val &)> &tolerance,
          const std::function<bool(const std::string &)> &skip) -> std::string {
  std::ostringstream o;
  o.precision(10);
  int n = 0;
  size_t i = 0;
  size_t j = 0;
  bool same = expected.size() == actual.size();
  for (size_t k = 0; same && k < expected.size(); k++) {
    same = expected[k].first == actual[k].first;
  }
  if (same) {
    bool equal = true;
    for (size_t k = 0; equal && k < expected.size(); k++) {
      const Val &e = expected[k].second;
      const Val &a = actual[k].second;
      if (e.kind == a.kind && (e.kind == Val::Str ? e.s == a.s : e.n == a.n)) {
        continue;
      }
      if (skip && skip(expected[k].first)) {
        continue;
      }
      equal = e.kind == Val::Num && a.kind == Val::Num && tolerance &&
              std::fabs(e.n - a.n) <= tolerance(expected[k].first, e);
    }
    if (equal) {
      return "";
    }
  }
  std::map<std::string, const Val *> am;
  for (const auto &kv : actual) {
    am[kv.first] = &kv.second;
  }
  std::map<std::string, bool> seen;
  for (i = 0; i < expected.size() && n < 5; i++) {
    const auto &kv = expected[i];
    seen[kv.first] = true;
    if (skip && skip(kv.first)) {
      continue;
    }
    auto it = am.find(kv.first);
    if (it == am.end()) {
      o << "missing " << kv.first << " (expected " << kv.second.show() << "); ";
      n++;
      continue;
    }
    const Val &e = kv.second;
    const Val &a = *it->second;
    bool ok = e.kind == a.kind;
    if (ok && e.kind == Val::Str) {
      ok = e.s == a.s;
    } else if (ok && e.kind == Val::Num) {
      double tol = tolerance ? tolerance(kv.first, e) : 0;
      ok = e.n == a.n || std::fabs(e.n - a.n) <= tol;
    }
    if (!ok) {
      o << kv.first << ": expected " << e.show() << ", got " << a.show() << "; ";
      n++;
    }
  }
  for (j = 0; j < actual.size() && n < 5; j++) {
    if (seen.find(actual[j].first) == seen.end() && !(skip && skip(actual[j].first))) {
      o << "unexpected " << actual[j].first << " = " << actual[j].second.show() << "; ";
      n++;
    }
  }
  return o.str();
}
auto diffExact(const Flat &e, const Flat &a) -> std::string { return diff(e, a, nullptr, nullptr); }

// ------------------------------------------------------------------------------------------
auto allModalities() -> std::vector<ht::PerceptionModality> {
  std::vector<ht::PerceptionModality> v;
  for (int i = 0; i <= 13; i++) {
    v.push_back(static_cast<ht::PerceptionModality>(i));
  }
  return v;
}
auto isSpatial(ht::PerceptionModality m) -> bool {
  return m == ht::PerceptionModality::VibrotactileTexture ||
         m == ht::PerceptionModality::Stiffness || m == ht::PerceptionModality::Friction;
}
auto semanticKeywords() -> const std::vector<std::string> & {
  static const std::vector<std::string> v = [] {
    std::vector<std::string> r;
    for (const auto &kv : ht::stringToEffectSemantic) {
      r.push_back(kv.first);
    }
    return r;
  }();
  return v;
}
auto bodyPartTargets() -> const std::vector<ht::BodyPartTarget> & {
  static const std::vector<ht::BodyPartTarget> v = [] {
    std::vector<ht::BodyPartTarget> r;
    for (const auto &kv : ht::stringToBodyPartTarget) {
      r.push_back(kv.second);
    }
    return r;
  }();
  return v;
}

auto genString(Source &s, int maxLen, bool anyByte) -> std::string {
  int n = 0;
  switch (s.weighted({4, 5, 2, 1})) {
  case 0:
    n = 0;
    break;
  case 1:
    n = static_cast<int>(s.range(1, std::min(maxLen, 12)));
    break;
  case 2:
    n = static_cast<int>(s.range(0, maxLen));
    break;
  default:
    n = maxLen - static_cast<int>(s.range(0, std::min(maxLen, 2)));
    break;
  }
  std::string r;
  if (n > 24) { // long: repeat a drawn seed to keep cases small
    uint64_t k = s.draw(1U << 20);
    while (static_cast<int>(r.size()) < n) {
      k = pbt::mix64(k);
      r += anyByte ? static_cast<char>(k & 0xff) : static_cast<char>(32 + k % 95);
    }
    return r;
  }
  for (int i = 0; i < n; i++) {
    if (anyByte) {
      r += static_cast<char>(s.chance(1, 3) ? s.range(0, 255) : 'a' + s.range(0, 25));
    } else {
      r += static_cast<char>(s.chance(1, 3) ? 32 + s.range(0, 94) : 'a' + s.range(0, 25));
    }
  }
  return r;
}

auto genVector(Source &s) -> ht::Vector {
  auto c = [&] { return static_cast<int8_t>(s.chance(1, 2) ? s.range(-128, 127) : s.range(0, 3)); };
  auto x = c();
  auto y = c();
  auto z = c();
  return ht::Vector(x, y, z);
}

auto genFloat(Source &s, double lo, double hi, bool outOfRange) -> float {
  switch (s.weighted({3, 5, 1, 1, 1})) {
  case 0: { // "round" values
    double v = lo + (hi - lo) * static_cast<double>(s.range(0, 20)) / 20.0;
    return static_cast<float>(v);
  }
  case 1:
    return static_cast<float>(s.real(lo, hi));
  case 2:
    return static_cast<float>(s.boolean() ? hi : lo);
  case 3: // small magnitude
    return static_cast<float>(
        std::clamp((s.boolean() ? 1.0 : -1.0) * (hi - lo) / std::pow(2.0, s.range(1, 30)), lo, hi));
  default:
    if (outOfRange) {
      return static_cast<float>(s.boolean() ? hi + (hi - lo) * s.unit() : lo - (hi - lo) * s.unit());
    }
    return static_cast<float>(s.real(lo, hi));
  }
}

auto genAvatar(Source &s, const Dom &d, int id) -> ht::Avatar {
  ht::Avatar a(id, static_cast<int>(s.edgy(0, 255)), static_cast<ht::AvatarType>(s.range(0, 3)));
  if (a.getType() == ht::AvatarType::Custom) {
    auto mesh = genString(s, d.maxString, d.anyByte);
    if (!mesh.empty()) { // a mesh without a URI is none
      a.setMesh(mesh);
    }
  }
  return a;
}

auto genRefDevice(Source &s, const Dom &d, int id) -> ht::ReferenceDevice {
  ht::ReferenceDevice r(id, genString(s, d.maxString, d.anyByte));
  auto maybe = [&](auto setter) {
    if (s.chance(2, 5)) {
      setter();
    }
  };
  const bool oor = d.outOfRangeFloats;
  maybe([&] { r.setBodyPartMask(static_cast<uint32_t>(s.edgy(0, 0xffffffffLL))); });
  maybe([&] { r.setMaximumFrequency(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setMinimumFrequency(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setResonanceFrequency(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setMaximumAmplitude(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setImpedance(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setMaximumVoltage(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setMaximumCurrent(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setMaximumDisplacement(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setWeight(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setSize(genFloat(s, 0, 10000, oor)); });
  maybe([&] { r.setCustom(genFloat(s, -10000, 10000, oor)); });
  maybe([&] { r.setType(static_cast<ht::ActuatorType>(s.range(0, 4))); });
  return r;
}

auto genKeyframe(Source &s, const Dom &d, ht::BandType t, int position) -> ht::Keyframe {
  std::optional<float> amp;
  std::optional<int> freq;
  const bool needAmp = t != ht::BandType::VectorialWave || !d.kfMissing;
  const bool needFreq = t == ht::BandType::Transient || (t == ht::BandType::VectorialWave && !d.kfMissing);
  if (needAmp || !s.chance(1, 4)) {
    amp = genFloat(s, -1, 1, d.outOfRangeFloats);
  }
  if (needFreq || (t == ht::BandType::VectorialWave && !s.chance(1, 4))) {
    freq = static_cast<int>(s.edgy(0, d.maxFrequency));
  }
  std::optional<int> at = position;
  if (d.kfAbsent && t != ht::BandType::VectorialWave && s.chance(1, 8)) {
    (s.boolean() && freq.has_value() ? void(freq.reset()) : amp.reset());
  }
  if (d.kfAbsent && position == 0 && s.chance(1, 8)) {
    at.reset();
  }
  return ht::Keyframe(at, amp, freq);
}

auto genPositions(Source &s, const Dom &d, int n) -> std::vector<int> {
  std::vector<int> v;
  for (int i = 0; i < n; i++) {
    v.push_back(static_cast<int>(s.chance(1, 6) ? s.edgy(0, d.maxKeyframePosition)
                                                : s.range(0, std::min(d.maxKeyframePosition, 600))));
  }
  if (d.sortedKeyframes) {
    std::sort(v.begin(), v.end());
  }
  return v;
}

auto genWaveletStream(Source &s) -> std::vector<unsigned char> {
  std::vector<unsigned char> w;
  int n = static_cast<int>(s.chance(1, 5) ? s.range(0, 200) : s.range(0, 10));
  if (n > 12) {
    uint64_t k = s.draw(1U << 20);
    for (int i = 0; i < n; i++) {
      k = pbt::mix64(k);
      w.push_back(static_cast<unsigned char>(k));
    }
  } else {
    for (int i = 0; i < n; i++) {
      w.push_back(static_cast<unsigned char>(s.chance(1, 4) ? 0 : s.range(0, 255)));
    }
  }
  return w;
}

auto genBasisEffect(Source &s, const Dom &d, ht::BandType t, int position) -> ht::Effect {
  ht::Effect e(position, ht::EffectType::Basis);
  if (t == ht::BandType::WaveletWave) {
    e.setWaveletBitstream(genWaveletStream(s));
  } else {
    if (t == ht::BandType::VectorialWave) {
      if (s.chance(1, 2)) {
        e.setPhase(genFloat(s, 0, 6.28318F, d.outOfRangeFloats));
      }
      if (s.chance(2, 3)) {
        e.setBaseSignal(static_cast<ht::BaseSignal>(s.range(0, 4)));
      }
    }
    int nk = static_cast<int>(s.range(d.emptyKeyframes ? 0 : 1, d.maxKeyframes));
    for (int p : genPositions(s, d, nk)) {
      auto k = genKeyframe(s, d, t, p);
      e.addKeyframe(k);
    }
  }
  return e;
}

namespace {
auto genPosition(Source &s, const Dom &d) -> int {
  return static_cast<int>(s.chance(1, 6) ? s.edgy(0, d.maxPosition)
                                         : s.range(0, std::min(d.maxPosition, 3000)));
}
auto maybeSemantic(Source &s, const Dom &d, ht::Effect &e) -> void {
  if (d.effectSemantic && s.chance(1, 4)) {
    auto k = s.pick(semanticKeywords());
    e.setSemantic(k);
  }
}
auto genTimeline(Source &s, const Dom &d, ht::BandType t, const std::vector<int> &lib, int depth)
    -> ht::Effect {
  ht::Effect e(genPosition(s, d), ht::EffectType::Composite);
  int n = static_cast<int>(s.range(0, 3));
  for (int i = 0; i < n; i++) {
    ht::Effect c;
    size_t k = s.weighted({3, lib.empty() ? 0U : 2U, depth > 0 ? 1U : 0U});
    if (k == 1) {
      c = ht::Effect(genPosition(s, d), ht::EffectType::Reference);
      c.setId(s.pick(lib));
    } else if (k == 2) {
      c = genTimeline(s, d, t, lib, depth - 1);
    } else {
      c = genBasisEffect(s, d, t, genPosition(s, d));
    }
    e.addTimelineEffect(c);
  }
  return e;
}
} // namespace

auto genBand(Source &s, const Dom &d, unsigned timescale, const std::vector<int> &lib) -> ht::Band {
  ht::Band b;
  auto t = static_cast<ht::BandType>(s.range(0, d.wavelets ? 3 : 2));
  b.setBandType(t);
  b.setLowerFrequencyLimit(static_cast<int>(s.edgy(0, 2000)));
  b.setUpperFrequencyLimit(
      static_cast<int>(b.getLowerFrequencyLimit() + s.edgy(0, 65535 - b.getLowerFrequencyLimit())));
  if (d.priorities && s.chance(1, 3)) {
    b.setPriority(static_cast<int>(s.edgy(1, 255)));
  }
  if (t == ht::BandType::Curve) {
    b.setCurveType(static_cast<ht::CurveType>(s.range(0, 5)));
  }
  int ne = static_cast<int>(s.range(0, d.maxEffects));
  if (t == ht::BandType::WaveletWave) {
    // block length in ticks, a power of two number of samples at rate 'upper'
    static const std::vector<int> rates = {8000, 1000, 16000, 2000, 500};
    int up = s.pick(rates);
    const bool inexact = d.inexactBlocks && s.chance(1, 3);
    if (inexact) {
      static const std::vector<int> odd = {44100, 48000, 22050, 3000, 7};
      up = s.pick(odd);
    }
    int samples = 1 << s.range(4, 10);
    long ticks = static_cast<long>(samples) * timescale / up;
    while (inexact && ticks < 8 && samples < 2048) {
      samples *= 2;
      ticks = static_cast<long>(samples) * timescale / up;
    }
    while (!(inexact && ticks >= 8) && (ticks < 1 || ticks * up != static_cast<long>(samples) * timescale)) {
      samples *= 2;
      ticks = static_cast<long>(samples) * timescale / up;
      if (samples > 1 << 16) {
        up = 1000;
        samples = 64;
        ticks = static_cast<long>(samples) * timescale / up;
        break;
      }
    }
    b.setUpperFrequencyLimit(up);
    b.setLowerFrequencyLimit(static_cast<int>(s.range(0, std::min(up, 500))));
    b.setBlockLength(static_cast<int>(ticks));
    for (int i = 0; i < ne; i++) {
      auto e = genBasisEffect(s, d, t, static_cast<int>(i * ticks));
      maybeSemantic(s, d, e);
      b.addEffect(e);
    }
    return b;
  }
  for (int i = 0; i < ne; i++) {
    ht::Effect e;
    size_t k = s.weighted({6, d.references && !lib.empty() ? 3U : 0U, d.composites ? 2U : 0U});
    if (k == 1) {
      e = ht::Effect(genPosition(s, d), ht::EffectType::Reference);
      e.setId(s.pick(lib));
    } else if (k == 2) {
      e = genTimeline(s, d, t, lib, 2);
    } else {
      e = genBasisEffect(s, d, t, genPosition(s, d));
    }
    maybeSemantic(s, d, e);
    b.addEffect(e);
  }
  return b;
}

auto genChannelMeta(Source &s, const Dom &d, int id, const std::vector<int> &refs) -> ht::Channel {
  float gain = s.chance(1, 3) ? 1.0F : genFloat(s, -10000, 10000, d.outOfRangeFloats);
  float mix = s.chance(1, 3) ? 1.0F : genFloat(s, 0, 10000, d.outOfRangeFloats);
  ht::Channel c(id, genString(s, d.maxString, d.anyByte), gain, mix, 0);
  if (d.priorities && s.chance(1, 3)) {
    c.setPriority(static_cast<int>(s.edgy(1, 255)));
  }
  if (!refs.empty() && s.chance(1, 2)) {
    c.setReferenceDeviceId(s.pick(refs));
  }
  if (s.chance(1, 3)) {
    c.setFrequencySampling(static_cast<uint32_t>(s.edgy(1, 0xffffffffLL)));
    c.setSampleCount(static_cast<uint32_t>(s.edgy(0, 0xffffffffLL)));
  }
  if (s.chance(1, 3)) {
    c.setDirection(genVector(s));
  }
  if (s.chance(1, 3)) {
    c.setActuatorResolution(genVector(s));
    std::vector<ht::BodyPartTarget> bt;
    for (int i = static_cast<int>(s.range(0, 3)); i > 0; i--) {
      bt.push_back(s.pick(bodyPartTargets()));
    }
    c.setBodyPartTarget(bt);
    std::vector<ht::Vector> at;
    for (int i = static_cast<int>(s.range(0, 3)); i > 0; i--) {
      at.push_back(genVector(s));
    }
    c.setActuatorTarget(at);
  } else {
    c.setBodyPartMask(static_cast<uint32_t>(s.edgy(0, 0xffffffffLL)));
  }
  if (s.chance(1, 3)) {
    for (int i = static_cast<int>(s.range(1, 4)); i > 0; i--) {
      int v = static_cast<int>(s.edgy(0, 0x7fffffffLL));
      c.addVertex(v);
    }
  }
  return c;
}

auto genLibraryEffect(Source &s, const Dom &d, int id, int depth) -> ht::Effect {
  ht::Effect e;
  e.setId(id);
  e.setPosition(genPosition(s, d));
  if (depth > 0 && d.libraryTimelines && s.chance(1, 3)) {
    e.setEffectType(ht::EffectType::Composite);
    int n = static_cast<int>(s.range(1, 3));
    for (int i = 0; i < n; i++) {
      auto c = genLibraryEffect(s, d, static_cast<int>(s.edgy(0, 65535)), depth - 1);
      e.addTimelineEffect(c);
    }
    return e;
  }
  e.setEffectType(ht::EffectType::Basis);
  if (s.chance(1, 2)) {
    e.setPhase(genFloat(s, 0, 6.28318F, d.outOfRangeFloats));
  }
  if (s.chance(1, 2)) {
    e.setBaseSignal(static_cast<ht::BaseSignal>(s.range(0, 4)));
  }
  int nk = static_cast<int>(s.range(d.emptyKeyframes ? 0 : 1, d.maxKeyframes));
  for (int p : genPositions(s, d, nk)) {
    std::optional<float> amp;
    std::optional<int> freq;
    std::optional<int> pos = p;
    if (d.kfAbsent && s.chance(1, 10)) {
      pos.reset();
    }
    if (!s.chance(1, 5)) {
      amp = genFloat(s, -1, 1, d.outOfRangeFloats);
    }
    if (!s.chance(1, 4)) {
      freq = static_cast<int>(s.edgy(0, d.maxFrequency));
    }
    ht::Keyframe k(pos, amp, freq);
    e.addKeyframe(k);
  }
  return e;
}

auto genHaptics(Source &s, const Dom &d) -> ht::Haptics {
  static const std::vector<std::string> versions = {"2023", "2024", "2023-1", "2025-9", "RM0"};
  ht::Haptics h(d.anyByte && s.chance(1, 4) ? genString(s, d.maxString, true) : s.pick(versions),
                d.anyByte && s.chance(1, 4) ? genString(s, d.maxString, true)
                                            : std::string("2023-04-05T12:30:00"),
                genString(s, d.maxString, d.anyByte));
  std::string profile = d.anyByte && s.chance(1, 4) ? genString(s, d.maxString, true)
                        : s.chance(1, 4)            ? std::string("Simple Parametric")
                                                    : std::string("Main");
  h.setProfile(profile);
  h.setLevel(static_cast<uint8_t>(s.chance(1, 4) ? s.range(0, 255) : s.range(1, 2)));
  if (d.optionalTimescale && s.chance(1, 4)) {
    h.setTimescale(std::nullopt);
  } else {
    h.setTimescale(s.pick(d.timescales));
  }
  const unsigned timescale = h.getTimescaleOrDefault();
  auto distinct = [&](int n, int lo, int hi) {
    std::vector<int> ids;
    while (static_cast<int>(ids.size()) < n) {
      int v = static_cast<int>(s.edgy(lo, hi));
      while (std::find(ids.begin(), ids.end(), v) != ids.end()) {
        v = v >= hi ? lo : v + 1;
      }
      ids.push_back(v);
    }
    return ids;
  };
  for (int id : distinct(static_cast<int>(s.range(0, d.maxAvatars)), 1, 255)) {
    auto a = genAvatar(s, d, id);
    h.addAvatar(a);
  }
  if (d.syncs) {
    for (int i = static_cast<int>(s.range(0, 2)); i > 0; i--) {
      ht::Sync y(static_cast<int>(s.edgy(0, 100000)), static_cast<unsigned>(s.edgy(1, 48000)));
      h.addSync(y);
    }
  }
  auto modalities = d.modalities.empty() ? allModalities() : d.modalities;
  int nextGlobalChannel = 0;
  auto pids = distinct(static_cast<int>(s.range(0, d.maxPerceptions)), 0, 255);
  for (int pid : pids) {
    int avatar = 0;
    if (h.getAvatarsSize() > 0 && s.chance(1, 2)) {
      avatar = h.getAvatarAt(static_cast<int>(s.range(0, (int64_t)h.getAvatarsSize() - 1))).getId();
    }
    auto m = s.pick(modalities);
    if (!d.spatial && isSpatial(m)) {
      m = ht::PerceptionModality::Vibrotactile;
    }
    ht::Perception p(pid, avatar, genString(s, d.maxString, d.anyByte), m);
    if (d.priorities && s.chance(1, 3)) {
      p.setPriority(static_cast<int>(s.edgy(1, 255)));
    }
    if (d.semanticScheme && s.chance(1, 4)) {
      std::string sc = genString(s, std::min(d.maxString, 255), d.anyByte);
      p.setEffectSemanticScheme(sc);
    }
    if (s.chance(1, 2)) {
      p.setUnitExponent(static_cast<int8_t>(s.range(-128, 127)));
    }
    if (s.chance(1, 2)) {
      p.setPerceptionUnitExponent(static_cast<int8_t>(s.range(-128, 127)));
    }
    auto rids = distinct(static_cast<int>(s.range(0, d.maxRefDevices)), 0, 254);
    for (int id : rids) {
      auto r = genRefDevice(s, d, id);
      p.addReferenceDevice(r);
    }
    auto lids = distinct(static_cast<int>(s.range(0, d.maxLibrary)), 0, 65535);
    for (int id : lids) {
      auto e = genLibraryEffect(s, d, id, 2);
      if (d.effectSemantic && s.chance(1, 4)) {
        auto k = s.pick(semanticKeywords());
        e.setSemantic(k);
      }
      p.addBasisEffect(e);
    }
    auto cids = distinct(static_cast<int>(s.range(0, d.maxChannels)), 0, d.maxChannelId);
    for (int id : cids) {
      if (d.uniqueChannelIdsGlobally) {
        id = nextGlobalChannel++;
      }
      auto c = genChannelMeta(s, d, id, rids);
      for (int i = static_cast<int>(s.range(0, d.maxBands)); i > 0; i--) {
        auto b = genBand(s, d, timescale, lids);
        c.addBand(b);
      }
      p.addChannel(c);
    }
    h.addPerception(p);
  }
  return h;
}

auto countEffects(ht::Haptics &h) -> int {
  int n = 0;
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &q = h.getPerceptionAt(p);
    for (int c = 0; c < static_cast<int>(q.getChannelsSize()); c++) {
      auto &ch = q.getChannelAt(c);
      for (int b = 0; b < static_cast<int>(ch.getBandsSize()); b++) {
        n += static_cast<int>(ch.getBandAt(b).getEffectsSize());
      }
    }
  }
  return n;
}

auto labels(ht::Haptics &h, pbt::Case &c) -> void {
  c.label(h.getPerceptionsSize() > 1, "several perceptions");
  c.label(h.getAvatarsSize() > 0, "avatars");
  c.label(h.getSyncsSize() > 0, "syncs");
  c.label(h.getTimescaleOrDefault() != 1000, "timescale not 1000");
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &q = h.getPerceptionAt(p);
    c.label(q.getEffectLibrarySize() > 0, "library");
    c.label(q.getReferenceDevicesSize() > 0, "reference devices");
    c.label(isSpatial(q.getPerceptionModality()), "spatial modality");
    for (int i = 0; i < static_cast<int>(q.getChannelsSize()); i++) {
      auto &ch = q.getChannelAt(i);
      c.label(ch.getBandsSize() > 1, "several bands in a channel");
      for (int b = 0; b < static_cast<int>(ch.getBandsSize()); b++) {
        auto &bd = ch.getBandAt(b);
        if (bd.getEffectsSize() > 0) {
          static const char *names[] = {"transient band", "curve band", "vectorial band",
                                        "wavelet band"};
          c.label(names[static_cast<int>(bd.getBandType()) & 3]);
        }
        for (int e = 0; e < static_cast<int>(bd.getEffectsSize()); e++) {
          auto t = bd.getEffectAt(e).getEffectType();
          c.label(t == ht::EffectType::Reference, "reference effect");
          c.label(t == ht::EffectType::Composite, "composite effect");
          c.label(bd.getEffectAt(e).getSemantic().has_value(), "effect semantic");
        }
      }
    }
  }
}

auto readBytes(const std::string &path) -> std::string {
  std::ifstream f(path, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
auto writeBytes(const std::string &path, const std::string &bytes) -> void {
  std::ofstream f(path, std::ios::binary);
  f.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
}
} // namespace hm
