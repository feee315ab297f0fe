// Flattening/comparison of experiences, and generators for them.
#pragma once
#include "pbt.h"
#include <Types/include/Haptics.h>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace hm {
namespace ht = haptics::types;

struct Val {
  enum Kind { None, Num, Str } kind = None;
  double n = 0;
  std::string s;
  static auto none() -> Val { return {}; }
  static auto num(double v) -> Val { return {Num, v, ""}; }
  static auto str(const std::string &v) -> Val { return {Str, 0, v}; }
  auto show() const -> std::string;
};
// ordered list of (path, value); paths look like "p0.c1.b0.e2.k3.amp"
using Flat = std::vector<std::pair<std::string, Val>>;

auto flattenEffect(ht::Effect &e, const std::string &path, Flat &out) -> void;
auto flattenBand(ht::Band &b, const std::string &path, Flat &out) -> void;
auto flattenChannel(ht::Channel &c, const std::string &path, Flat &out, bool bands = true) -> void;
auto flattenPerception(ht::Perception &p, const std::string &path, Flat &out) -> void;
auto flatten(ht::Haptics &h) -> Flat;
auto dump(const Flat &f) -> std::string;
auto dump(ht::Haptics &h) -> std::string;

// last component of a path ("amp" in "p0.c1.b0.e2.k3.amp")
auto leaf(const std::string &path) -> std::string;

// tolerance(path) for numbers (0 = exact); skip(path) leaves a path out of the comparison.
// Returns "" if equal, otherwise a description of the first differences.
auto diff(const Flat &expected, const Flat &actual,
          const std::function<double(const std::string &, const Val &)> &tolerance,
          const std::function<bool(const std::string &)> &skip) -> std::string;
auto diffExact(const Flat &expected, const Flat &actual) -> std::string;

// ------------------------------------------------------------------------------------------
// generation domain; every format narrows it to what it can carry
struct Dom {
  // structure
  int maxPerceptions = 3;
  int maxAvatars = 3;
  int maxRefDevices = 3;
  int maxLibrary = 3;
  int maxChannels = 3;
  int maxBands = 3;
  int maxEffects = 4;
  int maxKeyframes = 5;
  // strings
  int maxString = 255;
  bool anyByte = true; // otherwise printable ASCII plus some UTF-8
  // content
  bool priorities = true;
  bool semanticScheme = true;
  bool effectSemantic = true;
  bool optionalTimescale = false;
  std::vector<int> timescales = {1000};
  bool syncs = true;
  bool references = true; // Reference effects in bands
  bool composites = false;
  bool libraryTimelines = false;
  bool wavelets = true;
  bool inexactBlocks = false; // block lengths that are no whole number of ticks
  bool emptyKeyframes = true; // effects without keyframes
  int maxPosition = (1 << 25) - 1;
  int maxKeyframePosition = 65535;
  int maxFrequency = 65535;
  bool kfMissing = true; // vectorial keyframes may lack amplitude / frequency
  bool kfAbsent = false; // transients and curve points may lack values, keyframes at 0 their position
  bool sortedKeyframes = true;
  bool uniqueChannelIdsGlobally = false;
  int maxChannelId = 32767;
  bool outOfRangeFloats = true;
  bool effectIds = false; // give Basis/Composite band effects ids
  std::vector<ht::PerceptionModality> modalities;
  bool spatial = true;
};

auto genString(pbt::Source &s, int maxLen, bool anyByte) -> std::string;
auto genVector(pbt::Source &s) -> ht::Vector;
auto genFloat(pbt::Source &s, double lo, double hi, bool outOfRange) -> float;
auto genAvatar(pbt::Source &s, const Dom &d, int id) -> ht::Avatar;
auto genRefDevice(pbt::Source &s, const Dom &d, int id) -> ht::ReferenceDevice;
// keyframes as the band type stores them
auto genKeyframe(pbt::Source &s, const Dom &d, ht::BandType t, int position) -> ht::Keyframe;
// a keyframe as the binary formats keep it: what they have no mark for absence of is 0
inline void fillKeyframe(ht::Keyframe &k, ht::BandType t) {
  k.setRelativePosition(k.getRelativePosition().value_or(0));
  if (t != ht::BandType::VectorialWave) {
    k.setAmplitudeModulation(k.getAmplitudeModulation().value_or(0));
  }
  if (t == ht::BandType::Curve) {
    k.setFrequencyModulation(std::nullopt);
  } else if (t == ht::BandType::Transient) {
    k.setFrequencyModulation(k.getFrequencyModulation().value_or(0));
  }
}
auto genBasisEffect(pbt::Source &s, const Dom &d, ht::BandType t, int position) -> ht::Effect;
auto genBand(pbt::Source &s, const Dom &d, unsigned timescale, const std::vector<int> &libraryIds)
    -> ht::Band;
auto genChannelMeta(pbt::Source &s, const Dom &d, int id, const std::vector<int> &refDevIds)
    -> ht::Channel;
auto genLibraryEffect(pbt::Source &s, const Dom &d, int id, int depth) -> ht::Effect;
auto genHaptics(pbt::Source &s, const Dom &d) -> ht::Haptics;

// all paths/values of the statistics worth labelling
auto labels(ht::Haptics &h, pbt::Case &c) -> void;
auto countEffects(ht::Haptics &h) -> int;

auto allModalities() -> std::vector<ht::PerceptionModality>;
auto isSpatial(ht::PerceptionModality m) -> bool;
auto semanticKeywords() -> const std::vector<std::string> &;
auto bodyPartTargets() -> const std::vector<ht::BodyPartTarget> &;

auto readBytes(const std::string &path) -> std::string;
auto writeBytes(const std::string &path, const std::string &bytes) -> void;
} // namespace hm
