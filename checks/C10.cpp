// C10: whatever a JSON or XML document holds, it is refused or read, never worse
#include "conform.h"
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <functional>
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

using namespace hm;
namespace rj = rapidjson;
using haptics::encoder::AhapEncoder;
using haptics::encoder::IvsEncoder;
using haptics::io::IOBinary;
using haptics::io::IOJson;
using haptics::io::IOStream;

namespace {
// ---- damage to JSON documents -----------------------------------------------------------
using Seeds = std::vector<std::string>; // texts of values that are put in

const Seeds &numbers() {
  static const Seeds v = {"0", "1", "-1", "2", "0.5", "-0.5", "255", "256", "1000", "65536", "-32769", "16777216",
                          "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
                          "9223372036854775807", "-9223372036854775808", "18446744073709551615", "1e10", "1e38",
                          "1e39", "-1e39", "1e300", "-1e300", "1.7976931348623157e308", "1e-300", "-0.0", "0.1"};
  return v;
}
const Seeds &others() {
  static const Seeds v = {"null", "true", "false", "\"\"", "\"x\"", "[]", "{}", "[[]]", "[{}]", "[0]", "[null]", "{\"x\":1}",
                          "\"Vectorial\"", "\"Basis\"", "\"Reference\"", "\"Composite\"", "\"\\u0000\"", "\"urn:mpeg:x\"",
                          "[1,2,3]", "[-1,256,1e99]", "{\"X\":1,\"Y\":0,\"Z\":0}", "\"WaveletWave\"", "\"Transient\"", "\"Curve\""};
  return v;
}

void nodes(rj::Value &v, std::vector<rj::Value *> &out) {
  out.push_back(&v);
  if (v.IsArray()) {
    for (auto &x : v.GetArray()) {
      nodes(x, out);
    }
  } else if (v.IsObject()) {
    for (auto &m : v.GetObject()) {
      nodes(m.value, out);
    }
  }
}

void damageTree(pbt::Source &s, rj::Document &d, std::string &what) {
  std::vector<rj::Value *> all;
  nodes(d, all);
  auto &al = d.GetAllocator();
  auto put = [&](rj::Value &v, const std::string &text) {
    rj::Document x;
    x.Parse<rj::kParseFullPrecisionFlag>(text.c_str());
    v.CopyFrom(x, al);
  };
  rj::Value &v = *all[static_cast<size_t>(s.range(0, static_cast<int64_t>(all.size()) - 1))];
  switch (s.range(0, 6)) {
  case 0:
  case 1: { // a number becomes another number
    std::vector<rj::Value *> nums;
    for (auto *n : all) {
      if (n->IsNumber()) {
        nums.push_back(n);
      }
    }
    if (!nums.empty()) {
      put(*nums[static_cast<size_t>(s.range(0, static_cast<int64_t>(nums.size()) - 1))], s.pick(numbers()));
      what = "other number";
      return;
    }
    [[fallthrough]];
  }
  case 2:
    put(v, s.boolean() ? s.pick(numbers()) : s.pick(others()));
    what = "other value";
    return;
  case 3: // without a member or an element
    if (v.IsObject() && v.MemberCount() > 0) {
      v.EraseMember(v.MemberBegin() + s.range(0, static_cast<int64_t>(v.MemberCount()) - 1));
    } else if (v.IsArray() && v.Size() > 0) {
      v.Erase(v.Begin() + s.range(0, static_cast<int64_t>(v.Size()) - 1));
    } else {
      v.SetNull();
    }
    what = "something removed";
    return;
  case 4: // twice
    if (v.IsObject() && v.MemberCount() > 0) {
      auto m = v.MemberBegin() + s.range(0, static_cast<int64_t>(v.MemberCount()) - 1);
      rj::Value name(m->name, al);
      rj::Value value;
      if (s.boolean()) {
        value.CopyFrom(m->value, al);
      } else {
        put(value, s.pick(others()));
      }
      v.AddMember(name, value, al);
    } else if (v.IsArray() && v.Size() > 0) {
      rj::Value x(v[static_cast<rj::SizeType>(s.range(0, static_cast<int64_t>(v.Size()) - 1))], al);
      v.PushBack(x, al);
    }
    what = "something twice";
    return;
  case 5: { // another part of the document instead
    rj::Value x;
    x.CopyFrom(*all[static_cast<size_t>(s.range(0, static_cast<int64_t>(all.size()) - 1))], al);
    v = x;
    what = "a part at another place";
    return;
  }
  default: // in another order, or a member under another name
    if (v.IsArray() && v.Size() > 1) {
      v[0].Swap(v[v.Size() - 1]);
      what = "other order";
    } else if (v.IsObject() && v.MemberCount() > 1) {
      auto a = v.MemberBegin() + s.range(0, static_cast<int64_t>(v.MemberCount()) - 1);
      auto b = v.MemberBegin() + s.range(0, static_cast<int64_t>(v.MemberCount()) - 1);
      a->value.Swap(b->value);
      what = "values exchanged";
    } else {
      put(v, s.pick(others()));
      what = "other value";
    }
  }
}

std::string textOf(rj::Document &d) {
  rj::StringBuffer b;
  rj::Writer<rj::StringBuffer, rj::UTF8<>, rj::UTF8<>, rj::CrtAllocator, rj::kWriteNanAndInfFlag> w(b);
  d.Accept(w);
  return {b.GetString(), b.GetSize()};
}

void damageText(pbt::Source &s, std::string &t, std::string &what) {
  for (int k = static_cast<int>(s.range(1, 3)); k > 0 && !t.empty(); k--) {
    auto at = static_cast<size_t>(s.range(0, static_cast<int64_t>(t.size()) - 1));
    switch (s.range(0, 4)) {
    case 0:
      t[at] = static_cast<char>(s.range(0, 255));
      break;
    case 1:
      t.erase(at, static_cast<size_t>(s.range(1, 8)));
      break;
    case 2:
      t.insert(at, s.pick(s.boolean() ? numbers() : others()));
      break;
    case 3: {
      auto from = static_cast<size_t>(s.range(0, static_cast<int64_t>(t.size()) - 1));
      t.insert(at, t.substr(from, static_cast<size_t>(s.range(1, 80))));
      break;
    }
    default:
      t.resize(at);
    }
  }
  what = "text";
}

std::string damaged(pbt::Source &s, pbt::Case &c, const std::string &valid) {
  std::string t = valid;
  std::string what;
  if (s.chance(1, 5)) {
    damageText(s, t, what);
    c.label(what);
    return t;
  }
  rj::Document d;
  d.Parse<rj::kParseFullPrecisionFlag>(valid.c_str());
  c.require(!d.HasParseError(), "generator", "the intact document does not parse");
  for (int k = static_cast<int>(s.weighted({4, 2, 1})); k >= 0; k--) {
    damageTree(s, d, what);
    c.label(what);
  }
  return textOf(d);
}

// ---- what an accepted document turned into ----------------------------------------------
// the experience is conformant, reads back from .hjif as it is, and can be written and rendered
void usable(pbt::Source &s, pbt::Case &c, ht::Haptics &h) {
  bool open = false;
  auto rules = cf::broken(h, open);
  c.require(open || rules.empty(), "not-conformant", "an accepted document breaks: " + (rules.empty() ? "" : rules[0]));
  std::string path = pbt::scratch() + "/again.hjif";
  c.require(IOJson::writeFile(h, path), "rewrite", "an accepted document cannot be written");
  if (open) {
    return;
  }
  ht::Haptics back;
  c.require(IOJson::loadFile(path, back), "reread", "an accepted document that is written again is refused");
  // members that mean nothing where they are (a phase in a wavelet band, say) are left out
  auto d = diff(flatten(h), flatten(back), nullptr, [](const std::string &p) {
    auto ends = [&](const std::string &e) { return p.size() >= e.size() && p.compare(p.size() - e.size(), e.size(), e) == 0; };
    bool inEffect = ends(".semantic") || ends(".wbits") || ends(".nwsamp") || ends(".nk") || ends(".kpos") || ends(".amp") ||
                    ends(".freq") || ends(".id") || ends(".base") || ends(".phase");
    return inEffect || ends(".block");
  });
  c.require(d.empty(), "unstable", "an accepted document changes when it is written again: " + d);
  if (!s.chance(1, 4)) {
    return;
  }
  c.require(IOJson::writeFile(back, path), "rewrite", "an accepted document cannot be written twice");
  ht::Haptics third;
  c.require(IOJson::loadFile(path, third), "reread", "an accepted document that is written twice is refused");
  d = diffExact(flatten(back), flatten(third));
  c.require(d.empty(), "unstable", "an accepted document changes when it is written twice: " + d);
}

// the formats with coded fields: they may refuse what does not fit, but neither fail nor change it
void write(pbt::Case &c, ht::Haptics &h) {
  auto before = flatten(h);
  bool b = IOBinary::writeFile(h, pbt::scratch() + "/a.hmpg");
  c.label(b, "written as .hmpg");
  if (b) {
    ht::Haptics back;
    IOBinary::loadFile(pbt::scratch() + "/a.hmpg", back);
  }
  c.require(diffExact(before, flatten(h)).empty(), "modified", "writing an .hmpg file changes the experience");
}

double lengthOf(ht::Haptics &h) { // in packets of the default length
  double last = 0;
  size_t bands = 1;
  std::function<void(ht::Effect &, double)> effect = [&](ht::Effect &e, double at) {
    at += std::fabs(static_cast<double>(e.getPosition()));
    last = std::max(last, at);
    for (int k = 0; k < static_cast<int>(e.getKeyframesSize()); k++) {
      last = std::max(last, at + std::fabs(static_cast<double>(e.getKeyframeAt(k).getRelativePosition().value_or(0))));
    }
    for (int k = 0; k < static_cast<int>(e.getTimelineSize()); k++) {
      effect(e.getTimelineEffectAt(k), at);
    }
  };
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &q = h.getPerceptionAt(p);
    for (int i = 0; i < static_cast<int>(q.getEffectLibrarySize()); i++) {
      effect(q.getBasisEffectAt(i), 0);
    }
    double library = last;
    for (int i = 0; i < static_cast<int>(q.getChannelsSize()); i++) {
      for (int b = 0; b < static_cast<int>(q.getChannelAt(i).getBandsSize()); b++) {
        auto &band = q.getChannelAt(i).getBandAt(b);
        bands++;
        for (int e = 0; e < static_cast<int>(band.getEffectsSize()); e++) {
          effect(band.getEffectAt(e), library);
        }
      }
    }
  }
  return last * 1000 / h.getTimescaleOrDefault() / 128 * static_cast<double>(bands);
}

void stream(pbt::Case &c, ht::Haptics &h) {
  if (!(lengthOf(h) < 2000)) {
    c.label("too long for a stream");
    return;
  }
  auto before = flatten(h);
  std::string path = pbt::scratch() + "/a.mihs";
  bool ok = IOStream::writeFile(h, path, 128);
  c.label(ok, "written as a stream");
  if (ok) {
    ht::Haptics back;
    IOStream::readFile(path, back);
  }
  c.require(diffExact(before, flatten(h)).empty(), "modified", "writing a stream changes the experience");
}

void hjif(pbt::Source &s, pbt::Case &c) {
  cf::Opt o;
  if (s.chance(2, 3)) {
    o.maxPosition = o.maxKeyframePosition = 10000;
  }
  ht::Haptics h = cf::genConformant(s, o);
  std::string path = pbt::scratch() + "/v.hjif";
  c.require(IOJson::writeFile(h, path), "write", "a conformant experience cannot be written");
  std::string t = damaged(s, c, readBytes(path));
  c.describe(t.substr(0, 6000));
  writeBytes(path, t);
  ht::Haptics x;
  bool ok = IOJson::loadFile(path, x);
  c.label(ok ? "accepted" : "refused");
  c.nontrivial(ok);
  if (!ok) {
    return;
  }
  usable(s, c, x);
  write(c, x);
  stream(c, x);
}

// ---- AHAP -------------------------------------------------------------------------------
std::string time01(pbt::Source &s) { return pbt::str(static_cast<double>(s.range(0, 300)) / 100); }

std::string ahapText(pbt::Source &s) {
  std::vector<std::string> es;
  auto value = [&](bool sharp) { return pbt::str(static_cast<double>(s.range(sharp ? -20 : 0, 20)) / 20); };
  for (int i = static_cast<int>(s.range(0, 5)); i > 0; i--) {
    bool transient = s.boolean();
    std::string e = "{\"Event\":{\"Time\":" + time01(s) + ",\"EventType\":\"" +
                    (transient ? "HapticTransient\"" : "HapticContinuous\",\"EventDuration\":" + time01(s)) + ",\"EventParameters\":[";
    e += "{\"ParameterID\":\"HapticIntensity\",\"ParameterValue\":" + value(false) + "}";
    if (s.boolean()) {
      e += ",{\"ParameterID\":\"HapticSharpness\",\"ParameterValue\":" + value(false) + "}";
    }
    es.push_back(e + "]}}");
  }
  for (int i = static_cast<int>(s.range(0, 3)); i > 0; i--) {
    bool sharp = s.boolean();
    std::string e = std::string("{\"ParameterCurve\":{\"ParameterID\":\"") + (sharp ? "HapticSharpnessControl" : "HapticIntensityControl") +
                    "\",\"Time\":" + time01(s) + ",\"ParameterCurveControlPoints\":[";
    int n = static_cast<int>(s.range(0, 4));
    for (int k = 0; k < n; k++) {
      e += (k > 0 ? "," : "") + ("{\"Time\":" + time01(s)) + ",\"ParameterValue\":" + value(sharp) + "}";
    }
    es.push_back(e + "]}}");
  }
  std::string t = "{\"Version\":1.0,\"Metadata\":{},\"Pattern\":[";
  for (size_t i = 0; i < es.size(); i++) {
    t += (i > 0 ? "," : "") + es[i];
  }
  return t + "]}";
}

// a perception that may hold a channel with something in it
ht::Perception perceptionBefore(pbt::Source &s) {
  ht::Perception p(3, 0, "p", ht::PerceptionModality::Vibrotactile);
  if (s.chance(1, 4)) {
    ht::Channel ch(5, "mine", 0.5F, 0.25F, 3);
    ht::Band b(ht::BandType::VectorialWave, 65, 300);
    ht::Effect e(10, 0, ht::BaseSignal::Sine, ht::EffectType::Basis);
    e.addKeyframe(0, 0.5, 100);
    e.addKeyframe(200, 0.5, 100);
    b.addEffect(e);
    ch.addBand(b);
    p.addChannel(ch);
  }
  return p;
}

ht::Haptics around(ht::Perception p, unsigned ts) {
  ht::Haptics h("2023", "2023-01-01", "x");
  std::string main = "Main";
  h.setProfile(main);
  h.setLevel(2);
  h.setTimescale(ts);
  h.addPerception(p);
  return h;
}

void converted(pbt::Source &s, pbt::Case &c, ht::Perception &p, unsigned ts) {
  auto h = around(p, ts);
  for (int i = 0; i < static_cast<int>(p.getChannelsSize()); i++) {
    auto &ch = p.getChannelAt(i);
    for (int b = 0; b < static_cast<int>(ch.getBandsSize()); b++) {
      auto &band = ch.getBandAt(b);
      for (int k = 0; k < static_cast<int>(band.getEffectsSize()); k++) {
        auto &e = band.getEffectAt(k);
        auto where = pbt::str("channel ", i, " band ", b, " effect ", k, ": ");
        auto signal = static_cast<int>(e.getBaseSignal().value_or(ht::BaseSignal::Sine));
        c.require(signal >= 0 && signal <= static_cast<int>(ht::BaseSignal::SawToothDown), "base signal", where + pbt::str("base signal ", signal));
        c.require(e.getPosition() >= 0, "position", where + pbt::str("position ", e.getPosition()));
        int last = 0;
        for (int m = 0; m < static_cast<int>(e.getKeyframesSize()); m++) {
          auto &kf = e.getKeyframeAt(m);
          if (kf.getRelativePosition()) {
            c.require(*kf.getRelativePosition() >= last, "order", where + pbt::str("keyframe ", m, " at ", *kf.getRelativePosition(), " after ", last));
            last = *kf.getRelativePosition();
          }
          c.require(!kf.getAmplitudeModulation() || std::isfinite(*kf.getAmplitudeModulation()), "amplitude", where + "an amplitude that is no number");
          c.require(!kf.getFrequencyModulation() || *kf.getFrequencyModulation() >= 0, "frequency", where + pbt::str("frequency ", kf.getFrequencyModulation().value_or(0)));
        }
      }
    }
  }
  if (s.chance(1, 3)) {
    usable(s, c, h);
  }
  write(c, h);
  stream(c, h);
  if (lengthOf(h) < 2000) {
    for (int i = 0; i < static_cast<int>(p.getChannelsSize()); i++) {
      for (double t : {0., 10., 100.5}) {
        double v = p.getChannelAt(i).Evaluate(t, ts);
        c.require(v >= -1 && v <= 1, "value", pbt::str("the signal is ", v, " at ", t));
      }
    }
  }
}

template <class F> void convert(pbt::Source &s, pbt::Case &c, const std::string &t, unsigned ts, F f) {
  c.describe(t.substr(0, 6000));
  std::string path = pbt::scratch() + "/in";
  writeBytes(path, t);
  auto p = perceptionBefore(s);
  auto h0 = around(p, ts);
  auto before = flatten(h0);
  bool ok = f(path, p);
  c.label(ok ? "accepted" : "refused");
  bool made = ok && p.getChannelsSize() > 0 && p.getChannelAt(0).getBandsSize() > 0;
  c.label(made, "effects");
  c.nontrivial(made);
  if (!ok) {
    auto h1 = around(p, ts);
    c.require(diffExact(before, flatten(h1)).empty(), "modified", "a refused document changed the perception");
    return;
  }
  converted(s, c, p, ts);
}

void ahap(pbt::Source &s, pbt::Case &c) {
  unsigned ts = s.pick(std::vector<unsigned>{1000, 1000, 100, 48000, 1});
  std::string t = damaged(s, c, ahapText(s));
  convert(s, c, t, ts, [&](std::string &path, ht::Perception &p) { return AhapEncoder::encode(path, p, ts) == EXIT_SUCCESS; });
}

// ---- IVS --------------------------------------------------------------------------------
std::string attribute(pbt::Source &s, const std::string &name, std::string value, unsigned odds, bool big, pbt::Case &c) {
  if (s.chance(1, odds)) {
    switch (s.range(0, 3)) {
    case 0:
      c.label("attribute missing");
      return "";
    case 1:
      value = s.pick(std::vector<std::string>{"", "x", "-1", "-5", "0", "1.5", "-", "0x10", "07", " 3 "});
      c.label("odd attribute");
      break;
    case 2:
      value = big ? s.pick(std::vector<std::string>{"2147483647", "-2147483648", "2147483648", "99999999999", "1e9", "1000000000"})
                  : s.pick(std::vector<std::string>{"-2147483648", "40", "-3"});
      c.label("extreme attribute");
      break;
    default:
      c.label("attribute twice");
      return " " + name + "=\"3\" " + name + "=\"" + value + "\"";
    }
  }
  return " " + name + "=\"" + value + "\"";
}

std::string ivsText(pbt::Source &s, pbt::Case &c) {
  unsigned odds = s.pick(std::vector<unsigned>{20, 6, 1000000});
  auto at = [&](const std::string &n, const std::string &v, bool big = true) { return attribute(s, n, v, odds, big, c); };
  auto num = [&](int64_t lo, int64_t hi) { return std::to_string(s.range(lo, hi)); };
  std::vector<std::string> es;
  for (int i = static_cast<int>(s.range(1, 3)); i > 0; i--) {
    std::string e = "<basis-effect" + at("name", "b" + std::to_string(i)) +
                    at("type", s.pick(std::vector<std::string>{"periodic", "periodic", "magsweep", "other"})) + at("duration", num(1, 500)) +
                    at("magnitude", num(0, 10000)) + at("period", num(1, 100)) +
                    at("waveform", s.pick(std::vector<std::string>{"sine", "square", "triangle", "sawtooth-up", "sawtooth-down", "sine"}));
    if (s.boolean()) {
      e += at("attack-time", num(0, 400)) + at("attack-level", num(0, 10000));
    }
    if (s.boolean()) {
      e += at("fade-time", num(0, 400)) + at("fade-level", num(0, 10000));
    }
    es.push_back(e + "/>");
  }
  for (int i = static_cast<int>(s.range(1, 2)); i > 0; i--) {
    std::string e = "<timeline-effect" + at("name", "t") + ">";
    for (int k = static_cast<int>(s.range(0, 4)); k > 0; k--) {
      e += "<launch-event" + at("time", num(0, 600)) + at("effect", "b" + std::to_string(s.range(1, 3)));
      if (s.chance(1, 3)) {
        e += at("duration-override", num(1, 400));
      }
      if (s.chance(1, 3)) {
        e += at("magnitude-override", num(0, 10000));
      }
      if (s.chance(1, 3)) {
        e += at("period-override", num(1, 100));
      }
      e += "/>";
    }
    for (int k = static_cast<int>(s.range(0, 3)); k > 0; k--) {
      e += "<repeat-event" + at("time", num(0, 600)) + at("duration", num(1, 300)) + at("count", num(0, 3), false) + "/>";
    }
    es.push_back(e + "</timeline-effect>");
  }
  std::string t = "<?xml version=\"1.0\"?>\n<ivs-file" + at("last-modified", "2021") + "><effects>\n";
  for (auto &e : es) {
    t += e + "\n";
  }
  return t + "</effects></ivs-file>\n";
}

void ivs(pbt::Source &s, pbt::Case &c) {
  unsigned ts = s.pick(std::vector<unsigned>{1000, 1000, 100, 48000, 1});
  std::string t = ivsText(s, c);
  if (s.chance(1, 4)) {
    std::string what;
    damageText(s, t, what);
    c.label(what);
    // a repetition is what a document may ask for: those of millions are left out
    for (size_t p = t.find("count"); p != std::string::npos; p = t.find("count", p + 1)) {
      auto q = t.find_first_of("0123456789", p);
      if (q != std::string::npos && t.find_first_not_of("0123456789", q) - q > 2) {
        pbt::Case::discard();
      }
    }
  }
  convert(s, c, t, ts, [&](std::string &path, ht::Perception &p) { return IvsEncoder::encode(path, p, ts) == EXIT_SUCCESS; });
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C10";
  cfg.rule = "Documents with 1-3 changes (values of another type or far out of range, members and elements removed, repeated, exchanged or "
             "moved, changes to the text): .hjif files made from conformant experiences, AHAP patterns and IVS files. What is accepted is "
             "checked for conformance, written in every format, read again and, for AHAP and IVS, looked over field by field; what is "
             "refused leaves the perception as it was. Non-trivial: .hjif documents that are accepted, patterns that give effects.";
  cfg.assumptions = {"streams are written for contents of up to 2000 packets only", "IVS repetitions of more than 99 times are left out"};
  cfg.targets = {{"hjif", hjif, 12000, 300000}, {"ahap", ahap, 20000, 600000}, {"ivs", ivs, 20000, 600000}};
  return pbt::run(cfg, argc, argv);
}
