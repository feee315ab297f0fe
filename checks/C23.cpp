// C23: OHM metadata survives writing, loading and conversion
#include "pbt.h"
#include <Tools/include/OHMData.h>
#include <Types/include/Haptics.h>
#include <fstream>
#include <iterator>

namespace ht = haptics::types;
using haptics::tools::OHMData;

namespace {
struct Chan {
  std::string description;
  float gain = 1;
  uint32_t mask = 0;
};
struct Elem {
  std::string file;
  std::string description;
  std::vector<Chan> channels;
};
struct Ohm {
  int version = 1;
  std::string description;
  std::vector<Elem> elements;
};

const std::vector<std::string> WORDS = {"Pressure effect", "Acceleration effect", "Velocity effect", "Position effect", "Temperature effect",
                                        "Vibration effect", "Vibrotactile effect", "Water effect", "Wind effect", "Kinesthetic effect",
                                        "Force effect", "Texture effect", "Stiffness effect", "Friction effect", "Vibrotactile Texture effect"};

// a text of up to n bytes, sometimes longer, that does not end with a zero
std::string genText(pbt::Source &s, size_t n) {
  if (s.chance(1, 4)) {
    return s.pick(WORDS);
  }
  size_t len = static_cast<size_t>(s.chance(1, 6) ? static_cast<int64_t>(n) + s.range(-1, 3) : s.range(0, static_cast<int64_t>(n)));
  std::string r;
  for (size_t i = 0; i < len; i++) {
    r += static_cast<char>(s.chance(1, 8) ? s.range(0x80, 0xff) : s.chance(1, 30) ? 0 : s.range(0x20, 0x7e));
  }
  return r;
}
std::string cut(const std::string &t, size_t n) {
  auto r = t.substr(0, n);
  while (!r.empty() && r.back() == 0) {
    r.pop_back();
  }
  return r;
}

Ohm gen(pbt::Source &s) {
  Ohm o;
  o.version = static_cast<int>(s.edgy(0, 32767));
  if (s.chance(1, 10)) {
    o.version = static_cast<int>(s.range(-32768, -1));
  }
  o.description = genText(s, 32);
  int n = static_cast<int>(s.chance(1, 100) ? s.range(250, 300) : s.range(0, 5));
  for (int i = 0; i < n; i++) {
    Elem e;
    e.file = genText(s, 64);
    e.description = genText(s, 32);
    int k = static_cast<int>(s.chance(1, 100) ? s.range(250, 300) : s.weighted({1, 3, 3, 2, 1}));
    if (n > 100) {
      k = std::min(k, 2);
    }
    for (int j = 0; j < k; j++) {
      Chan ch;
      ch.description = genText(s, 32);
      ch.gain = s.chance(1, 3) ? 1.F : static_cast<float>(s.real(-8, 8));
      ch.mask = s.boolean() ? static_cast<uint32_t>(1) << s.range(0, 31) : static_cast<uint32_t>(s.draw(0xffffffff));
      e.channels.push_back(ch);
    }
    o.elements.push_back(e);
  }
  return o;
}

std::string show(const Ohm &o) {
  std::string r = pbt::str("version ", o.version, " '", o.description, "'\n");
  for (auto &e : o.elements) {
    r += pbt::str(" element '", e.file, "' '", e.description, "'\n");
    for (auto &ch : e.channels) {
      r += pbt::str("  channel '", ch.description, "' gain ", ch.gain, " mask ", ch.mask, "\n");
    }
  }
  return r;
}

OHMData toData(const Ohm &o) {
  std::string h = "OHM ";
  std::string d = o.description;
  OHMData r(h, static_cast<short>(o.version), d);
  for (auto &e : o.elements) {
    OHMData::HapticElementMetadata m;
    m.elementFilename = e.file;
    m.elementDescription = e.description;
    m.numHapticChannels = static_cast<short>(e.channels.size());
    for (auto &ch : e.channels) {
      OHMData::HapticChannelMetadata x;
      x.channelDescription = ch.description;
      x.gain = ch.gain;
      x.bodyPartMask = static_cast<OHMData::Body>(ch.mask);
      m.channelsMetadata.push_back(x);
    }
    r.addHapticElementMetadata(m);
  }
  return r;
}

void compare(pbt::Case &c, OHMData &d, const Ohm &o, bool cutText, const std::string &what) {
  auto txt = [&](const std::string &t, size_t n) { return cutText ? cut(t, n) : t; };
  c.require(d.getHeader() == "OHM ", what, "header '" + d.getHeader() + "'");
  c.require(d.getVersion() == o.version, what, pbt::str("version ", d.getVersion(), ", expected ", o.version));
  c.require(d.getDescription() == txt(o.description, 32), what, "description '" + d.getDescription() + "'");
  c.require(d.getHapticElementMetadataSize() == o.elements.size(), what, pbt::str(d.getHapticElementMetadataSize(), " elements of ", o.elements.size()));
  for (size_t i = 0; i < o.elements.size(); i++) {
    auto &e = d.getHapticElementMetadataAt(static_cast<int>(i));
    auto &w = o.elements[i];
    auto at = pbt::str("element ", i, ": ");
    c.require(e.elementFilename == txt(w.file, 64), what, at + "file '" + e.elementFilename + "'");
    c.require(e.elementDescription == txt(w.description, 32), what, at + "description '" + e.elementDescription + "'");
    c.require(e.numHapticChannels == static_cast<short>(w.channels.size()) && e.channelsMetadata.size() == w.channels.size(), what,
              at + pbt::str(e.numHapticChannels, " channels of ", w.channels.size()));
    for (size_t j = 0; j < w.channels.size(); j++) {
      auto &x = e.channelsMetadata[j];
      auto &y = w.channels[j];
      auto ca = at + pbt::str("channel ", j, ": ");
      c.require(x.channelDescription == txt(y.description, 32), what, ca + "description '" + x.channelDescription + "'");
      c.require(x.gain == y.gain, what, ca + pbt::str("gain ", x.gain, ", expected ", y.gain));
      c.require(static_cast<uint32_t>(x.bodyPartMask) == y.mask, what,
                ca + pbt::str("body part mask ", static_cast<uint32_t>(x.bodyPartMask), ", expected ", y.mask));
    }
  }
}

std::string bytes(const Ohm &o) {
  std::string r = "OHM ";
  auto u16 = [&](int v) {
    r += static_cast<char>(v >> 8 & 255);
    r += static_cast<char>(v & 255);
  };
  auto txt = [&](const std::string &t, size_t n) {
    auto x = t.substr(0, n);
    x.resize(n, '\0');
    r += x;
  };
  u16(o.version);
  u16(static_cast<int>(o.elements.size()));
  txt(o.description, 32);
  for (auto &e : o.elements) {
    txt(e.file, 64);
    txt(e.description, 32);
    u16(static_cast<int>(e.channels.size()));
    for (auto &ch : e.channels) {
      txt(ch.description, 32);
      uint32_t g = 0;
      memcpy(&g, &ch.gain, 4);
      for (int i = 0; i < 4; i++) {
        r += static_cast<char>(g >> (8 * i) & 255);
      }
      for (int i = 3; i >= 0; i--) {
        r += static_cast<char>(ch.mask >> (8 * i) & 255);
      }
    }
  }
  return r;
}
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
void store(const std::string &p, const std::string &b) {
  std::ofstream f(p, std::ios::binary);
  f << b;
}

void labels(pbt::Case &c, const Ohm &o) {
  size_t ch = 0;
  for (auto &e : o.elements) {
    ch += e.channels.size();
    for (auto &x : e.channels) {
      c.label((x.mask & 0x80808080) != 0, "mask with the sign bit of a byte");
      c.label(x.description.size() > 32, "long text");
    }
  }
  c.nontrivial(o.elements.size() > 1 && ch > 1);
}

void file(pbt::Source &s, pbt::Case &c) {
  auto o = gen(s);
  labels(c, o);
  c.describe(show(o));
  auto p = pbt::scratch() + "/a.ohm";
  auto d = toData(o);
  c.require(d.writeFile(p), "write", "writing fails");
  compare(c, d, o, false, "modified by writing");
  auto b = slurp(p);
  c.require(b == bytes(o), "layout", pbt::str("the file has ", b.size(), " bytes, or other bytes than its layout says (", bytes(o).size(), ")"));
  // read into an object that may have content
  OHMData r;
  if (s.boolean()) {
    r = toData(gen(s));
    c.label("read into an object with content");
  }
  c.require(r.loadFile(p), "read", "loading fails");
  compare(c, r, o, true, "loaded");
  OHMData k{p};
  compare(c, k, o, true, "loaded by the constructor");
  c.require(k.writeFile(p) && slurp(p).size() == b.size(), "again", "writing again gives a file of another size");
}

// files that are no OHM file, or are cut short
void malformed(pbt::Source &s, pbt::Case &c) {
  auto o = gen(s);
  auto b = bytes(o);
  auto p = pbt::scratch() + "/m.ohm";
  c.nontrivial();
  switch (s.range(0, 3)) {
  case 0:
    b.resize(static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 1)));
    c.label("cut");
    break;
  case 1:
    b[static_cast<size_t>(s.range(0, 3))] ^= static_cast<char>(1 << s.range(0, 7));
    c.label("other header");
    break;
  case 2:
    p += "none";
    c.label("missing");
    break;
  default: { // any bytes: must not crash
    b.clear();
    int n = static_cast<int>(s.range(0, 300));
    for (int i = 0; i < n; i++) {
      b += static_cast<char>(s.range(0, 255));
    }
    if (s.boolean()) {
      b = "OHM " + b;
    }
    c.label("any bytes");
    store(p, b);
    OHMData r;
    bool ok = r.loadFile(p);
    if (ok) {
      c.require(b.substr(0, 4) == "OHM " && b.size() >= 40, "accepted", "a file that is none is loaded");
    }
    return;
  }
  }
  c.describe(pbt::str(b.size(), " bytes\n", show(o)));
  if (p.find("none") == std::string::npos) {
    store(p, b);
  }
  OHMData r;
  c.require(!r.loadFile(p), "accepted", "the file is loaded");
}

void convert(pbt::Source &s, pbt::Case &c) {
  auto o = gen(s);
  labels(c, o);
  c.describe(show(o));
  std::string name = genText(s, 64);
  auto d = toData(o);
  ht::Haptics h;
  h.loadMetadataFromOHM(d);
  c.require(h.getDescription() == o.description && h.getVersion() == std::to_string(o.version), "import", "version or description");
  c.require(h.getPerceptionsSize() == o.elements.size(), "import", pbt::str(h.getPerceptionsSize(), " perceptions"));
  for (size_t i = 0; i < o.elements.size(); i++) {
    auto &p = h.getPerceptionAt(static_cast<int>(i));
    auto &e = o.elements[i];
    c.require(p.getId() == static_cast<int>(i) && p.getDescription() == e.description && p.getChannelsSize() == e.channels.size(), "import",
              pbt::str("perception ", i, ": id, description or number of channels"));
    static const std::map<std::string, ht::PerceptionModality> kinds = {
        {"Pressure effect", ht::PerceptionModality::Pressure},       {"Acceleration effect", ht::PerceptionModality::Acceleration},
        {"Velocity effect", ht::PerceptionModality::Velocity},       {"Position effect", ht::PerceptionModality::Position},
        {"Temperature effect", ht::PerceptionModality::Temperature}, {"Vibration effect", ht::PerceptionModality::Vibrotactile},
        {"Vibrotactile effect", ht::PerceptionModality::Vibrotactile}, {"Water effect", ht::PerceptionModality::Water},
        {"Wind effect", ht::PerceptionModality::Wind},               {"Kinesthetic effect", ht::PerceptionModality::Force},
        {"Force effect", ht::PerceptionModality::Force},             {"Texture effect", ht::PerceptionModality::VibrotactileTexture},
        {"Vibrotactile Texture effect", ht::PerceptionModality::VibrotactileTexture}, {"Stiffness effect", ht::PerceptionModality::Stiffness},
        {"Friction effect", ht::PerceptionModality::Friction}};
    auto it = kinds.find(e.description);
    if (it != kinds.end()) {
      c.require(p.getPerceptionModality() == it->second, "modality", "'" + e.description + "' has another modality");
    }
    for (size_t j = 0; j < e.channels.size(); j++) {
      auto &ch = p.getChannelAt(static_cast<int>(j));
      auto &x = e.channels[j];
      c.require(ch.getId() == static_cast<int>(j) && ch.getDescription() == x.description && ch.getGain() == x.gain &&
                    ch.getMixingWeight() == 1 && ch.getBodyPartMask() == x.mask && ch.getBandsSize() == 0,
                "import", pbt::str("perception ", i, ", channel ", j));
    }
  }
  auto back = h.extractMetadataToOHM(name);
  for (auto &e : o.elements) {
    e.file = name;
  }
  compare(c, back, o, false, "exported");
  // experiences carry any text as version
  std::string number = s.boolean() ? "" : std::to_string(s.range(0, 32767));
  std::string rest = s.pick(std::vector<std::string>{"", "-amd1", "RM1", " ", "x9", ".5"});
  std::string version = number + rest;
  h.setVersion(version);
  auto other = h.extractMetadataToOHM(name);
  c.require(other.getVersion() == (number.empty() ? 0 : std::stoi(number)), "exported-version",
            "version '" + version + "' is exported as " + std::to_string(other.getVersion()));
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C23";
  cfg.rule = "'file': random OHM metadata written, compared byte by byte with the layout, and loaded into new and used objects; "
             "'convert': imported into an experience and exported again; non-trivial: several elements and channels. 'malformed': "
             "files cut short, missing, with another header, or of random bytes";
  cfg.assumptions = {"the number of channels of an element is that of its list of channels"};
  cfg.targets = {{"file", file, 30000, 800000}, {"convert", convert, 30000, 800000}, {"malformed", malformed, 10000, 200000}};
  return pbt::run(cfg, argc, argv);
}
