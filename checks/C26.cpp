// C26: the command line tools.
#include "refband.h"
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <Encoder/include/PcmEncoder.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/OHMData.h>
#include <Tools/include/WavParser.h>
#include <Types/include/Haptics.h>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <iterator>
#include <sys/stat.h>
#include <unistd.h>

int Encoder_main(int argc, char **argv);
int Decoder_main(int argc, char **argv);
int Synthesizer_main(int argc, char **argv);

namespace ht = haptics::types;
using namespace ref;
using haptics::encoder::AhapEncoder;
using haptics::encoder::EncodingConfig;
using haptics::encoder::IvsEncoder;
using haptics::encoder::PcmEncoder;
using haptics::io::IOJson;
using haptics::io::IOStream;
using haptics::synthesizer::Helper;
using haptics::tools::OHMData;
using haptics::tools::WavParser;

namespace {
using Bytes = std::optional<std::string>;
auto slurp(const std::string &p) -> Bytes {
  std::ifstream f(p, std::ios::binary);
  if (!f) {
    return {};
  }
  return std::string(std::istreambuf_iterator<char>(f), {});
}
void store(const std::string &p, const std::string &b) {
  std::ofstream f(p, std::ios::binary);
  f << b;
}
// an empty folder with a folder "in" in it, made the working directory
void freshFolder() {
  static const std::string dir = pbt::scratch() + "/case";
  auto clean = [](const std::string &d, auto &&self) -> void {
    DIR *h = opendir(d.c_str());
    if (h == nullptr) {
      return;
    }
    while (auto *e = readdir(h)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") {
        continue;
      }
      std::string p = d + "/" + n;
      struct stat st {};
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
        self(p, self);
        rmdir(p.c_str());
      } else {
        unlink(p.c_str());
      }
    }
    closedir(h);
  };
  mkdir(dir.c_str(), 0755);
  clean(dir, clean);
  mkdir((dir + "/in").c_str(), 0755);
  mkdir((dir + "/exp").c_str(), 0755);
  if (chdir(dir.c_str()) != 0) {
    pbt::Case::fail("harness", "no scratch folder");
  }
}
struct Quiet { // the tools' messages
  std::ostringstream out, err;
  std::streambuf *o = std::cout.rdbuf(out.rdbuf());
  std::streambuf *e = std::cerr.rdbuf(err.rdbuf());
  Quiet() = default;
  Quiet(const Quiet &) = delete;
  auto operator=(const Quiet &) -> Quiet & = delete;
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};
// runs a tool with its options in any order
using Options = std::vector<std::vector<std::string>>;
auto runTool(pbt::Source &s, pbt::Case &c, int (*tool)(int, char **), const std::string &name,
             Options options) -> int {
  for (size_t i = options.size(); i > 1; i--) {
    std::swap(options[i - 1], options[static_cast<size_t>(s.range(0, static_cast<int64_t>(i) - 1))]);
  }
  std::vector<std::string> words = {name};
  for (auto &o : options) {
    words.insert(words.end(), o.begin(), o.end());
  }
  std::string line;
  std::vector<char *> argv;
  for (auto &w : words) {
    line += w + " ";
    argv.push_back(w.data());
  }
  argv.push_back(nullptr);
  c.describe(line);
  Quiet q;
  try {
    return tool(static_cast<int>(words.size()), argv.data());
  } catch (const std::exception &e) {
    pbt::Case::fail("exception", line + ": ends with an exception (" + e.what() + ")");
  }
}
auto num(double v) -> std::string { return pbt::str(v); }
auto json(const std::vector<std::string> &v) -> std::string {
  std::string r;
  for (auto &x : v) {
    r += (r.empty() ? "" : ",") + x;
  }
  return "[" + r + "]";
}
// -- inputs ---------------------------------------------------------------------------------
auto ahapText(pbt::Source &s) -> std::string {
  std::vector<std::string> ev;
  double t = 0;
  for (int n = static_cast<int>(s.range(1, 4)); n > 0; n--) {
    bool tr = s.boolean();
    std::string e = "{\"Event\":{\"Time\":" + num(t) + ",\"EventType\":\"" +
                    (tr ? "HapticTransient" : "HapticContinuous") + "\"";
    double d = static_cast<double>(s.range(20, 200)) / 1000;
    if (!tr) {
      e += ",\"EventDuration\":" + num(d);
    }
    ev.push_back(e + ",\"EventParameters\":[{\"ParameterID\":\"HapticIntensity\",\"ParameterValue\":" +
                 num(static_cast<double>(s.range(1, 8)) / 8) +
                 "},{\"ParameterID\":\"HapticSharpness\",\"ParameterValue\":" +
                 num(static_cast<double>(s.range(1, 8)) / 8) + "}]}}");
    t += s.chance(1, 3) ? 0 : d;
  }
  return "{\"Version\":1.0,\"Pattern\":" + json(ev) + "}";
}
auto ivsText(pbt::Source &s) -> std::string {
  std::string r = "<?xml version=\"1.0\"?>\n<ivs-file last-modified=\"now\">\n<effects>\n";
  r += pbt::str("<basis-effect name=\"b\" type=\"periodic\" duration=\"", s.range(10, 300), "\" magnitude=\"",
                s.range(1, 10000), "\" waveform=\"", s.pick(std::vector<std::string>{"sine", "square", "triangle"}),
                "\" period=\"", s.range(5, 50), "\"/>\n<timeline-effect name=\"t\">\n");
  for (int n = static_cast<int>(s.range(1, 4)); n > 0; n--) {
    r += pbt::str("<launch-event time=\"", s.range(0, 600), "\" effect=\"b\"/>\n");
  }
  return r + "</timeline-effect>\n</effects>\n</ivs-file>\n";
}
void writeWav(pbt::Source &s, const std::string &path, int channels) {
  int rate = s.pick(std::vector<int>{8000, 2000, 16000});
  int n = static_cast<int>(s.range(2, 1200));
  std::vector<std::vector<double>> v;
  for (int k = 0; k < channels; k++) {
    std::vector<double> x;
    double f = s.real(5, 300);
    double g = s.real(100, 800);
    double a = s.real(0.05, 0.5);
    double b = s.real(0, 0.4);
    for (int i = 0; i < n; i++) {
      x.push_back(a * std::sin(2 * M_PI * f * i / rate) + b * std::sin(2 * M_PI * g * i / rate));
    }
    v.push_back(x);
  }
  Quiet q;
  WavParser::saveFile(path, v, rate);
}
// a short experience that every tool handles: all kinds of bands, library effects and references
auto experience(pbt::Source &s, std::string &d) -> ht::Haptics {
  Setup u{};
  u.ts = static_cast<unsigned>(s.pick(std::vector<int>{1000, 480, 8000}));
  u.fs = static_cast<int>(s.pick(std::vector<int>{1000, 500, 2000}));
  u.n = static_cast<uint32_t>(s.range(10, 300));
  std::string version = "2023";
  std::string date = "2023-01-01";
  std::string text = s.pick(std::vector<std::string>{"d", "two words"});
  std::string profile = "Main";
  ht::Haptics h(version, date, text);
  h.setProfile(profile);
  h.setLevel(2);
  h.setTimescale(u.ts);
  d += pbt::str("experience at ", u.ts);
  for (int np = static_cast<int>(s.range(1, 2)), p = 0; p < np; p++) {
    std::string what = "Vibration effect";
    ht::Perception perception(p, 0, what, ht::PerceptionModality::Vibrotactile);
    int nl = static_cast<int>(s.range(0, 2));
    auto basis = [&](int position) {
      ht::Effect e(position, 0.5F, static_cast<ht::BaseSignal>(s.range(0, 4)), ht::EffectType::Basis);
      int at = 0;
      for (int k = static_cast<int>(s.range(1, 3)); k > 0; k--) {
        ht::Keyframe kf(at, static_cast<float>(s.range(1, 8)) / 8, static_cast<int>(s.range(20, 200)));
        e.addKeyframe(kf);
        at += static_cast<int>(s.range(1, 60));
      }
      return e;
    };
    for (int l = 0; l < nl; l++) {
      auto e = basis(0);
      e.setId(l);
      perception.addBasisEffect(e);
    }
    for (int nc = static_cast<int>(s.range(1, 2)), k = 0; k < nc; k++) {
      std::string name = "c";
      ht::Channel channel(k, name, static_cast<float>(s.range(1, 12)) / 8, 1, 1);
      for (int nb = static_cast<int>(s.range(0, 2)); nb > 0; nb--) {
        ht::Band b = s.chance(1, 4) ? codedBand(s, u) : genBand(s, u);
        if (b.getBandType() == ht::BandType::WaveletWave && b.getEffectsSize() > 0 &&
            b.getEffectAt(0).getWaveletBitstream().empty()) {
          b = codedBand(s, u);
        }
        for (int i = 0; b.getBandType() == ht::BandType::Transient && i < static_cast<int>(b.getEffectsSize()); i++) {
          auto &e = b.getEffectAt(i);
          for (int k = 0; k < static_cast<int>(e.getKeyframesSize()); k++) {
            e.getKeyframeAt(k).setAmplitudeModulation(e.getKeyframeAt(k).getAmplitudeModulation().value_or(0.5F));
            e.getKeyframeAt(k).setFrequencyModulation(100);
          }
        }
        hm::Flat f;
        hm::flattenBand(b, "band", f);
        d += hm::dump(f);
        channel.addBand(b);
      }
      ht::Band b(ht::BandType::VectorialWave, 0, 1000);
      int at = 0;
      std::optional<ht::Effect> repeated;
      for (int ne = static_cast<int>(s.range(0, 4)); ne > 0; ne--) {
        ht::Effect e;
        if (nl > 0 && s.boolean()) {
          e = ht::Effect(at, ht::EffectType::Reference);
          e.setId(static_cast<int>(s.range(0, nl - 1)));
        } else if (repeated && s.boolean()) { // worth factoring out
          e = *repeated;
          e.setPosition(at);
        } else {
          e = basis(at);
          repeated = e;
        }
        b.addEffect(e);
        at += static_cast<int>(s.range(150, 300));
      }
      channel.addBand(b);
      perception.addChannel(channel);
    }
    h.addPerception(perception);
  }
  return h;
}
// cuts, empties or overwrites a file
void damage(pbt::Source &s, pbt::Case &c, const std::string &path) {
  auto b = slurp(path).value_or("");
  switch (s.range(0, 3)) {
  case 0:
    unlink(path.c_str());
    c.label("no such input");
    break;
  case 1:
    unlink(path.c_str());
    mkdir(path.c_str(), 0755);
    c.label("the input is a folder");
    break;
  case 2:
    store(path, "");
    c.label("empty input");
    break;
  default:
    store(path, s.pick(std::vector<std::string>{"no such thing", "{", "<a", "RIFF", "OHM"}));
    c.label("damaged input");
    break;
  }
}
// -- Encoder --------------------------------------------------------------------------------
struct Settings {
  std::optional<int> kb, bu, bl, ts, packet;
  std::optional<double> cf;
  bool wavelet = true, vectorial = true, refactor = false, linearize = false, binary = false;
};
auto config(const Settings &o) -> EncodingConfig {
  const double cutoff = o.cf.value_or(haptics::encoder::DEFAULT_CUTOFF_FREQUENCY);
  const int block = o.bl.value_or(haptics::encoder::DEFAULT_BLOCK_LENGTH_SMP);
  if (o.kb) {
    return EncodingConfig::generateConfigParam(*o.kb, cutoff, o.wavelet, o.vectorial, block);
  }
  return EncodingConfig(cutoff, block, o.bu.value_or(haptics::encoder::DEFAULT_BIT_BUDGET), o.wavelet, o.vectorial);
}
auto extension(const std::string &f) -> std::string {
  auto dot = f.rfind('.');
  return dot == std::string::npos ? "" : f.substr(dot + 1);
}
// one recording or pattern into one perception
auto element(std::string file, const Settings &o, unsigned ts, ht::Perception &p) -> bool {
  auto ext = extension(file);
  struct stat st {};
  if (stat(file.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) {
    return false;
  }
  if (ext == "ahap" || ext == "json") {
    return AhapEncoder::encode(file, p, ts) == EXIT_SUCCESS;
  }
  if (ext == "ivs" || ext == "xml") {
    return IvsEncoder::encode(file, p, ts) == EXIT_SUCCESS;
  }
  if (ext == "wav") {
    WavParser w; // a file that is no recording
    if (!w.loadFile(file)) {
      return false;
    }
    auto cfg = config(o);
    return PcmEncoder::encode(file, cfg, ts, p) == EXIT_SUCCESS;
  }
  return false;
}
// what the encoder has to write: nothing when the input is refused
auto encoded(const std::string &file, const Settings &o, const std::string &to) -> Bytes {
  Quiet q;
  ht::Haptics h;
  h.setTimescale(static_cast<unsigned>(o.ts.value_or(1000)));
  const unsigned ts = h.getTimescaleOrDefault();
  auto ext = extension(file);
  struct stat st {};
  if (stat(file.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) {
    return {};
  }
  if (ext == "hjif") {
    if (!IOJson::loadFile(file, h)) {
      return {};
    }
  } else if (ext == "ohm") {
    OHMData d;
    if (!d.loadFile(file)) {
      return {};
    }
    h.loadMetadataFromOHM(d);
    for (int i = 0; i < static_cast<int>(d.getHapticElementMetadataSize()); i++) {
      if (!element("in/" + d.getHapticElementMetadataAt(i).elementFilename, o, ts, h.getPerceptionAt(i))) {
        return {};
      }
    }
  } else {
    ht::Perception p(0, 0, std::string(), ht::PerceptionModality::Other);
    if (!element(file, o, ts, p)) {
      return {};
    }
    h.addPerception(p);
  }
  if (o.refactor) {
    h.refactor();
  }
  if (o.linearize) {
    h.linearize();
  }
  unlink(to.c_str());
  if (o.binary) {
    IOStream::writeFile(h, to, o.packet.value_or(haptics::io::DEFAULT_PACKET_DURATION));
  } else {
    IOJson::writeFile(h, to);
  }
  return slurp(to);
}
void flag(pbt::Source &s, Options &opt, bool on, const std::string &brief, const std::string &name) {
  if (on) {
    opt.push_back({!name.empty() && s.boolean() ? name : brief});
  }
}
template <class T>
void value(pbt::Case &c, Options &opt, const std::optional<T> &v, const std::string &name) {
  if (v) {
    opt.push_back({name, pbt::str(*v)});
    c.label(name);
  }
}
void compareFiles(pbt::Case &c, int code, const Bytes &before, const Bytes &after, const Bytes &got) {
  if (!before) {
    c.label("refused");
    c.require(code != 0, "code", "the input cannot be converted, but the tool succeeds");
    c.require(!got, "written", "the input cannot be converted, but a file is written");
    return;
  }
  c.require(code == 0, "code", pbt::str("the tool fails with ", code));
  c.require(got.has_value(), "missing", "the tool succeeds but writes no file");
  if (got == before || got == after) {
    return;
  }
  size_t at = 0;
  while (at < got->size() && at < before->size() && (*got)[at] == (*before)[at]) {
    at++;
  }
  size_t from = at < 40 ? 0 : at - 40;
  c.fail("content", pbt::str("the written file (", got->size(), " bytes) differs from what the options ask for (",
                             before->size(), " bytes) at byte ", at, ": '", got->substr(from, 80), "', expected '",
                             before->substr(from, 80), "'"));
}
void encoder(pbt::Source &s, pbt::Case &c) {
  freshFolder();
  Settings o;
  std::string d;
  auto kind = s.weighted({3, 3, 5, 4, 4, 1});
  static const char *names[] = {"pattern (ahap)", "document (ivs)", "recording (wav)", "ohm", "hjif", "other"};
  c.label(names[kind]);
  std::string file = s.pick(std::vector<std::string>{"in/x", "in/a b", "in/x.y"});
  switch (kind) {
  case 0:
    file += s.pick(std::vector<std::string>{".ahap", ".json"});
    store(file, ahapText(s));
    break;
  case 1:
    file += s.pick(std::vector<std::string>{".ivs", ".xml"});
    store(file, ivsText(s));
    break;
  case 2:
    file += ".wav";
    writeWav(s, file, static_cast<int>(s.range(1, 2)));
    break;
  case 3: {
    file += ".ohm";
    std::string head = "OHM ";
    std::string text = "some words";
    OHMData ohm(head, 1, text);
    for (int n = static_cast<int>(s.range(0, 3)), i = 0; i < n; i++) {
      OHMData::HapticElementMetadata e;
      e.elementDescription = s.pick(std::vector<std::string>{"Vibration effect", "Force effect", "Temperature effect", "else"});
      int channels = static_cast<int>(s.range(0, 2));
      std::string el = pbt::str("e", i);
      switch (s.range(0, 3)) {
      case 0:
        el += ".ahap";
        store("in/" + el, ahapText(s));
        break;
      case 1:
        el += ".ivs";
        store("in/" + el, ivsText(s));
        break;
      default:
        el += ".wav";
        writeWav(s, "in/" + el, s.chance(1, 4) ? 1 : std::max(1, channels));
        break;
      }
      if (s.chance(1, 12)) {
        damage(s, c, "in/" + el);
        c.label("bad element");
      } else if (s.chance(1, 20)) {
        rename(("in/" + el).c_str(), ("in/" + el + "x").c_str());
        el += "x";
        c.label("element of unknown kind");
      }
      e.elementFilename = el;
      e.numHapticChannels = static_cast<short>(channels);
      for (int k = 0; k < channels; k++) {
        OHMData::HapticChannelMetadata m;
        m.channelDescription = pbt::str("ch", k);
        m.gain = static_cast<float>(s.range(1, 8)) / 4;
        m.bodyPartMask = static_cast<OHMData::Body>(s.range(0, 7));
        e.channelsMetadata.push_back(m);
      }
      d += pbt::str("element ", el, " of ", channels, " channels\n");
      ohm.addHapticElementMetadata(e);
    }
    ohm.writeFile(file);
    break;
  }
  case 4: {
    file += ".hjif";
    auto h = experience(s, d);
    IOJson::writeFile(h, file);
    break;
  }
  default:
    file += s.pick(std::vector<std::string>{"", ".txt", ".WAV", ".hmpg", "."});
    store(file, "something");
    break;
  }
  if (s.chance(1, 12)) {
    damage(s, c, file);
  }
  c.describe(d);
  o.binary = s.chance(1, 3);
  o.refactor = s.chance(1, 4);
  o.linearize = s.chance(1, 4);
  if (s.chance(1, 4)) {
    o.ts = s.pick(std::vector<int>{8000, 480, 500, 1});
    if (*o.ts == 1 || kind == 2 || kind == 3) {
      o.ts = 8000; // blocks of whole ticks
    }
  }
  if (o.binary && s.chance(1, 2)) {
    o.packet = static_cast<int>(s.range(20, 500));
  }
  if (kind == 2 || kind == 3) {
    if (s.chance(1, 3)) {
      o.kb = static_cast<int>(s.range(1, 64));
    }
    if (s.chance(1, 3)) {
      o.bu = static_cast<int>(s.range(1, 60));
    }
    if (s.chance(1, 3)) {
      o.bl = 1 << s.range(4, 9);
    }
    if (s.chance(1, 3)) {
      o.cf = s.pick(std::vector<double>{0, 40, 72.5, 150.25});
    }
    o.wavelet = !s.chance(1, 4);
    o.vectorial = !s.chance(1, 4);
  }
  Options opt;
  opt.push_back({s.boolean() ? "-f" : "--file", file});
  std::string to = o.binary ? "out.hmpg" : "out.hjif";
  if (!s.chance(1, 6)) {
    to = s.pick(std::vector<std::string>{"y.hjif", "y.hmpg", "in/z", "a b.hjif"});
    opt.push_back({s.boolean() ? "-o" : "--output", to});
  } else {
    c.label("default output");
  }
  flag(s, opt, o.binary, "-b", "--binary");
  flag(s, opt, o.refactor, "-r", "--refactor");
  flag(s, opt, o.linearize, "-l", "--linearize");
  flag(s, opt, !o.wavelet, "--disable-wavelet", "");
  flag(s, opt, !o.vectorial, "--disable-vectorial", "");
  value(c, opt, o.kb, "-kb");
  value(c, opt, o.bu, "-bu");
  value(c, opt, o.bl, "-bl");
  value(c, opt, o.cf, "-cf");
  value(c, opt, o.ts, "-ts");
  value(c, opt, o.packet, "--packet_duration");
  c.label(o.binary, "binary");
  c.label(o.refactor, "refactored");
  c.label(o.linearize, "linearized");
  c.label(!o.wavelet, "no wavelets");
  c.label(!o.vectorial, "no curves");
  auto before = encoded(file, o, "exp/a");
  c.nontrivial(opt.size() > 2);
  if (s.chance(1, 20)) {
    Options help = opt;
    help.push_back({s.boolean() ? "-h" : "--help"});
    c.require(runTool(s, c, Encoder_main, "Encoder", help) == 0 && !slurp(to), "help", "asked for help, the tool fails or writes");
  }
  int code = runTool(s, c, Encoder_main, "Encoder", opt);
  auto got = slurp(to);
  auto after = encoded(file, o, "exp/b");
  compareFiles(c, code, before, after, got);
  if (before && s.chance(1, 8)) { // to a place where no file can be
    opt.erase(opt.begin() + (to.substr(0, 4) == "out." ? 1 : 0), opt.end());
    opt = {{"-f", file}, {"-o", "nowhere/x"}};
    flag(s, opt, o.binary, "-b", "--binary");
    c.require(runTool(s, c, Encoder_main, "Encoder", opt) != 0, "unwritable", "the output cannot be written, but the tool succeeds");
    c.label("unwritable");
  }
}
// -- Decoder --------------------------------------------------------------------------------
auto decodedStream(const std::string &file, const std::string &to) -> Bytes {
  Quiet q;
  ht::Haptics h;
  struct stat st {};
  if (stat(file.c_str(), &st) != 0 || !S_ISREG(st.st_mode) || !IOStream::readFile(file, h)) {
    return {};
  }
  unlink(to.c_str());
  IOJson::writeFile(h, to);
  return slurp(to);
}
void decoder(pbt::Source &s, pbt::Case &c) {
  freshFolder();
  std::string d;
  auto h = experience(s, d);
  c.describe(d);
  std::string file = s.pick(std::vector<std::string>{"in/x.hmpg", "in/x", "in/a b.bin"});
  IOStream::writeFile(h, file, static_cast<int>(s.range(20, 500)));
  bool bad = s.chance(1, 8);
  if (bad) {
    if (s.boolean()) {
      auto b = slurp(file).value_or("");
      store(file, b.substr(0, static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 1))));
      c.label("cut input");
    } else {
      damage(s, c, file);
    }
  }
  std::string to = s.pick(std::vector<std::string>{"y.hjif", "in/z"});
  Options opt = {{s.boolean() ? "-f" : "--file", file}, {s.boolean() ? "-o" : "--output", to}};
  auto before = decodedStream(file, "exp/a");
  int code = runTool(s, c, Decoder_main, "Decoder", opt);
  auto got = slurp(to);
  compareFiles(c, code, before, decodedStream(file, "exp/b"), got);
  c.nontrivial(h.getPerceptionAt(0).getChannelAt(0).getBandsSize() > 1);
  switch (s.range(0, 12)) {
  case 0:
    unlink(to.c_str());
    opt.erase(opt.begin() + s.range(0, 1));
    c.require(runTool(s, c, Decoder_main, "Decoder", opt) != 0 && !slurp(to), "incomplete", "without input or output the tool succeeds");
    c.label("incomplete command");
    break;
  case 1:
    unlink(to.c_str());
    opt.push_back({s.boolean() ? "-h" : "--help"});
    c.require(runTool(s, c, Decoder_main, "Decoder", opt) == 0 && !slurp(to), "help", "asked for help, the tool fails or writes");
    c.label("help");
    break;
  case 2:
    if (before) {
      opt[1][1] = "nowhere/x";
      c.require(runTool(s, c, Decoder_main, "Decoder", opt) != 0, "unwritable", "the output cannot be written, but the tool succeeds");
      c.label("unwritable");
    }
    break;
  default:
    break;
  }
}
// -- Synthesizer ----------------------------------------------------------------------------
void synthesizer(pbt::Source &s, pbt::Case &c) {
  freshFolder();
  std::string d;
  auto h = experience(s, d);
  c.describe(d);
  bool binary = s.boolean();
  std::string file = s.pick(std::vector<std::string>{"in/x.hjif", "in/x", "in/a b.hmpg"});
  if (binary) {
    IOStream::writeFile(h, file, static_cast<int>(s.range(20, 500)));
    c.label("binary");
  } else {
    IOJson::writeFile(h, file);
  }
  if (s.chance(1, 10)) {
    if (s.boolean()) {
      auto b = slurp(file).value_or("");
      store(file, b.substr(0, static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 2))));
      c.label("cut input");
    } else {
      damage(s, c, file);
    }
  }
  int fs = 8000;
  int pad = 0;
  Options opt = {{s.boolean() ? "-f" : "--file", file}};
  flag(s, opt, binary, "-b", "--binary");
  std::string to = "out.wav";
  if (!s.chance(1, 6)) {
    to = s.pick(std::vector<std::string>{"y.wav", "in/z", "a b.wav", "v1.2/y.wav"});
    mkdir("v1.2", 0755);
    opt.push_back({s.boolean() ? "-o" : "--output", to});
  } else {
    c.label("default output");
  }
  if (s.chance(5, 6)) {
    fs = s.pick(std::vector<int>{500, 1000, 2000, 0, -8000});
    opt.push_back({s.boolean() ? "-fs" : "--sampling_frequency", pbt::str(fs)});
    c.label("sampling frequency");
  }
  if (s.chance(1, 3)) {
    pad = static_cast<int>(s.range(-5, 60));
    opt.push_back({"--pad", pbt::str(pad)});
    c.label("padding");
  }
  bool ohm = s.chance(1, 3);
  flag(s, opt, ohm, "--generate_ohm", "");
  c.label(ohm, "ohm");
  // what the options ask for
  Bytes wav;
  Bytes meta;
  auto slash = to.rfind('/');
  std::string base = slash == std::string::npos ? to : to.substr(slash + 1);
  std::string ohmFile = (slash == std::string::npos ? "" : to.substr(0, slash + 1)) + base.substr(0, base.rfind('.')) + ".ohm";
  {
    Quiet q;
    ht::Haptics e;
    struct stat st {};
    if (fs > 0 && stat(file.c_str(), &st) == 0 && S_ISREG(st.st_mode) && (binary ? IOStream::readFile(file, e) : IOJson::loadFile(file, e))) {
      e.linearize();
      double length = Helper::getTimeLength(e);
      if (length / e.getTimescaleOrDefault() * fs > 8000) {
        pbt::Case::discard();
      }
      std::string x = "exp/a.wav";
      if (Helper::playFile(e, length, fs, std::max(pad, 0), x)) {
        wav = slurp(x);
        auto m = e.extractMetadataToOHM(base);
        m.writeFile("exp/a.ohm");
        meta = slurp("exp/a.ohm");
      }
    }
  }
  int code = runTool(s, c, Synthesizer_main, "Synthesizer", opt);
  compareFiles(c, code, wav, wav, slurp(to));
  if (wav && ohm) {
    c.require(slurp(ohmFile) == meta, "ohm", "the metadata file is missing or differs");
  } else {
    c.require(!slurp(ohmFile), "ohm", "a metadata file nobody asked for");
  }
  c.nontrivial(wav && wav->size() > 44);
  switch (s.range(0, 12)) {
  case 0:
    unlink(to.c_str());
    opt.erase(opt.begin());
    c.require(runTool(s, c, Synthesizer_main, "Synthesizer", opt) != 0 && !slurp(to), "incomplete", "without input the tool succeeds");
    c.label("incomplete command");
    break;
  case 1:
    unlink(to.c_str());
    opt.push_back({s.boolean() ? "-h" : "--help"});
    c.require(runTool(s, c, Synthesizer_main, "Synthesizer", opt) == 0 && !slurp(to), "help", "asked for help, the tool fails or writes");
    c.label("help");
    break;
  case 2:
    if (wav) {
      Options o = {{"-f", file}, {"-o", "nowhere/x"}};
      flag(s, o, binary, "-b", "--binary");
      c.require(runTool(s, c, Synthesizer_main, "Synthesizer", o) != 0, "unwritable", "the output cannot be written, but the tool succeeds");
      c.label("unwritable");
    }
    break;
  default:
    break;
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C26";
  cfg.rule = "Command lines of the three tools (documented options in any order and spelling, default and given "
             "output names) over generated patterns, documents, recordings, OHM sets, HJIF and MIHS files, "
             "some of them missing or damaged; the exit code and every byte written are compared with the "
             "conversion the options ask for. Non-trivial: more options than input and output (encoder), "
             "an experience with content (decoder), a signal (synthesizer).";
  cfg.assumptions = {"numeric option values are numbers", "input files are not changed while a tool runs"};
  cfg.targets = {{"encoder", encoder, 3000, 60000}, {"decoder", decoder, 1500, 30000}, {"synthesizer", synthesizer, 2000, 40000}};
  return pbt::run(cfg, argc, argv);
}
