// C07: an .hjif file written from an experience reads back as the same experience.
#include "conform.h"
#include <IOHaptics/include/IOJson.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>

using namespace hm;
using haptics::io::IOJson;

static void trimZeros(std::vector<unsigned char> &v) {
  while (!v.empty() && v.back() == 0) {
    v.pop_back();
  }
}

// what an .hjif file keeps
static auto expectJson(ht::Haptics h) -> Flat {
  h.setTimescale(h.getTimescaleOrDefault());
  for (int p = 0; p < (int)h.getPerceptionsSize(); p++) {
    auto &q = h.getPerceptionAt(p);
    for (int c = 0; c < (int)q.getChannelsSize(); c++) {
      for (int b = 0; b < (int)q.getChannelAt(c).getBandsSize(); b++) {
        auto &bd = q.getChannelAt(c).getBandAt(b);
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
          auto w = bd.getEffectAt(e).getWaveletBitstream();
          trimZeros(w);
          bd.getEffectAt(e).setWaveletBitstream(w);
        }
      }
    }
  }
  return flatten(h);
}

static auto slurpable(const std::string &path) -> std::string { return readBytes(path); }

static void roundTrip(pbt::Case &c, ht::Haptics &h) {
  labels(h, c);
  c.nontrivial(h.getPerceptionsSize() > 0 && countEffects(h) > 0);
  c.describe(dump(h));
  Flat before = flatten(h);
  std::string path = pbt::scratch() + "/f.hjif";
  IOJson::writeFile(h, path);
  std::string changed = diffExact(before, flatten(h));
  c.require(changed.empty(), "input-modified", "writing changed the experience: " + changed);
  ht::Haptics back;
  c.require(IOJson::loadFile(path, back), "load-refused",
            "loading a conformant file was refused:\n" + slurpable(path).substr(0, 3000));
  std::string d = diffExact(expectJson(h), flatten(back));
  c.require(d.empty(), "differs", "experience differs after write+load: " + d);
  ht::Haptics used = h; // what the object held before does not matter
  c.require(IOJson::loadFile(path, used), "load-refused", "refused when loaded into an object with content");
  d = diffExact(flatten(back), flatten(used));
  c.require(d.empty(), "used", "differs when loaded into an object with content: " + d);
  std::string again = pbt::scratch() + "/g.hjif";
  IOJson::writeFile(back, again);
  c.require(slurpable(path) == slurpable(again), "not-a-fixpoint",
            "writing the loaded experience gives another file");
}

static void general(pbt::Source &s, pbt::Case &c) {
  cf::Opt o;
  o.optionalTimescale = true;
  ht::Haptics h = cf::genConformant(s, o);
  c.label(!h.getTimescale().has_value(), "no timescale");
  roundTrip(c, h);
}

// version and date that cannot be written are replaced by valid ones, everything else is kept
static void repaired(pbt::Source &s, pbt::Case &c) {
  cf::Opt o;
  ht::Haptics h = cf::genConformant(s, o);
  static const std::vector<std::string> badVersions = {"",      "RM0",   "2022", "20231", "2023-0",
                                                       "2023-", "x2023", "1999", "2023-12"};
  static const std::vector<std::string> badDates = {"", "now", "12.4.23", "202", "--"};
  Flat want = expectJson(h);
  std::string version = s.pick(badVersions);
  std::string date = s.pick(badDates);
  h.setVersion(version);
  h.setDate(date);
  c.nontrivial();
  c.describe("version '" + version + "' date '" + date + "'");
  std::string path = pbt::scratch() + "/f.hjif";
  IOJson::writeFile(h, path);
  ht::Haptics back;
  c.require(IOJson::loadFile(path, back), "load-refused", "the file written was refused");
  c.require(IOJson::versionCheck(back.getVersion(), false), "bad-version", back.getVersion());
  c.require(back.getVersion() == "2023", "version", "fallback version " + back.getVersion());
  c.require(back.getDate().size() >= 10 && back.getDate().substr(0, 2) == "20", "date",
            "the date written instead is " + back.getDate());
  std::string d = diff(want, flatten(back), nullptr, [](const std::string &p) {
    return p == "version" || p == "date";
  });
  c.require(d.empty(), "differs", d);
}

// the text coding of wavelet blocks: bits, lowest of each byte first, six per character, highest
// first, in the usual base 64 alphabet
static void base64(pbt::Source &s, pbt::Case &c) {
  std::vector<unsigned char> bytes;
  int n = static_cast<int>(s.edgy(0, 300));
  const bool sparse = s.chance(1, 3);
  for (int i = 0; i < n; i++) {
    bytes.push_back(static_cast<unsigned char>(sparse && !s.chance(1, 8) ? 0 : s.range(0, 255)));
  }
  c.nontrivial(n > 0);
  c.label(n > 0 && bytes.back() == 0, "ends with zero bytes");
  std::vector<unsigned char> in = bytes;
  std::vector<unsigned char> bits;
  std::vector<unsigned char> text;
  IOJson::bytes2bits(in, bits);
  std::vector<unsigned char> want;
  for (auto b : bytes) {
    for (int j = 0; j < 8; j++) {
      want.push_back((b >> j) & 1);
    }
  }
  while (!want.empty() && want.back() == 0) {
    want.pop_back();
  }
  c.require(bits == want, "bytes-to-bits", pbt::str("bits of ", n, " bytes differ"));
  IOJson::bits2base64(bits, text);
  static const std::string alphabet =
      "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string wantText;
  for (size_t i = 0; i < want.size(); i += 6) {
    int v = 0;
    for (size_t j = i; j < i + 6; j++) {
      v = 2 * v + (j < want.size() ? want[j] : 0);
    }
    wantText += alphabet[v];
  }
  std::string got(text.begin(), text.end());
  c.require(got == wantText, "bits-to-text", "text is " + got + " instead of " + wantText);
  std::vector<unsigned char> bits2;
  IOJson::base642bits(text, bits2);
  c.require(bits2 == want, "text-to-bits", "bits read from the text differ");
  std::vector<unsigned char> back;
  IOJson::bits2bytes(bits2, back);
  trimZeros(bytes);
  c.require(back == bytes, "bits-to-bytes", "bytes differ after the text coding");
}

// a coded wavelet block decodes to the same coefficients after a round trip through text
static void block(pbt::Source &s, pbt::Case &c) {
  const int n = 1 << s.range(4, 8);
  const int maxBits = static_cast<int>(s.range(1, 15));
  std::vector<int> b(n, 0);
  const int nz = static_cast<int>(s.range(0, 12));
  for (int i = 0; i < nz; i++) {
    b[s.range(0, n - 1)] = static_cast<int>(s.range(-(1 << maxBits) + 1, (1 << maxBits) - 1));
  }
  c.nontrivial(nz > 0);
  std::vector<unsigned char> stream;
  haptics::spiht::Spiht_Enc enc;
  enc.encodeEffect(b, maxBits, 0.5, stream);
  ht::Haptics h("2023", "2023-01-01", "x");
  std::string profile = "Main";
  h.setProfile(profile);
  h.setLevel(1);
  h.setTimescale(1000);
  ht::Perception p(0, 0, "p", ht::PerceptionModality::Vibrotactile);
  ht::Channel ch(0, "c", 1, 1, 0);
  ht::Band bd(ht::BandType::WaveletWave, 0, 1000);
  bd.setBlockLength(n);
  ht::Effect e(0, ht::EffectType::Basis);
  e.setWaveletBitstream(stream);
  bd.addEffect(e);
  ch.addBand(bd);
  p.addChannel(ch);
  h.addPerception(p);
  std::string path = pbt::scratch() + "/f.hjif";
  IOJson::writeFile(h, path);
  ht::Haptics back;
  c.require(IOJson::loadFile(path, back), "load-refused", "refused");
  auto got = back.getPerceptionAt(0).getChannelAt(0).getBandAt(0).getEffectAt(0).getWaveletBitstream();
  std::vector<int> o1;
  std::vector<int> o2;
  double sc1 = 0;
  double sc2 = 0;
  int n1 = 0;
  int n2 = 0;
  haptics::spiht::Spiht_Dec d1;
  haptics::spiht::Spiht_Dec d2;
  d1.decodeEffect(stream, o1, n, sc1, n1);
  d2.decodeEffect(got, o2, n, sc2, n2);
  c.require(o1 == o2 && sc1 == sc2 && n1 == n2, "decodes-differently",
            pbt::str("a block of ", stream.size(), " bytes decodes differently after a round trip"));
}

// fixed inputs of the known findings (never generated)
static auto minimal() -> ht::Haptics {
  ht::Haptics h("2023", "2023-01-01", "x");
  std::string profile = "Main";
  h.setProfile(profile);
  h.setLevel(1);
  h.setTimescale(1000);
  return h;
}
static void findingComposite(pbt::Source &, pbt::Case &c) {
  ht::Haptics h = minimal();
  ht::Perception p(0, 0, "p", ht::PerceptionModality::Vibrotactile);
  ht::Channel ch(0, "c", 1, 1, 0);
  ht::Band bd(ht::BandType::Transient, 0, 1000);
  ht::Effect e(0, ht::EffectType::Composite);
  ht::Effect t(5, ht::EffectType::Basis);
  t.addKeyframe(0, 0.5, 100);
  e.addTimelineEffect(t);
  bd.addEffect(e);
  ch.addBand(bd);
  p.addChannel(ch);
  h.addPerception(p);
  roundTrip(c, h);
}
static void findingLibraryBlock(pbt::Source &, pbt::Case &c) {
  ht::Haptics h = minimal();
  ht::Perception p(0, 0, "p", ht::PerceptionModality::Vibrotactile);
  ht::Effect e(0, ht::EffectType::Basis);
  e.setId(1);
  std::vector<unsigned char> w = {1, 2, 3};
  e.setWaveletBitstream(w);
  p.addBasisEffect(e);
  h.addPerception(p);
  roundTrip(c, h);
}

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C07";
  cfg.rule = "Random conformant experiences (both profiles and levels, every optional field present or "
             "absent, strings of any bytes but NUL, positions up to 2^30) are written as .hjif, loaded "
             "and written again; 'base64' codes byte strings as text; 'block' takes coded wavelet "
             "blocks through a file. Non-trivial: at least one effect in a band (general), one byte or "
             "one coefficient (others).";
  cfg.assumptions = {"no composite effects and no wavelet blocks in libraries: the format has no field for them here",
                     "trailing zero bytes of a wavelet block are not kept (they decode alike)"};
  cfg.targets = {{"general", general, 9000, 200000},
                 {"repaired", repaired, 1500, 30000},
                 {"base64", base64, 6000, 100000},
                 {"block", block, 1500, 40000},
                 {"findingComposite", findingComposite, 0, 0},
                 {"findingLibraryBlock", findingLibraryBlock, 0, 0}};
  return pbt::run(cfg, argc, argv);
}
