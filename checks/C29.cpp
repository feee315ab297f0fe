// C29: what is wrong with a document is reported, element by element, in the words of the
// conformance suite (scripts/RM_submission/conformance_config.json).
#include "conform.h"
#include "hjifdoc.h"
#include <iostream>
#include <sstream>

using namespace hm;
using namespace hd;
using haptics::io::IOJson;

int Encoder_main(int argc, char **argv);

namespace {
using Lines = std::vector<std::string>;
const std::string FINAL = "The HJIF input file is not conformant to the specification.";

struct Catch { // what goes to the error stream
  std::ostringstream err;
  std::ostringstream out;
  std::streambuf *oldErr;
  std::streambuf *oldOut;
  Catch() : oldErr(std::cerr.rdbuf(err.rdbuf())), oldOut(std::cout.rdbuf(out.rdbuf())) {}
  ~Catch() {
    std::cerr.rdbuf(oldErr);
    std::cout.rdbuf(oldOut);
  }
  [[nodiscard]] auto lines() const -> Lines {
    Lines l;
    std::istringstream in(err.str());
    for (std::string t; std::getline(in, t);) {
      if (t.rfind("The following JSON schema is invalid: ", 0) != 0) { // there are no schema files here
        l.push_back(t);
      }
    }
    return l;
  }
};
auto join(const Lines &v) -> std::string {
  std::string o;
  for (auto &x : v) {
    o += "\n  " + x;
  }
  return o.empty() ? " nothing" : o;
}
// lines of a that are not in b
auto minus(Lines a, Lines b) -> Lines {
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  Lines o;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o));
  return o;
}

// ---- the report an experience deserves ------------------------------------------------------
auto nameOf(ht::PerceptionModality m) -> std::string {
  static const char *names[] = {"Other",       "Pressure", "Acceleration", "Velocity", "Position",
                                "Temperature", "Vibrotactile", "Water",    "Wind",     "Force",
                                "Vibrotactile Texture", "Stiffness", "Friction", "Electrotactile"};
  return names[static_cast<int>(m)];
}
auto nameOf(ht::BandType b) -> std::string {
  static const char *names[] = {"Transient", "Curve", "VectorialWave", "WaveletWave"};
  return names[static_cast<int>(b)];
}
auto digits(const std::string &t) -> bool {
  return !t.empty() && std::all_of(t.begin(), t.end(), [](char c) { return c >= '0' && c <= '9'; });
}
auto report(ht::Haptics &h) -> Lines {
  Lines out;
  auto say = [&](bool wrong, const std::string &text) {
    if (wrong) {
      out.push_back(text);
    }
  };
  const std::string v = h.getVersion();
  const bool form = (v.size() == 4 || (v.size() == 6 && v[4] == '-' && digits(v.substr(5)))) && digits(v.substr(0, 4));
  say(!form, "Invalid version, the value should match the following format: XXXX or XXXX-Y, where XXXX is the year of "
             "publication and Y is the amendment number, if any.");
  if (form) {
    const bool early = std::stoi(v.substr(0, 4)) < 2023;
    say(early, "Invalid version, the year should be greater or equal to 2023.");
    say(!early && v.size() == 6 && v[5] == '0', "Invalid version, the amendment should be greater than 0.");
  }
  const bool simple = h.getProfile() == "Simple Parametric";
  const bool main = h.getProfile() == "Main";
  say(!simple && !main, R"(Invalid profile, possible values are "Main" and "Simple Parametric".)");
  const int level = h.getLevel();
  say(level != 1 && level != 2, "Invalid level, possible values are 1 and 2.");
  const std::string date = h.getDate();
  bool okDate = false;
  for (size_t i = 0; i + 4 <= date.size(); i++) {
    okDate = okDate || digits(date.substr(i, 4));
  }
  say(!okDate, "Invalid date, the date format shall conform to ISO 8601 series.");
  if (h.getTimescale().has_value()) {
    say(simple && *h.getTimescale() != 1000, "Invalid timescale. The simple parametric profile only supports a value of 1000.");
    say(main && *h.getTimescale() > 48000,
        "Invalid timescale. The main profile only supports a value lower than or equal to 48000");
  }
  // how many of a list have this id
  auto count = [](size_t n, auto &&idAt, int id) {
    int k = 0;
    for (size_t i = 0; i < n; i++) {
      k += idAt(static_cast<int>(i)) == id ? 1 : 0;
    }
    return k;
  };
  auto avatarId = [&](int i) { return h.getAvatarAt(i).getId(); };
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) {
    auto &a = h.getAvatarAt(i);
    say(a.getId() == 0, "Invalid avatar id. Id 0 is reserved for unspecified avatars.");
    say(count(h.getAvatarsSize(), avatarId, a.getId()) > 1, pbt::str("Invalid avatar id. Id ", a.getId(), " is not unique."));
    say(a.getMesh().has_value() && a.getMesh()->empty(), "Invalid URI, the URI format shall conform to RFC3986.");
  }
  for (int p = 0; p < (int)h.getPerceptionsSize(); p++) {
    auto &q = h.getPerceptionAt(p);
    const int id = q.getId();
    auto pid = [&](int i) { return h.getPerceptionAt(i).getId(); };
    say(count(h.getPerceptionsSize(), pid, id) > 1, pbt::str("Invalid perception id. Id ", id, " is not unique."));
    auto m = q.getPerceptionModality();
    say(simple && level == 1 && m != ht::PerceptionModality::Force && m != ht::PerceptionModality::Vibrotactile &&
            m != ht::PerceptionModality::Stiffness && m != ht::PerceptionModality::VibrotactileTexture,
        pbt::str("The perception modality ", nameOf(m), " of perception ", id,
                 " is not allowed for the level 1 of the Simple Parametric profile."));
    say(q.getAvatarId() != 0 && count(h.getAvatarsSize(), avatarId, q.getAvatarId()) == 0,
        pbt::str("Avatar id ", q.getAvatarId(), " of perception ", id, " does not exist."));
    const auto scheme = q.getEffectSemanticScheme();
    say(scheme.has_value() && !(scheme->size() > 6 && (scheme->substr(0, 4) == "urn:" || scheme->substr(0, 4) == "URN:")),
        pbt::str("The semantic scheme URN of perception ", id, " is invalid."));
    say(level == 1 && q.getChannelsSize() > 128,
        pbt::str("The number of channels in perception ", id, " is too high. The level 1 only supports up to 128 channels."));
    auto deviceId = [&](int i) { return q.getReferenceDeviceAt(i).getId(); };
    for (int i = 0; i < (int)q.getReferenceDevicesSize(); i++) {
      auto &r = q.getReferenceDeviceAt(i);
      say(count(q.getReferenceDevicesSize(), deviceId, r.getId()) > 1,
          pbt::str("Invalid reference device id for perception ", id, ".Id ", r.getId(), " is not unique."));
      auto above = [](const std::optional<float> &a, const std::optional<float> &b) {
        return a.has_value() && b.has_value() && *a > *b;
      };
      const std::string head = pbt::str("Invalid reference device ", r.getId(), " for perception ", id, ". The ");
      say(above(r.getMinimumFrequency(), r.getMaximumFrequency()),
          head + "maximum frequency is smaller than the minimum frequency");
      say(above(r.getMinimumFrequency(), r.getResonanceFrequency()),
          head + "resonance frequency is smaller than the minimum frequency");
      say(above(r.getResonanceFrequency(), r.getMaximumFrequency()),
          head + "resonance frequency is greater than the maximum frequency");
    }
    auto libraryId = [&](int i) { return q.getBasisEffectAt(i).getId(); };
    for (int i = 0; i < (int)q.getEffectLibrarySize(); i++) {
      auto &e = q.getBasisEffectAt(i);
      say(simple && e.getEffectType() == ht::EffectType::Composite,
          pbt::str("The Simple Parametric profile does not support Composite Effect in perception ", id, " for effect ",
                   e.getId(), "."));
      say(count(q.getEffectLibrarySize(), libraryId, e.getId()) > 1,
          pbt::str("Invalid library effect id for perception ", id, ".Id ", e.getId(), " is not unique."));
    }
    auto channelId = [&](int i) { return q.getChannelAt(i).getId(); };
    for (int c = 0; c < (int)q.getChannelsSize(); c++) {
      auto &ch = q.getChannelAt(c);
      const std::string at = pbt::str("channel ", ch.getId(), " of perception ", id);
      say(count(q.getChannelsSize(), channelId, ch.getId()) > 1,
          pbt::str("Invalid channel id for perception ", id, ".Id ", ch.getId(), " is not unique."));
      auto rd = ch.getReferenceDeviceId();
      say(rd.has_value() && count(q.getReferenceDevicesSize(), deviceId, rd.value_or(0)) == 0,
          pbt::str("Reference device id ", rd.value_or(0), " of ", at, " does not exist."));
      auto d = ch.getDirection();
      if (d.has_value()) {
        double n = std::sqrt(d->X * d->X + d->Y * d->Y + d->Z * d->Z) / 127.0;
        say(n < 0.99 || n > 1.01, "The direction in " + at + " is not a unit vector.");
      }
      say(level == 1 && ch.getBandsSize() > 7,
          "The number of bands in " + at + " is too high. The level 1 only supports up to 7 bands per channel.");
      auto res = ch.getActuatorResolution();
      auto tg = ch.getActuatorTarget();
      if (res.has_value()) {
        say(res->X < 0 || res->Y < 0 || res->Z < 0,
            "The actuator resolution in " + at + " is invalid. It contains a negative value.");
        for (auto &t : tg.value_or(std::vector<ht::Vector>{})) {
          say(t.X < 0 || t.Y < 0 || t.Z < 0 || t.X > res->X || t.Y > res->Y || t.Z > res->Z,
              "One actuator target is out of the actuator resolution range in " + at + ".");
        }
      } else {
        say(tg.has_value(), "The actuator resolution in " + at + " was not specified. The actuator target can not be defined.");
      }
      for (int b = 0; b < (int)ch.getBandsSize(); b++) {
        auto &bd = ch.getBandAt(b);
        const bool wavelet = bd.getBandType() == ht::BandType::WaveletWave;
        say(bd.getBandType() != ht::BandType::Curve && bd.getCurveType().has_value(),
            "The curve type should only be specified for Curve Bands in " + at + ".");
        const int l = bd.getBlockLengthOrDefault();
        say(wavelet && !(l > 0 && (l & (l - 1)) == 0),
            "The block length of the wavelet band should be a power of two in " + at + ".");
        say(wavelet && simple, "The Simple Parametric profile does not support Wavelet bands in " + at + ".");
        say(bd.getLowerFrequencyLimit() > bd.getUpperFrequencyLimit(),
            pbt::str("Invalid band in perception ", id, ". The upper limit frequency is smaller than the lower limit frequency"));
        for (int e = 0; e < (int)bd.getEffectsSize(); e++) {
          auto &ef = bd.getEffectAt(e);
          say(simple && ef.getEffectType() == ht::EffectType::Composite,
              "The Simple Parametric profile does not support Composite Effect in " + at + ".");
          say(wavelet && ef.getKeyframesSize() > 0, "Effects in wavelet bands sould not contain keyframes in " + at + ".");
          say(ef.getEffectType() == ht::EffectType::Reference && count(q.getEffectLibrarySize(), libraryId, ef.getId()) == 0,
              pbt::str("Effect id ", ef.getId(), " of band ", nameOf(bd.getBandType()), " of ", at,
                       " can't be found in the effect library."));
          if (ef.getSemantic().has_value() && (!scheme.has_value() || *scheme == cf::MPEG_SCHEME)) {
            auto &kw = semanticKeywords();
            say(std::find(kw.begin(), kw.end(), *ef.getSemantic()) == kw.end(),
                "An effect in " + at + " uses invalid semantic keywords.");
          }
        }
      }
    }
  }
  return out;
}

void compare(pbt::Case &c, const char *tag, const Lines &got, const Lines &want) {
  Lines more = minus(got, want);
  Lines less = minus(want, got);
  c.require(more.empty() && less.empty(), tag,
            (more.empty() ? std::string() : "reported, but not so:" + join(more)) +
                (less.empty() ? std::string() : std::string(more.empty() ? "" : "\n") + "not reported:" + join(less)));
}

void rules(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h = cf::genConformant(s, {});
  int n = static_cast<int>(s.weighted({1, 8, 4, 2}));
  for (int i = 0; i < n; i++) {
    cf::perturb(s, h);
  }
  bool open = false;
  for (auto &r : cf::broken(h, open)) {
    c.label("broken: " + r);
  }
  if (open) {
    pbt::Case::discard();
  }
  Lines want = report(h);
  c.nontrivial(!want.empty());
  c.label(want.size() > 1, "several lines");
  c.describe("report:" + join(want));
  c.describe(dump(h));
  Lines got;
  {
    Catch k;
    IOJson::semanticConformanceCheckExperience(h);
    got = k.lines();
  }
  compare(c, "check-report", got, want);
  // loading: of what the writer made of it
  std::string path = pbt::scratch() + "/f.hjif";
  bool ok = false;
  ht::Haptics back;
  {
    Catch k;
    IOJson::writeFile(h, path);
  }
  {
    Catch k;
    ok = IOJson::loadFile(path, back);
    got = k.lines();
  }
  // what was left out of it is another matter (documents)
  for (auto it = got.begin(); it != got.end();) {
    bool left = it->rfind("Missing", 0) == 0 || it->find(": not an object") != std::string::npos;
    it = left ? got.erase(it) : it + 1;
  }
  want = report(back);
  if (!want.empty()) {
    want.push_back(FINAL);
    c.require(!got.empty() && got.back() == FINAL, "load-final", join(got));
  }
  c.label(want.empty(), "loads");
  compare(c, "load-report", got, want);
  c.require(ok == want.empty(), "load-verdict", pbt::str(ok));
}

// every element that is left out, and every document that is refused, is reported
auto load(const std::string &t, Lines &lines) -> bool {
  std::string path = pbt::scratch() + "/l.hjif";
  writeBytes(path, t);
  ht::Haptics h;
  Catch k;
  bool ok = IOJson::loadFile(path, h);
  lines = k.lines();
  return ok;
}
void documents(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h = cf::genConformant(s, {});
  rj::Document d = toDoc(h);
  auto elems = collectAll(d);
  if (elems.empty()) {
    pbt::Case::discard();
  }
  rj::Document m;
  m.CopyFrom(d, m.GetAllocator());
  size_t n = static_cast<size_t>(s.range(0, (int64_t)elems.size() - 1));
  Elem e = elems[n];
  Elem f = collectAll(m)[n];
  auto &obj = (*e.array)[e.index];
  std::string what;
  auto req = required(e);
  if (req.empty() || s.chance(1, 3)) {
    switch (s.range(0, 2)) {
    case 0:
      obj.SetNull();
      break;
    case 1:
      obj.SetInt(1);
      break;
    default:
      obj.SetArray();
      break;
    }
    what = e.kind + " that is not an object";
  } else {
    std::string key = s.pick(req);
    if (!obj.HasMember(key.c_str())) {
      pbt::Case::discard();
    }
    if (s.boolean()) {
      obj.RemoveMember(key.c_str());
      what = e.kind + " without " + key;
    } else {
      std::string how;
      spoil(s, d, obj, key, how);
      what = e.kind + " whose " + key + " is " + how;
    }
  }
  f.array->Erase(f.array->Begin() + f.index);
  c.nontrivial();
  c.label("malformed " + e.kind);
  c.describe(what);
  c.describe("document: " + text(d).substr(0, 4000));
  Lines with;
  Lines without;
  load(text(d), with);
  load(text(m), without);
  Lines gone = minus(without, with);
  Lines more = minus(with, without);
  c.require(gone.empty(), "lost", "without it, but not with it, is reported:" + join(gone));
  c.require(more.size() == 1 && (more[0].rfind("Missing", 0) == 0 || more[0].rfind("Invalid", 0) == 0), "left-out",
            "a " + what + " is reported as:" + join(more));
}

void refused(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h = cf::genConformant(s, {});
  rj::Document d = toDoc(h);
  std::string t;
  c.nontrivial();
  switch (s.range(0, 2)) {
  case 0: {
    static const std::vector<std::string> keys = {"version", "profile", "level", "date",
                                                  "description", "avatars", "perceptions"};
    d.RemoveMember(s.pick(keys).c_str());
    t = text(d);
    break;
  }
  case 1: {
    t = text(d);
    t = t.substr(0, static_cast<size_t>(s.range(0, (int64_t)t.size() - 1)));
    break;
  }
  default: {
    static const std::vector<std::string> docs = {"[]", "null", "1", "\"x\"", "{}", "true", "[{}]", ""};
    t = s.pick(docs);
    break;
  }
  }
  c.describe(t.substr(0, 600));
  Lines l;
  bool ok = load(t, l);
  c.require(!ok, "accepted", "a malformed document was loaded");
  c.require(!l.empty(), "silent", "refused without a word");
  ht::Haptics x;
  Catch k;
  c.require(!IOJson::loadFile(pbt::scratch() + "/missing/none.hjif", x) && !k.lines().empty(), "missing-file", "");
}

// the conformance suite runs the encoder
void tool(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h = cf::genConformant(s, {});
  for (int i = static_cast<int>(s.range(0, 2)); i > 0; i--) {
    cf::perturb(s, h);
  }
  std::string in = pbt::scratch() + "/in.hjif";
  std::string out = pbt::scratch() + "/out.hjif";
  Lines want;
  Lines got;
  ht::Haptics back;
  bool ok = false;
  {
    Catch k;
    IOJson::writeFile(h, in);
  }
  {
    Catch k;
    ok = IOJson::loadFile(in, back);
    want = k.lines();
  }
  c.nontrivial(!want.empty());
  c.describe("report:" + join(want));
  c.describe(dump(h));
  std::vector<std::string> args = {"Encoder", "-f", in, "-o", out};
  std::vector<char *> argv;
  for (auto &a : args) {
    argv.push_back(a.data());
  }
  int rc = 0;
  {
    Catch k;
    rc = Encoder_main(static_cast<int>(argv.size()), argv.data());
    got = k.lines();
  }
  c.require((rc == 0) == ok, "tool-verdict", pbt::str("exit code ", rc));
  c.label(ok, "encoded");
  if (!ok) { // an encoded experience may be reported on by the writer
    compare(c, "tool-report", got, want);
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C29";
  cfg.rule = "'rules': conformant experiences with 0-3 changes at places the rules speak about; the report of the check and "
             "of loading against the lines the experience deserves, written out independently in the words of the conformance "
             "suite; 'documents': one element made malformed: one line more than without the element; 'refused': cut and garbled "
             "texts; 'tool': the same reports from the encoder. Non-trivial: a rule is broken (rules, tool), every document.";
  cfg.assumptions = {"the JSON schema files are not part of the repository, so schema validation reports nothing",
                     "the order of the lines is left open, but for the last one"};
  cfg.targets = {{"rules", rules, 9000, 200000},
                 {"documents", documents, 5000, 80000},
                 {"refused", refused, 3000, 40000},
                 {"tool", tool, 3000, 40000}};
  return pbt::run(cfg, argc, argv);
}
