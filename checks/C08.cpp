// C08: loading an .hjif document accepts exactly the conformant ones, and leaves out malformed
// elements without disturbing the others.
#include "conform.h"
#include "hjifdoc.h"

using namespace hm;
using haptics::io::IOJson;
using namespace hd;
using cf::perturb;

namespace {
auto join(const std::vector<std::string> &v) -> std::string {
  std::string o;
  for (auto &x : v) {
    o += (o.empty() ? "" : ", ") + x;
  }
  return o.empty() ? "none" : o;
}

// ---- verdict on experiences --------------------------------------------------------------
auto judge(pbt::Case &c, ht::Haptics &h) -> void {
  bool open = false;
  auto rules = cf::broken(h, open);
  for (auto &r : rules) {
    c.label("broken: " + r);
  }
  c.label(rules.empty(), "conformant");
  if (open) {
    pbt::Case::discard();
  }
  c.describe("rules broken: " + join(rules));
  c.describe(dump(h));
  bool ok = IOJson::semanticConformanceCheckExperience(h);
  c.require(ok == rules.empty(), "check-verdict",
            ok ? "the check passes an experience that breaks: " + join(rules)
               : std::string("the check refuses an experience that breaks no rule"));
  // the loader comes to the same verdict (the writer replaces bad versions and dates, drops curve
  // types and keyframes where they make no sense, and cannot carry the timeline of a composite)
  auto writable = [](const std::string &r) {
    return r != "version" && r != "date" && r != "curve type of a band that is no curve" &&
           r != "keyframes in a wavelet band" && r != "mesh URI" && r != "block length a power of two";
  };
  bool all = true;
  for (auto &r : rules) {
    all = all && writable(r);
  }
  if (all) {
    std::string path = pbt::scratch() + "/f.hjif";
    IOJson::writeFile(h, path);
    ht::Haptics back;
    bool loaded = IOJson::loadFile(path, back);
    c.require(loaded == rules.empty(), "load-verdict",
              loaded ? "a document that breaks rules was loaded: " + join(rules)
                     : std::string("a conformant document was refused"));
  }
}

void verdict(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h = cf::genConformant(s, {});
  int n = static_cast<int>(s.weighted({1, 8, 4}));
  for (int i = 0; i < n; i++) {
    perturb(s, h);
  }
  c.nontrivial(h.getPerceptionsSize() > 0);
  judge(c, h);
}

// ---- documents ---------------------------------------------------------------------------
struct Loaded {
  bool ok;
  Flat flat;
};
auto load(const std::string &t, const std::string &name = "l.hjif") -> Loaded {
  std::string path = pbt::scratch() + "/" + name;
  writeBytes(path, t);
  ht::Haptics h;
  bool ok = IOJson::loadFile(path, h);
  return {ok, flatten(h)};
}

void documents(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h = cf::genConformant(s, {});
  rj::Document d = toDoc(h);
  auto elems = collectAll(d);
  if (elems.empty()) {
    pbt::Case::discard();
  }
  rj::Document m; // the document with the whole element or member taken out
  m.CopyFrom(d, m.GetAllocator());
  size_t n = static_cast<size_t>(s.range(0, (int64_t)elems.size() - 1));
  Elem e = elems[n];
  Elem f = collectAll(m)[n];
  auto &obj = (*e.array)[e.index];
  c.nontrivial();
  std::string what;
  auto req = required(e);
  bool skipElement = false;
  int mode = static_cast<int>(s.range(0, 3));
  if (mode == 0) { // not an object at all
    int k = static_cast<int>(s.range(0, 2));
    if (k == 0) {
      obj.SetNull();
    } else if (k == 1) {
      obj.SetInt(1);
    } else {
      obj.SetArray();
    }
    what = e.kind + " that is not an object";
    skipElement = true;
  } else if (mode == 1 && !req.empty()) {
    std::string key = s.pick(req);
    if (!obj.HasMember(key.c_str())) {
      pbt::Case::discard();
    }
    if (s.boolean()) {
      obj.RemoveMember(key.c_str());
      what = e.kind + " without " + key;
    } else {
      std::string how;
      spoil(s, d, obj, key, how);
      what = e.kind + " whose " + key + " is " + how;
    }
    skipElement = true;
  } else { // optional member of the wrong type counts as absent
    std::vector<std::string> opt;
    for (auto it = obj.MemberBegin(); it != obj.MemberEnd(); ++it) {
      std::string k = it->name.GetString();
      if (std::find(req.begin(), req.end(), k) == req.end() && k != "keyframes" &&
          k != "reference_devices" && !(e.kind == "effect" && k == "id")) {
        opt.push_back(k);
      }
    }
    if (opt.empty()) {
      pbt::Case::discard();
    }
    std::string key = s.pick(opt);
    std::string how;
    spoil(s, d, obj, key, how);
    (*f.array)[f.index].RemoveMember(key.c_str());
    what = "optional " + key + " of a " + e.kind + " is " + how;
  }
  if (skipElement) {
    f.array->Erase(f.array->Begin() + f.index);
  }
  c.label(skipElement ? "malformed " + e.kind : "malformed optional member of a " + e.kind);
  std::string a = text(d);
  std::string b = text(m);
  c.describe(what);
  c.describe("document: " + a.substr(0, 4000));
  Loaded x = load(a);
  Loaded y = load(b);
  c.label(y.ok, "the rest is conformant");
  c.require(x.ok == y.ok, "malformed-verdict",
            pbt::str("with a ", what, " loading returns ", x.ok, ", without it ", y.ok));
  std::string diffs = diffExact(y.flat, x.flat);
  c.require(diffs.empty(), "malformed-disturbs",
            "a " + what + " changes more than its own absence: " + diffs);
}

// top-level members are required and of their type; the document is an object; text that is cut
// short or followed by rubbish is refused
void toplevel(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h = cf::genConformant(s, {});
  rj::Document d = toDoc(h);
  c.nontrivial();
  std::string t;
  switch (std::max<int64_t>(0, s.range(0, 9) - 5)) {
  case 0: {
    static const std::vector<std::string> keys = {"version", "profile", "level",       "date",      "description",
                                                  "avatars", "syncs",   "perceptions", "timescale"};
    std::string k = s.pick(keys);
    std::string how = "missing";
    if (k == "timescale" || s.boolean()) {
      d.RemoveMember(k.c_str());
    } else {
      spoil(s, d, d, k, how);
    }
    if (k == "level" && how == "a number") {
      pbt::Case::discard();
    }
    c.describe(k + " is " + how);
    t = text(d);
    break;
  }
  case 1: {
    t = text(d);
    t = t.substr(0, static_cast<size_t>(s.range(0, (int64_t)t.size() - 1)));
    c.describe("cut after " + std::to_string(t.size()) + " bytes");
    break;
  }
  case 2: {
    t = text(d);
    t = s.boolean() ? t + "}" : "[" + t + "]";
    break;
  }
  case 3: {
    static const std::vector<std::string> docs = {"[]", "null", "1", "\"x\"", "{}", "true", "[{}]"};
    t = s.pick(docs);
    break;
  }
  default: {
    d["level"].SetInt64(s.range(2, 1000) * 256 + s.range(1, 2));
    t = text(d);
    c.describe("level " + std::to_string(d["level"].GetInt64()));
    break;
  }
  }
  c.describe(t.substr(0, 600));
  c.require(!load(t).ok, "accepted", "a malformed document was loaded");
}

// texts of version, date and URI
void texts(pbt::Source &s, pbt::Case &c) {
  static const std::string al = "0123456789-2023-abT: ";
  std::string v;
  if (s.boolean()) {
    v = std::to_string(s.range(2015, 2030));
    for (int i = (int)s.range(0, 3); i > 0; i--) {
      v += al[s.range(0, (int64_t)al.size() - 1)];
    }
  } else {
    for (int i = (int)s.range(0, 8); i > 0; i--) {
      v += al[s.range(0, (int64_t)al.size() - 1)];
    }
  }
  auto digit = [](char ch) { return ch >= '0' && ch <= '9'; };
  bool year = v.size() >= 4 && digit(v[0]) && digit(v[1]) && digit(v[2]) && digit(v[3]);
  bool want = year && std::stoi(v.substr(0, 4)) >= 2023 &&
              (v.size() == 4 || (v.size() == 6 && v[4] == '-' && v[5] >= '1' && v[5] <= '9'));
  c.nontrivial(year);
  c.label(want, "valid version");
  c.describe("version '" + v + "'");
  c.require(IOJson::versionCheck(v, false) == want, "version-check",
            "version '" + v + "' should be " + (want ? "valid" : "invalid"));
  bool four = false;
  for (size_t i = 0; i + 4 <= v.size(); i++) {
    four = four || (digit(v[i]) && digit(v[i + 1]) && digit(v[i + 2]) && digit(v[i + 3]));
  }
  c.require(IOJson::dateCheck(v, false) == four, "date-check", "date '" + v + "'");
  std::string u = genString(s, 40, false);
  c.require(IOJson::URICheck(u, false) == !u.empty(), "uri-check", "URI '" + u + "'");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C08";
  cfg.rule = "'verdict': conformant experiences with 0-2 changes at places the rules speak about "
             "(ids, references, profile, level, limits, targets, keywords...), judged against the "
             "rules written out independently, by the check and by write+load; 'documents': one "
             "element or member of a conformant document made malformed, compared with the document "
             "without it; 'toplevel': missing or mistyped top-level members, cut and garbled texts; "
             "'texts': version, date and URI strings. Non-trivial: at least one perception (verdict), "
             "a version starting with a year (texts), every document.";
  cfg.assumptions = {"the JSON schema files are not part of the repository, so schema validation accepts everything",
                     "128 channels at level 1 and more than 63 bands at level 2 are left open (message and limit disagree)"};
  cfg.targets = {{"verdict", verdict, 9000, 200000},
                 {"documents", documents, 4000, 80000},
                 {"toplevel", toplevel, 4000, 60000},
                 {"texts", texts, 6000, 200000}};
  return pbt::run(cfg, argc, argv);
}
