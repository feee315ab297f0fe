// C16: experiences as ordered structures under any history of edits (model-based).
#include "model.h"
#include <algorithm>

using namespace hm;

namespace {
using Meta = std::map<std::string, std::string>;
struct MEffect {
  int pos = 0;
  std::string dump;
};
struct MBand {
  Meta meta;
  std::vector<MEffect> effects;
};
struct MChannel {
  Meta meta;
  std::vector<int> vertices;
  std::vector<MBand> bands;
};
struct MPerception {
  Meta meta;
  std::vector<std::string> devices;
  std::vector<std::string> library;
  std::vector<MChannel> channels;
};
struct MHaptics {
  std::vector<MPerception> perceptions;
  std::vector<std::string> avatars;
  std::vector<std::string> syncs;
};
auto text(const Flat &f) -> std::string {
  std::string s;
  for (auto &x : f) {
    s += x.first + "=" + x.second.show() + ";";
  }
  return s;
}
auto metaOf(const Flat &f) -> Meta { // entries of this level only
  Meta m;
  for (auto &x : f) {
    if (x.first.find('.') == x.first.rfind('.')) {
      m[leaf(x.first)] = x.second.show();
    }
  }
  return m;
}
auto snap(ht::Effect &e) -> MEffect {
  Flat f;
  flattenEffect(e, "e", f);
  return {e.getPosition(), text(f)};
}
auto snap(ht::Band &b) -> MBand {
  MBand m;
  Flat f;
  flattenBand(b, "b", f);
  m.meta = metaOf(f);
  m.meta.erase("ne");
  for (size_t i = 0; i < b.getEffectsSize(); i++) {
    m.effects.push_back(snap(b.getEffectAt(static_cast<int>(i))));
  }
  return m;
}
auto snap(ht::Channel &c) -> MChannel {
  MChannel m;
  Flat f;
  flattenChannel(c, "c", f, false);
  m.meta = metaOf(f);
  m.meta.erase("nb");
  m.meta.erase("nv");
  for (size_t i = 0; i < c.getVerticesSize(); i++) {
    m.vertices.push_back(c.getVertexAt(static_cast<int>(i)));
  }
  for (size_t i = 0; i < c.getBandsSize(); i++) {
    m.bands.push_back(snap(c.getBandAt(static_cast<int>(i))));
  }
  return m;
}
auto snap(ht::Perception &p) -> MPerception {
  MPerception m;
  for (size_t i = 0; i < p.getChannelsSize(); i++) {
    m.channels.push_back(snap(p.getChannelAt(static_cast<int>(i))));
  }
  for (size_t i = 0; i < p.getEffectLibrarySize(); i++) {
    m.library.push_back(snap(p.getBasisEffectAt(static_cast<int>(i))).dump);
  }
  ht::Perception q = p;
  q.clearChannels();
  q.clearEffectLibrary();
  Flat f;
  flattenPerception(q, "p", f);
  m.meta = metaOf(f);
  for (auto k : {"nr", "nl", "nc"}) {
    m.meta.erase(k);
  }
  std::map<std::string, std::string> dev;
  std::vector<std::string> order;
  for (auto &x : f) {
    size_t a = x.first.find('.');
    size_t b = x.first.rfind('.');
    if (a != b) {
      std::string key = x.first.substr(0, b);
      if (dev.count(key) == 0) {
        order.push_back(key);
      }
      dev[key] += leaf(x.first) + "=" + x.second.show() + ";";
    }
  }
  for (auto &k : order) {
    m.devices.push_back(dev[k]);
  }
  return m;
}
auto avatarText(ht::Avatar a) -> std::string {
  return pbt::str(a.getId(), "/", a.getLod(), "/", static_cast<int>(a.getType()), "/", a.getMesh().value_or("-"));
}
auto syncText(ht::Sync a) -> std::string {
  return pbt::str(a.getTimestamp(), "/", a.getTimescale().has_value() ? static_cast<long>(a.getTimescale().value()) : -1);
}
auto show(const Meta &m) -> std::string {
  std::string s;
  for (auto &x : m) {
    s += x.first + "=" + x.second + " ";
  }
  return s;
}
void same(pbt::Case &c, const MBand &w, const MBand &g, const std::string &at) {
  c.require(w.meta == g.meta, "band-metadata", at + ": " + show(g.meta) + " expected " + show(w.meta));
  std::string a;
  std::string b;
  for (auto &e : w.effects) {
    a += pbt::str(e.pos, " ");
  }
  for (auto &e : g.effects) {
    b += pbt::str(e.pos, " ");
  }
  c.require(a == b, "effect-order", at + ": effects at " + b + "expected " + a);
  for (size_t i = 0; i < w.effects.size(); i++) {
    c.require(w.effects[i].dump == g.effects[i].dump, "effect", pbt::str(at, " effect ", i, ": ", g.effects[i].dump, " expected ", w.effects[i].dump));
  }
}
void same(pbt::Case &c, const MChannel &w, const MChannel &g, const std::string &at) {
  c.require(w.meta == g.meta, "channel-metadata", at + ": " + show(g.meta) + " expected " + show(w.meta));
  c.require(w.vertices == g.vertices, "vertices", at);
  c.require(w.bands.size() == g.bands.size(), "bands", pbt::str(at, ": ", g.bands.size(), " bands, expected ", w.bands.size()));
  for (size_t i = 0; i < w.bands.size(); i++) {
    same(c, w.bands[i], g.bands[i], pbt::str(at, " band ", i));
  }
}
void same(pbt::Case &c, const MHaptics &w, ht::Haptics &h) {
  c.require(h.getPerceptionsSize() == w.perceptions.size(), "perceptions", pbt::str(h.getPerceptionsSize(), " perceptions, expected ", w.perceptions.size()));
  for (size_t i = 0; i < w.perceptions.size(); i++) {
    const auto &p = w.perceptions[i];
    MPerception g = snap(h.getPerceptionAt(static_cast<int>(i)));
    std::string at = pbt::str("perception ", i);
    c.require(p.meta == g.meta, "perception-metadata", at + ": " + show(g.meta) + " expected " + show(p.meta));
    c.require(p.devices == g.devices, "devices", at);
    c.require(p.library == g.library, "library", at);
    c.require(p.channels.size() == g.channels.size(), "channels", pbt::str(at, ": ", g.channels.size(), " channels, expected ", p.channels.size()));
    for (size_t k = 0; k < p.channels.size(); k++) {
      same(c, p.channels[k], g.channels[k], pbt::str(at, " channel ", k));
    }
  }
  c.require(h.getAvatarsSize() == w.avatars.size() && h.getSyncsSize() == w.syncs.size(), "lists", "avatars or syncs");
  for (size_t i = 0; i < w.avatars.size(); i++) {
    c.require(avatarText(h.getAvatarAt(static_cast<int>(i))) == w.avatars[i], "avatar", pbt::str(i));
  }
  for (size_t i = 0; i < w.syncs.size(); i++) {
    c.require(syncText(h.getSyncsAt(static_cast<int>(i))) == w.syncs[i], "sync", pbt::str(i));
  }
}
// index of an existing entry, or one just outside
auto idx(pbt::Source &s, size_t n) -> int {
  return s.chance(1, 6) ? s.pick<int>({-1, static_cast<int>(n), static_cast<int>(n) + 3, -7})
                        : (n == 0 ? 0 : static_cast<int>(s.range(0, static_cast<int64_t>(n) - 1)));
}
auto in(int i, size_t n) -> bool { return i >= 0 && i < static_cast<int>(n); }

void tree(pbt::Source &s, pbt::Case &c) {
  Dom d;
  d.maxPerceptions = 1;
  d.maxChannels = d.maxBands = 2;
  d.maxEffects = 3;
  d.maxKeyframes = 2;
  d.maxString = 6;
  d.anyByte = false;
  d.maxPosition = 12;
  d.composites = true;
  d.libraryTimelines = true;
  d.effectIds = true;
  ht::Haptics h;
  MHaptics m;
  auto genP = [&]() {
    for (int t = 0; t < 4; t++) {
      ht::Haptics x = genHaptics(s, d);
      if (x.getPerceptionsSize() > 0) {
        return x.getPerceptionAt(0);
      }
    }
    return ht::Perception(5, 6, "q", ht::PerceptionModality::Force);
  };
  auto genE = [&]() {
    ht::Effect e = genBasisEffect(s, d, ht::BandType::VectorialWave, static_cast<int>(s.range(0, 12)));
    return e;
  };
  int steps = static_cast<int>(s.range(1, 25));
  int done = 0;
  int inserted = 0;
  for (int step = 0; step < steps; step++) {
    int op = static_cast<int>(s.range(0, 26));
    if (m.perceptions.empty() && op > 3) {
      op = 0;
    }
    std::string what;
    auto note = [&](const std::string &w) { what = w; };
    int pi = m.perceptions.empty() ? 0 : static_cast<int>(s.range(0, static_cast<int64_t>(m.perceptions.size()) - 1));
    auto *mp = m.perceptions.empty() ? nullptr : &m.perceptions[static_cast<size_t>(pi)];
    int ci = mp == nullptr || mp->channels.empty() ? -1 : static_cast<int>(s.range(0, static_cast<int64_t>(mp->channels.size()) - 1));
    auto *mc = ci < 0 ? nullptr : &mp->channels[static_cast<size_t>(ci)];
    int bi = mc == nullptr || mc->bands.empty() ? -1 : static_cast<int>(s.range(0, static_cast<int64_t>(mc->bands.size()) - 1));
    auto *mb = bi < 0 ? nullptr : &mc->bands[static_cast<size_t>(bi)];
    auto P = [&]() -> ht::Perception & { return h.getPerceptionAt(pi); };
    auto C = [&]() -> ht::Channel & { return P().getChannelAt(ci); };
    auto B = [&]() -> ht::Band & { return C().getBandAt(bi); };
    bool ret = true;
    bool want = true;
    if (op == 0) {
      note("add perception");
      auto p = genP();
      h.addPerception(p);
      m.perceptions.push_back(snap(p));
    } else if (op == 1) {
      int i = idx(s, m.perceptions.size());
      note(pbt::str("remove perception ", i));
      ret = h.removePerceptionAt(i);
      want = in(i, m.perceptions.size());
      if (want) {
        m.perceptions.erase(m.perceptions.begin() + i);
      }
    } else if (op == 2) {
      ht::Avatar a(static_cast<int>(s.range(0, 9)), static_cast<int>(s.range(0, 3)), ht::AvatarType::Custom);
      if (s.boolean()) {
        a.setMesh("m");
      }
      note("add avatar");
      h.addAvatar(a);
      m.avatars.push_back(avatarText(a));
    } else if (op == 3) {
      ht::Sync y(static_cast<int>(s.range(0, 99)), s.boolean() ? std::optional<unsigned>(7) : std::nullopt);
      note("add sync");
      h.addSync(y);
      m.syncs.push_back(syncText(y));
    } else if (op == 4) {
      int i = idx(s, m.perceptions.size());
      auto p = genP();
      note(pbt::str("replace perception ", i));
      ret = h.replacePerceptionAt(i, p);
      want = in(i, m.perceptions.size());
      if (want) {
        m.perceptions[static_cast<size_t>(i)] = snap(p);
      }
    } else if (op == 5) {
      int i = idx(s, m.perceptions.size());
      auto p = genP();
      note(pbt::str("replace metadata of perception ", i));
      ret = h.replacePerceptionMetadataAt(i, p);
      want = in(i, m.perceptions.size());
      if (want) {
        auto &t = m.perceptions[static_cast<size_t>(i)];
        MPerception n = snap(p);
        n.channels = t.channels;
        if (n.meta["prio"] == "-") {
          n.meta["prio"] = t.meta["prio"];
        }
        n.meta["uexp"] = Val::num(p.getUnitExponent().value_or(-3)).show();
        n.meta["puexp"] = Val::num(p.getPerceptionUnitExponent().value_or(0)).show();
        t = n;
      }
    } else if (op <= 7) {
      auto p = genP();
      ht::Channel ch(static_cast<int>(s.range(0, 9)), "x", 1, 1, 1);
      if (p.getChannelsSize() > 0) {
        ch = p.getChannelAt(0);
      }
      note("add channel");
      P().addChannel(ch);
      mp->channels.push_back(snap(ch));
    } else if (op == 8) {
      int i = idx(s, mp->channels.size());
      note(pbt::str("remove channel ", i));
      ret = P().removeChannelAt(i);
      want = in(i, mp->channels.size());
      if (want) {
        mp->channels.erase(mp->channels.begin() + i);
      }
    } else if (op <= 10) {
      int i = idx(s, mp->channels.size());
      auto ch = genChannelMeta(s, d, static_cast<int>(s.range(0, 9)), {1, 2});
      for (int k = static_cast<int>(s.range(0, 2)); k > 0; k--) {
        auto b = genBand(s, d, 1000, {1, 2});
        ch.addBand(b);
      }
      want = in(i, mp->channels.size());
      MChannel n = snap(ch);
      if (op == 9) {
        note(pbt::str("replace channel ", i));
        ret = P().replaceChannelAt(i, ch);
        if (want) {
          mp->channels[static_cast<size_t>(i)] = n;
        }
      } else {
        note(pbt::str("replace metadata of channel ", i));
        ret = P().replaceChannelMetadataAt(i, ch);
        if (want) {
          auto &t = mp->channels[static_cast<size_t>(i)];
          n.bands = t.bands;
          for (auto k : {"prio", "refdev"}) {
            if (n.meta[k] == "-") {
              n.meta[k] = t.meta[k];
            }
          }
          t = n;
        }
      }
    } else if (op == 11) {
      note("clear channels");
      P().clearChannels();
      mp->channels.clear();
    } else if (op == 12) {
      auto e = genE();
      note("add library effect");
      P().addBasisEffect(e);
      mp->library.push_back(snap(e).dump);
    } else if (op == 13) {
      if (s.boolean()) {
        note("clear library");
        P().clearEffectLibrary();
        mp->library.clear();
      } else {
        note("clear devices");
        P().clearReferenceDevices();
        mp->devices.clear();
      }
    } else if (op == 14) {
      auto r = genRefDevice(s, d, static_cast<int>(s.range(0, 9)));
      note("add device");
      ht::Perception alone(0, 0, "", ht::PerceptionModality::Other);
      alone.addReferenceDevice(r);
      if (s.boolean()) {
        P().addReferenceDevice(r);
      } else {
        P().addReferenceDevice({std::make_tuple(
            r.getId(), r.getName(), r.getBodyPartMask(), r.getMaximumFrequency(), r.getMinimumFrequency(),
            r.getResonanceFrequency(), r.getMaximumAmplitude(), r.getImpedance(), r.getMaximumVoltage(),
            r.getMaximumCurrent(), r.getMaximumDisplacement(), r.getWeight(), r.getSize(), r.getCustom(), r.getType())});
      }
      mp->devices.push_back(snap(alone).devices.at(0));
    } else if (mc == nullptr) {
      continue;
    } else if (op == 15) {
      int v = static_cast<int>(s.range(-5, 500));
      if (s.chance(1, 5)) {
        note("clear vertices");
        C().clearVertices();
        mc->vertices.clear();
      } else {
        note("add vertex");
        C().addVertex(v);
        mc->vertices.push_back(v);
      }
    } else if (op == 16) {
      auto b = genBand(s, d, 1000, {1, 2});
      note("add band");
      C().addBand(b);
      mc->bands.push_back(snap(b));
    } else if (op == 17) {
      auto t = static_cast<ht::BandType>(s.range(0, 3));
      int lo = static_cast<int>(s.range(0, 50));
      int hi = static_cast<int>(s.range(51, 500));
      ht::Band *g = nullptr;
      ht::Band b;
      switch (s.range(0, 3)) {
      case 0:
        g = C().generateBand();
        break;
      case 1:
        g = C().generateBand(t, lo, hi);
        b.setBandType(t);
        b.setLowerFrequencyLimit(lo);
        b.setUpperFrequencyLimit(hi);
        break;
      case 2:
        g = C().generateBand(t, ht::CurveType::Akima, lo, hi);
        b.setBandType(t);
        b.setCurveType(ht::CurveType::Akima);
        b.setLowerFrequencyLimit(lo);
        b.setUpperFrequencyLimit(hi);
        break;
      default:
        g = C().generateBand(t, 64, lo, hi);
        b.setBandType(t);
        b.setBlockLength(64);
        b.setLowerFrequencyLimit(lo);
        b.setUpperFrequencyLimit(hi);
        break;
      }
      note("generate band");
      mc->bands.push_back(snap(b));
      auto e = genE();
      g->addEffect(e); // the pointer is the new band of the channel
      mc->bands.back().effects.push_back(snap(e));
    } else if (op == 18) {
      int i = idx(s, mc->bands.size());
      note(pbt::str("remove band ", i));
      ret = C().removeBandAt(i);
      want = in(i, mc->bands.size());
      if (want) {
        mc->bands.erase(mc->bands.begin() + i);
      }
    } else if (op <= 20) {
      int i = idx(s, mc->bands.size());
      auto b = genBand(s, d, 1000, {1, 2});
      want = in(i, mc->bands.size());
      MBand n = snap(b);
      if (op == 19) {
        note(pbt::str("replace band ", i));
        ret = C().replaceBandAt(i, b);
        if (want) {
          mc->bands[static_cast<size_t>(i)] = n;
        }
      } else {
        note(pbt::str("replace metadata of band ", i));
        ret = C().replaceBandMetadataAt(i, b);
        if (want) {
          auto &t = mc->bands[static_cast<size_t>(i)];
          t.meta["btype"] = n.meta["btype"];
          t.meta["low"] = n.meta["low"];
          t.meta["up"] = n.meta["up"];
          if (n.meta["prio"] != "-") {
            t.meta["prio"] = n.meta["prio"];
          }
          if (b.getBandType() == ht::BandType::Curve) {
            t.meta["curve"] = Val::num(static_cast<int>(b.getCurveTypeOrDefault())).show();
          }
          if (b.getBandType() == ht::BandType::WaveletWave) {
            t.meta["block"] = Val::num(b.getBlockLengthOrDefault()).show();
          }
        }
      }
    } else if (mb == nullptr) {
      continue;
    } else if (op <= 23) {
      auto e = genE();
      note(pbt::str("add effect at ", e.getPosition()));
      B().addEffect(e);
      auto it = mb->effects.begin();
      while (it != mb->effects.end() && it->pos <= e.getPosition()) {
        it++;
      }
      inserted += it != mb->effects.end() ? 1 : 0;
      mb->effects.insert(it, snap(e));
    } else if (op == 24) {
      int i = idx(s, mb->effects.size());
      auto e = genE();
      want = in(i, mb->effects.size());
      if (want) { // keep the band ordered
        e.setPosition(mb->effects[static_cast<size_t>(i)].pos);
      }
      note(pbt::str("replace effect ", i));
      ret = B().replaceEffectAt(i, e);
      if (want) {
        mb->effects[static_cast<size_t>(i)] = snap(e);
      }
    } else {
      int i = idx(s, mb->effects.size());
      note(pbt::str("remove effect ", i));
      ret = B().removeEffectAt(i);
      want = in(i, mb->effects.size());
      if (want) {
        mb->effects.erase(mb->effects.begin() + i);
      }
    }
    c.describe(pbt::str("[", pi, ".", ci, ".", bi, "] ", what));
    c.label(!want, "outside");
    c.require(ret == want, "return-value", what + (ret ? " reports success" : " reports failure"));
    same(c, m, h);
    done++;
  }
  c.label(inserted > 0, "insertion before others");
  c.nontrivial(done > 3);
  // a copy is independent
  ht::Haptics copy = h;
  if (copy.getPerceptionsSize() > 0) {
    ht::Channel ch(1, "new", 1, 1, 1);
    copy.getPerceptionAt(0).addChannel(ch);
    same(c, m, h);
  }
}

struct MKf {
  std::optional<int> pos;
  std::optional<float> amp;
  std::optional<int> freq;
};
void keyframes(pbt::Source &s, pbt::Case &c) {
  ht::Effect e(0, ht::EffectType::Basis);
  std::vector<MKf> m;
  std::vector<int> timeline;
  int steps = static_cast<int>(s.range(1, 25));
  bool hit = false;
  for (int i = 0; i < steps; i++) {
    std::optional<float> amp = s.chance(1, 6) ? std::nullopt : std::optional<float>(static_cast<float>(s.range(-8, 8)) / 8);
    std::optional<int> fr = s.chance(1, 6) ? std::nullopt : std::optional<int>(static_cast<int>(s.range(1, 300)));
    int pos = static_cast<int>(s.range(0, 15));
    auto first = [&]() {
      return std::find_if(m.begin(), m.end(), [&](const MKf &k) { return k.pos.has_value() && *k.pos >= pos; });
    };
    bool ret = true;
    bool want = true;
    std::string what;
    switch (s.range(0, 7)) {
    case 0: {
      what = pbt::str("append keyframe ", pos);
      std::optional<int> p = s.chance(1, 10) ? std::nullopt : std::optional<int>(pos);
      if (s.boolean()) {
        e.addKeyframe(p, amp, fr);
      } else {
        ht::Keyframe k(p, amp, fr);
        e.addKeyframe(k);
      }
      m.push_back({p, amp, fr});
      break;
    }
    case 1:
    case 2: {
      bool over = s.boolean();
      bool two = over && s.boolean();
      what = pbt::str("amplitude at ", pos, over ? " (override)" : " (keep)");
      ret = two ? e.addAmplitudeAt(amp, pos) : e.addAmplitudeAt(amp, pos, over);
      auto it = first();
      if (it != m.end() && *it->pos == pos && over) {
        it->amp = amp;
        hit = true;
      } else if (it != m.end() && *it->pos == pos) {
        m.insert(it + 1, {pos, amp, std::nullopt});
        hit = true;
      } else {
        m.insert(it, {pos, amp, std::nullopt});
      }
      break;
    }
    case 3:
    case 4: {
      what = pbt::str("frequency at ", pos);
      ret = e.addFrequencyAt(fr, pos);
      auto it = first();
      if (it != m.end() && *it->pos == pos) {
        it->freq = fr;
        hit = true;
      } else {
        m.insert(it, {pos, std::nullopt, fr});
      }
      break;
    }
    case 5: {
      int k = idx(s, m.size());
      what = pbt::str("replace keyframe ", k);
      ht::Keyframe kf(pos, amp, fr);
      ret = e.replaceKeyframeAt(k, kf);
      want = in(k, m.size());
      if (want) {
        m[static_cast<size_t>(k)] = {pos, amp, fr};
      }
      break;
    }
    case 6: {
      int k = idx(s, m.size());
      what = pbt::str("remove keyframe ", k);
      ret = e.removeKeyframeAt(k);
      want = in(k, m.size());
      if (want) {
        m.erase(m.begin() + k);
      }
      break;
    }
    default: {
      what = "add timeline effect";
      ht::Effect t(pos, ht::EffectType::Basis);
      e.addTimelineEffect(t);
      timeline.push_back(pos);
      break;
    }
    }
    c.describe(what);
    c.require(ret == want, "return-value", what + (ret ? " reports success" : " reports failure"));
    c.require(e.getKeyframesSize() == m.size() && e.getTimelineSize() == timeline.size(), "count", what);
    for (size_t k = 0; k < m.size(); k++) {
      auto &g = e.getKeyframeAt(static_cast<int>(k));
      c.require(g.getRelativePosition() == m[k].pos && g.getAmplitudeModulation() == m[k].amp &&
                    g.getFrequencyModulation() == m[k].freq,
                "keyframe", pbt::str(what, ": keyframe ", k, " at ", g.getRelativePosition().value_or(-1), " expected at ", m[k].pos.value_or(-1)));
    }
    for (size_t k = 0; k < timeline.size(); k++) {
      c.require(e.getTimelineEffectAt(static_cast<int>(k)).getPosition() == timeline[k], "timeline", what);
    }
  }
  c.nontrivial(m.size() > 1);
  c.label(hit, "same position");
}

auto lengthOf(ht::Effect &e, ht::BandType t, double transient) -> double {
  std::optional<int> last;
  for (size_t i = 0; i < e.getKeyframesSize(); i++) {
    auto p = e.getKeyframeAt(static_cast<int>(i)).getRelativePosition();
    if (p.has_value()) {
      last = p;
    }
  }
  if (!last.has_value() || t == ht::BandType::WaveletWave) {
    return 0;
  }
  return *last + (t == ht::BandType::Transient ? transient : 0);
}
void overlap(pbt::Source &s, pbt::Case &c) {
  ht::Channel ch(0, "c", 1, 1, 1);
  struct Span {
    double from, to;
  };
  std::vector<std::pair<ht::BandType, std::vector<Span>>> m;
  int nb = static_cast<int>(s.range(0, 4));
  auto ts = static_cast<unsigned>(s.pick<int>({1000, 8000, 480, 44100}));
  for (int b = 0; b < nb; b++) {
    auto t = static_cast<ht::BandType>(s.range(0, 3));
    ht::Band band(t, 0, 100);
    std::vector<Span> spans;
    double end = 0;
    for (int k = static_cast<int>(s.range(0, 3)); k > 0; k--) {
      ht::Effect e(static_cast<int>(s.range(0, 150)), ht::EffectType::Basis);
      int at = 0;
      for (int q = static_cast<int>(s.range(0, 3)); q > 0; q--) {
        at += static_cast<int>(s.range(0, 20));
        e.addKeyframe(at, 0.5, std::nullopt);
      }
      c.require(e.getEffectTimeLength(t, 22) == lengthOf(e, t, 22), "effect-length",
                pbt::str(e.getEffectTimeLength(t, 22), " expected ", lengthOf(e, t, 22)));
      band.addEffect(e);
    }
    for (size_t k = 0; k < band.getEffectsSize(); k++) {
      auto &e = band.getEffectAt(static_cast<int>(k));
      spans.push_back({static_cast<double>(e.getPosition()), e.getPosition() + lengthOf(e, t, 22)});
      end = std::max(end, e.getPosition() + lengthOf(e, t, 22.0 * ts / 1000));
    }
    c.require(std::fabs(band.getBandTimeLength(ts) - end) < 1e-6, "band-length", pbt::str(band.getBandTimeLength(ts), " expected ", end));
    ch.addBand(band);
    m.emplace_back(t, spans);
  }
  c.nontrivial(nb > 0);
  c.describe(dump([&] {
    Flat f;
    flattenChannel(ch, "c", f, true);
    return f;
  }()));
  for (int q = 0; q < 6; q++) {
    int pos = static_cast<int>(s.range(0, 180));
    int dur = static_cast<int>(s.range(0, 40));
    auto t = static_cast<ht::BandType>(s.range(0, 3));
    int want = -1;
    for (size_t b = 0; b < m.size(); b++) {
      bool clash = false;
      for (size_t k = 0; k < m[b].second.size(); k++) {
        auto &sp = m[b].second[k];
        bool o = sp.from <= pos + dur && sp.to >= pos;
        clash = clash || o;
        auto &band = ch.getBandAt(static_cast<int>(b));
        c.require(band.isOverlapping(band.getEffectAt(static_cast<int>(k)), pos, pos + dur) == o, "overlap",
                  pbt::str("effect ", sp.from, "..", sp.to, " and ", pos, "..", pos + dur));
      }
      if (want < 0 && m[b].first == t && !clash) {
        want = static_cast<int>(b);
      }
    }
    auto *got = ch.findBandAvailable(pos, dur, t);
    int g = -1;
    for (size_t b = 0; b < m.size(); b++) {
      if (got == &ch.getBandAt(static_cast<int>(b))) {
        g = static_cast<int>(b);
      }
    }
    c.label(want >= 0, "available");
    c.require((got == nullptr) == (want < 0) && g == want, "available", pbt::str("band ", g, " found for ", pos, "+", dur, ", expected ", want));
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C16";
  cfg.rule = "tree: histories of up to 25 edits (add, insert, replace, replace metadata, remove, clear at every level, "
             "indices inside and outside) on an experience, compared with an ordered model after every edit; keyframes: "
             "histories of keyframe edits on an effect; overlap: search for a band that is free in an interval. "
             "Non-trivial: more than three edits applied / at least two keyframes / at least one band.";
  cfg.assumptions = {"an effect replaced in place keeps its position",
                     "absent priority and device reference of new metadata leave the old ones (there is no way to unset them)"};
  cfg.targets = {{"tree", tree, 30000, 800000}, {"keyframes", keyframes, 60000, 1500000}, {"overlap", overlap, 60000, 1500000}};
  return pbt::run(cfg, argc, argv);
}
