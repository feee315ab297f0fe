// C04: framing and placement of the units of a MIHS stream, against an independent parser.
#include "mihs.h"
#include "pbt.h"
#include "streamgen.h"
#include <IOHaptics/include/IOStream.h>
#include <fstream>
#include <iostream>

using haptics::io::IOStream;
namespace ht = haptics::types;

namespace {
const int TRANSIENT = static_cast<int>(ht::BandType::Transient);
const int CURVE = static_cast<int>(ht::BandType::Curve);
const int VECTORIAL = static_cast<int>(ht::BandType::VectorialWave);
const int WAVELET = static_cast<int>(ht::BandType::WaveletWave);

auto spatialModality(ht::Perception &p) -> bool {
  auto m = p.getPerceptionModality();
  return m == ht::PerceptionModality::VibrotactileTexture || m == ht::PerceptionModality::Stiffness ||
         m == ht::PerceptionModality::Friction;
}

// the band, from what its packets say
struct Rebuilt {
  ht::Band band;
  bool spatial = false;
  int perception = 0;
  int channel = 0;
  std::map<int, ht::Effect> basis; // by id, added to the band at the end
};

void checkInit(pbt::Case &c, const mihs::Unit &u, const sg::Made &m, ht::Haptics &want) {
  c.require(u.sync == 0 && u.duration == 0 && u.layer == 0, "init header",
            pbt::str("initialization unit with sync flag ", u.sync, ", duration ", u.duration));
  c.require(u.packets.size() > 1 && u.packets[0].type == mihs::InitTiming, "init timing",
            "initialization does not start with its timing");
  mihs::Bits b(u.packets[0].payload);
  auto t = static_cast<int64_t>(b.get(32));
  auto scale = b.get(32);
  auto nominal = static_cast<int>(b.get(24));
  auto deviation = b.get(24);
  auto overlapping = b.get(1);
  mihs::noTail(b, "initialization timing");
  c.require(t == u.time, "init time", pbt::str("initialization at ", u.time, " says it is at ", t));
  c.require(scale == m.h.getTimescaleOrDefault(), "init scale",
            pbt::str("initialization says ", scale, " ticks per second"));
  c.require(nominal == m.duration && deviation == 0 && overlapping == 0, "init duration",
            pbt::str("initialization says units of ", nominal, " ticks, they have ", m.duration));
  // the metadata, from the whole to its parts, once each
  std::vector<int> kinds = {mihs::MetaHaptics};
  std::vector<std::vector<int>> ids = {{}};
  int np = static_cast<int>(want.getPerceptionsSize());
  for (int p = 0; p < np; p++) {
    kinds.push_back(mihs::MetaPerception);
    ids.push_back({want.getPerceptionAt(p).getId()});
  }
  for (int p = 0; p < np; p++) {
    if (want.getPerceptionAt(p).getEffectLibrarySize() > 0) {
      kinds.push_back(mihs::Library);
      ids.push_back({want.getPerceptionAt(p).getId()});
    }
  }
  for (int p = 0; p < np; p++) {
    auto &q = want.getPerceptionAt(p);
    for (int k = 0; k < static_cast<int>(q.getChannelsSize()); k++) {
      kinds.push_back(mihs::MetaChannel);
      ids.push_back({q.getChannelAt(k).getId(), q.getId()});
    }
  }
  size_t bands = 0;
  sg::eachBand(want, [&](ht::Perception &, ht::Channel &, ht::Band &) { bands++; });
  for (size_t k = 0; k < bands; k++) {
    kinds.push_back(mihs::MetaBand);
    ids.push_back({static_cast<int>(k & 255)});
  }
  c.require(u.packets.size() == kinds.size() + 1, "init packets",
            pbt::str("initialization of ", u.packets.size(), " packets, ", kinds.size() + 1, " expected"));
  for (size_t k = 0; k < kinds.size(); k++) {
    auto &p = u.packets[k + 1];
    c.require(p.type == kinds[k], "init packet type",
              pbt::str("packet ", k + 1, " of the initialization has type ", p.type));
    mihs::Bits pb(p.payload);
    if (p.type == mihs::MetaPerception || p.type == mihs::Library || p.type == mihs::MetaBand) {
      c.require(static_cast<int>(pb.get(8)) == ids[k][0], "init packet id", pbt::str("packet ", k + 1, ": id"));
    } else if (p.type == mihs::MetaChannel) {
      c.require(static_cast<int>(pb.get(16)) == ids[k][0] && static_cast<int>(pb.get(8)) == ids[k][1],
                "init packet id", pbt::str("packet ", k + 1, ": ids of a channel"));
    }
  }
}

void framing(pbt::Source &s, pbt::Case &c) {
  sg::Opts o;
  o.syncs = true;
  auto m = sg::gen(s, o);
  hm::labels(m.h, c);
  c.describe(pbt::str("packet duration ", m.duration, "\n", hm::dump(m.h)));
  c.nontrivial(hm::countEffects(m.h) > 0);
  std::vector<std::vector<bool>> units;
  c.require(IOStream::writeUnits(m.h, units, m.duration), "write", "writing the units fails");
  std::vector<bool> bits;
  for (auto &u : units) {
    bits.insert(bits.end(), u.begin(), u.end());
  }
  if (s.chance(1, 3)) { // the file is its units
    std::string path = pbt::scratch() + "/s.hmpg";
    c.require(IOStream::writeFile(m.h, path, m.duration), "write", "writing fails");
    std::ifstream f(path, std::ios::binary);
    std::string bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    c.require(bytes.size() * 8 == bits.size(), "file size",
              pbt::str("file of ", bytes.size(), " bytes for ", bits.size(), " bits"));
    for (size_t i = 0; i < bits.size(); i++) {
      c.require(bits[i] == (((static_cast<unsigned char>(bytes[i / 8]) >> (7 - i % 8)) & 1) != 0), "file bits",
                pbt::str("file differs from the units at bit ", i));
    }
  }
  std::vector<mihs::Unit> us;
  try {
    us = mihs::parse(bits);
  } catch (std::runtime_error &e) {
    c.fail("framing", e.what());
    return;
  }
  c.require(us.size() == units.size(), "units", pbt::str(units.size(), " units written, ", us.size(), " found"));
  auto want = sg::expected(m.h);
  // metadata of the bands
  std::map<int, mihs::BandInfo> infos;
  std::vector<Rebuilt> bands;
  c.require(!us.empty() && us[0].type == mihs::Init, "first unit", "the stream does not start with an initialization");
  sg::eachBand(want, [&](ht::Perception &p, ht::Channel &ch, ht::Band &b) {
    Rebuilt r;
    r.band = b;
    r.spatial = spatialModality(p);
    r.perception = p.getId();
    r.channel = ch.getId();
    while (r.band.getEffectsSize() > 0) {
      r.band.removeEffectAt(0);
    }
    bands.push_back(r);
  });
  try {
    for (auto &p : us[0].packets) {
      if (p.type == mihs::MetaBand) {
        auto i = mihs::bandInfo(p);
        c.require(i.id < static_cast<int>(bands.size()), "band id", pbt::str("band id ", i.id));
        auto &b = bands[static_cast<size_t>(i.id)];
        c.require(i.perception == b.perception && i.channel == b.channel, "band of", pbt::str("band ", i.id, " belongs to ", i.perception, "/", i.channel));
        c.require(i.type == static_cast<int>(b.band.getBandType()) && i.low == b.band.getLowerFrequencyLimit() && i.up == b.band.getUpperFrequencyLimit() && i.priority == b.band.getPriorityOrDefault(), "band fields", pbt::str("metadata of band ", i.id));
        infos[i.id] = i;
      }
    }
    int64_t lastEnd = 0;
    for (size_t k = 0; k < us.size(); k++) {
      auto &u = us[k];
      std::string where = pbt::str("unit ", k, " at ", u.time, ": ");
      if (u.type == mihs::Init) {
        checkInit(c, u, m, want);
        c.require(k == 0 || us[k - 1].type != mihs::Init, "repeated init", where + "two initializations in a row");
        continue;
      }
      if (u.type == mihs::Silent) {
        c.label("silent unit");
        c.require(u.length == 0 && u.duration > 0 && u.duration % m.duration == 0, "silent header",
                  pbt::str(where, "silence of ", u.duration, " ticks and ", u.length, " bytes"));
        size_t next = k + 1;
        while (next < us.size() && us[next].type == mihs::Silent) {
          next++;
        }
        c.require(next < us.size(), "silent end", where + "the stream ends with silence");
        c.require(u.sync == us[next].sync, "silent sync", where + "sync flag of a silence differs from the unit after it");
        lastEnd = u.time + u.duration;
        continue;
      }
      c.require(u.type == mihs::Temporal, "unit type", pbt::str(where, "type ", u.type));
      c.require(u.duration == m.duration && u.layer == 0 && !u.packets.empty(), "temporal header",
                pbt::str(where, "duration ", u.duration, ", ", u.packets.size(), " packets"));
      lastEnd = u.time + u.duration;
      bool dau = false;
      std::set<int> seen;
      for (auto &p : u.packets) {
        c.require(p.type == mihs::Data, "temporal packet", pbt::str(where, "packet of type ", p.type));
        auto d = mihs::data(p, infos, TRANSIENT, CURVE, VECTORIAL, WAVELET);
        auto &b = bands[static_cast<size_t>(d.band)];
        const bool wavelet = b.band.getBandType() == ht::BandType::WaveletWave;
        c.require(d.perception == b.perception && d.channel == b.channel, "data of",
                  pbt::str(where, "data of band ", d.band, " for ", d.perception, "/", d.channel));
        c.require(!d.fx.empty(), "empty packet", where + "packet without effects");
        c.require(wavelet || seen.insert(d.band).second, "two packets",
                  pbt::str(where, "two packets of band ", d.band));
        auto inside = [&](int64_t at, const char *what) {
          if (b.spatial) {
            c.require(u.time == 0, "spatial time", where + "spatial data after the start");
          } else {
            c.require(at >= u.time && at < u.time + u.duration, "placement",
                      pbt::str(where, what, " at ", at, " in band ", d.band));
          }
        };
        bool continues = false;
        std::set<int> here;
        for (auto &f : d.fx) {
          int64_t pos = u.time + f.pos;
          if (wavelet) {
            int i = static_cast<int>(b.band.getEffectsSize());
            inside(static_cast<int64_t>(i) * b.band.getBlockLengthOrDefault(), "block");
            ht::Effect e(i * b.band.getBlockLengthOrDefault(), ht::EffectType::Basis);
            e.setId(f.id);
            if (f.semantic >= 0) {
              auto sem = ht::effectSemanticToString.at(static_cast<ht::EffectSemantic>(f.semantic));
              e.setSemantic(sem);
            }
            e.setWaveletBitstream(f.wavelet);
            b.band.addEffect(e);
            continue;
          }
          c.require(f.type == 0 || f.type == 1, "effect type", pbt::str(where, "effect of type ", f.type));
          if (f.type == 1) {
            inside(pos, "reference");
            ht::Effect e(static_cast<int>(pos), ht::EffectType::Reference);
            e.setId(f.id);
            b.band.addEffect(e);
            continue;
          }
          c.require(here.insert(f.id).second, "twice", pbt::str(where, "effect ", f.id, " twice in a packet"));
          auto it = b.basis.find(f.id);
          continues = continues || it != b.basis.end();
          if (it == b.basis.end()) {
            ht::Effect e(static_cast<int>(pos), ht::EffectType::Basis);
            e.setId(f.id);
            if (b.band.getBandType() == ht::BandType::VectorialWave) {
              e.setPhase(static_cast<float>(f.phase) / 65535.0F * 6.28318F);
              e.setBaseSignal(static_cast<ht::BaseSignal>(f.base));
            }
            if (f.semantic >= 0) {
              auto sem = ht::effectSemanticToString.at(static_cast<ht::EffectSemantic>(f.semantic));
              e.setSemantic(sem);
            }
            it = b.basis.emplace(f.id, e).first;
          }
          auto &e = it->second;
          c.require(e.getPosition() == pos, "moves", pbt::str(where, "effect ", f.id, " was at ", e.getPosition(), ", is at ", pos));
          c.require(!f.keys.empty(), "no keyframes", where + "effect without keyframes");
          for (auto &q : f.keys) {
            inside(pos + q.at, "keyframe");
            std::optional<float> a;
            std::optional<int> fr;
            if (q.amp >= 0) {
              a = static_cast<float>(q.amp) / 255.0F * 2 - 1;
            }
            if (q.freq >= 0) {
              fr = q.freq;
            }
            ht::Keyframe kf;
            kf.setRelativePosition(q.at);
            kf.setAmplitudeModulation(a);
            kf.setFrequencyModulation(fr);
            e.addKeyframe(kf);
          }
        }
        c.label(d.dau, "dependent packet");
        c.require(d.dau == continues, "access unit",
                  pbt::str(where, "packet of band ", d.band, d.dau ? " marked" : " not marked", " as dependent"));
        dau = dau || d.dau;
      }
      c.require((u.sync == 0) == !dau, "sync flag", pbt::str(where, "sync flag ", u.sync));
    }
    // initializations: at the first border at or after each sync
    auto next = [&](int64_t after) -> int64_t {
      int64_t r = -1;
      for (int i = 0; i < static_cast<int>(m.h.getSyncsSize()); i++) {
        int64_t t = m.h.getSyncsAt(i).getTimestamp();
        if (t > after && (r < 0 || t < r)) {
          r = t;
        }
      }
      return r;
    };
    int64_t due = next(0);
    for (size_t k = 1; k < us.size(); k++) {
      if (us[k].type == mihs::Init) {
        c.label("repeated initialization");
        c.require(due >= 0 && us[k].time >= due, "unasked init", pbt::str("initialization at ", us[k].time, " without a sync"));
        due = next(us[k].time);
      } else {
        c.require(due < 0 || us[k].time < due, "missing init", pbt::str("no initialization for the sync at ", due, " before the unit at ", us[k].time));
      }
    }
    c.require(due < 0 || lastEnd < due, "missing init", pbt::str("no initialization for the sync at ", due));
  } catch (std::runtime_error &e) {
    c.fail("content", e.what());
    return;
  }
  for (auto &b : bands) {
    for (auto &kv : b.basis) {
      b.band.addEffect(kv.second);
    }
  }
  // and the content is that of the experience
  auto got = want;
  size_t at = 0;
  sg::eachBand(got, [&](ht::Perception &, ht::Channel &, ht::Band &b) { b = bands[at++].band; });
  std::string df = sg::compare(want, got, true);
  c.require(df.empty(), "content", "the packets say otherwise: " + df);
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C04";
  cfg.rule = "Experiences as for C03, with synchronisation points on and off the borders of the packets, are "
             "written as units; an independent parser of units, packets, band metadata and data checks every "
             "header and rebuilds the bands. Non-trivial: at least one effect.";
  cfg.assumptions = {"packets shorter than 128 KiB, units shorter than 2^24 ticks",
                     "fewer than 256 bands, the width of a band id"};
  cfg.targets = {{"framing", framing, 25000, 700000}};
  cfg.init = [] {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
  };
  return pbt::run(cfg, argc, argv);
}
