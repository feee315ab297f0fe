// C05: joining, losing and repeating parts of a MIHS stream.
#include "mihs.h"
#include "pbt.h"
#include "streamgen.h"
#include <IOHaptics/include/IOStream.h>
#include <iostream>

using haptics::io::IOStream;
namespace ht = haptics::types;

namespace {
const int TRANSIENT = static_cast<int>(ht::BandType::Transient);
const int CURVE = static_cast<int>(ht::BandType::Curve);
const int VECTORIAL = static_cast<int>(ht::BandType::VectorialWave);
const int WAVELET = static_cast<int>(ht::BandType::WaveletWave);
using Units = std::vector<std::vector<bool>>;

auto spatialModality(ht::Perception &p) -> bool {
  auto m = p.getPerceptionModality();
  return m == ht::PerceptionModality::VibrotactileTexture || m == ht::PerceptionModality::Stiffness ||
         m == ht::PerceptionModality::Friction;
}

struct Written {
  sg::Made m;
  ht::Haptics want;
  Units units;
  std::vector<mihs::Unit> parsed;
  std::vector<size_t> inits;
};

auto write(pbt::Source &s, pbt::Case &c) -> Written {
  Written w;
  sg::Opts o;
  o.syncs = true;
  o.maxWindows = 20;
  w.m = sg::gen(s, o);
  // make sure that some syncs lie inside the stream
  int n = static_cast<int>(s.range(0, 3));
  for (int i = 0; i < n; i++) {
    int t = static_cast<int>(s.range(1, 12)) * w.m.duration - static_cast<int>(s.range(0, 1));
    ht::Sync y(t);
    w.m.h.addSync(y);
  }
  hm::labels(w.m.h, c);
  c.describe(pbt::str("packet duration ", w.m.duration, "\n", hm::dump(w.m.h)));
  c.require(IOStream::writeUnits(w.m.h, w.units, w.m.duration), "write", "writing the units fails");
  w.want = sg::expected(w.m.h);
  std::vector<bool> bits;
  for (auto &u : w.units) {
    bits.insert(bits.end(), u.begin(), u.end());
  }
  w.parsed = mihs::parse(bits);
  for (size_t i = 0; i < w.parsed.size(); i++) {
    if (w.parsed[i].type == mihs::Init) {
      w.inits.push_back(i);
    }
  }
  return w;
}

// the units [from, to) read one after the other
void feed(pbt::Case &c, Units &units, size_t from, size_t to, IOStream::StreamReader &r) {
  IOStream::CRC crc;
  for (size_t i = from; i < to; i++) {
    auto u = units[i];
    c.require(IOStream::readMIHSUnit(u, r, crc), "read", pbt::str("reading unit ", i, " fails"));
  }
}

// what is left of the experience for a receiver that starts at 'time'
auto from(ht::Haptics h, int64_t time, int duration) -> ht::Haptics {
  sg::eachBand(h, [&](ht::Perception &p, ht::Channel &, ht::Band &b) {
    const bool spatial = spatialModality(p);
    std::vector<ht::Effect> keep;
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      auto e = b.getEffectAt(i);
      if (b.getBandType() == ht::BandType::WaveletWave) {
        int64_t unit = static_cast<int64_t>(i) * b.getBlockLengthOrDefault() / duration * duration;
        if ((spatial ? 0 : unit) >= time) {
          keep.push_back(e);
        }
      } else if (spatial) {
        if (time == 0) {
          keep.push_back(e);
        }
      } else if (e.getEffectType() == ht::EffectType::Reference) {
        if (e.getPosition() >= time) {
          keep.push_back(e);
        }
      } else {
        for (int k = static_cast<int>(e.getKeyframesSize()) - 1; k >= 0; k--) {
          if (e.getPosition() + e.getKeyframeAt(k).getRelativePosition().value() < time) {
            e.removeKeyframeAt(k);
          }
        }
        if (e.getKeyframesSize() > 0) {
          keep.push_back(e);
        }
      }
    }
    while (b.getEffectsSize() > 0) {
      b.removeEffectAt(0);
    }
    for (auto &e : keep) {
      b.addEffect(e);
    }
  });
  return h;
}

void timing(std::vector<bool> &unit, int64_t time) { // a timing packet in front of the others
  std::vector<bool> p;
  auto put = [&](uint64_t v, int n) {
    for (int i = n - 1; i >= 0; i--) {
      p.push_back((v >> i & 1) != 0);
    }
  };
  put(mihs::Timing, 6);
  put(4, 17);
  put(0, 1);
  put(static_cast<uint64_t>(time), 32);
  unit.insert(unit.begin() + 72, p.begin(), p.end());
  uint64_t len = 0;
  for (int i = 36; i < 68; i++) {
    len = len << 1 | static_cast<uint64_t>(unit[static_cast<size_t>(i)]);
  }
  len += 7;
  for (int i = 0; i < 32; i++) {
    unit[static_cast<size_t>(67 - i)] = (len >> i & 1) != 0;
  }
}

void checkSyncs(pbt::Case &c, Written &w, size_t start, ht::Haptics &got) {
  std::vector<int64_t> want;
  for (size_t i : w.inits) {
    if (i >= start) {
      want.push_back(w.parsed[i].time);
    }
  }
  c.require(got.getSyncsSize() == want.size(), "syncs",
            pbt::str(got.getSyncsSize(), " syncs read, ", want.size(), " initializations"));
  for (size_t i = 0; i < want.size(); i++) {
    auto &y = got.getSyncsAt(static_cast<int>(i));
    c.require(y.getTimestamp() == want[i], "sync time", pbt::str("sync ", i, " at ", y.getTimestamp(), ", the initialization at ", want[i]));
    c.require(y.getTimescale().value_or(0) == w.m.h.getTimescaleOrDefault(), "sync scale",
              pbt::str("sync ", i, ": time scale ", y.getTimescale().value_or(0)));
  }
}

// the whole stream, with its repeated initializations and with timing packets
void repeat(pbt::Source &s, pbt::Case &c) {
  auto w = write(s, c);
  c.nontrivial(w.inits.size() > 1);
  c.label(w.inits.size() > 1, "repeated initialization");
  const bool timings = s.boolean();
  auto units = w.units;
  bool any = false;
  if (timings) {
    for (size_t i = 1; i < units.size(); i++) {
      if (w.parsed[i].type == mihs::Temporal && s.chance(1, 3)) {
        timing(units[i], w.parsed[i].time);
        any = true;
      }
    }
  }
  c.label(any, "timing packets");
  auto r = IOStream::initializeStream();
  feed(c, units, 0, units.size(), r);
  auto got = r.haptic;
  if (!any) {
    checkSyncs(c, w, 0, got);
  }
  got.setTimescale(static_cast<int>(r.timescale));
  std::string d = sg::compare(w.want, got, false);
  c.require(d.empty(), "repeat", "read back differently: " + d);
}

// starting at an initialization that is not the first
void join(pbt::Source &s, pbt::Case &c) {
  auto w = write(s, c);
  c.nontrivial(w.inits.size() > 1 && hm::countEffects(w.want) > 0);
  c.label(w.inits.size() > 1, "joined later");
  size_t k = w.inits[static_cast<size_t>(s.range(0, static_cast<long>(w.inits.size()) - 1))];
  if (k == 0 && w.inits.size() > 1) {
    k = w.inits[1];
  }
  auto r = IOStream::initializeStream();
  r.waitSync = s.boolean();
  feed(c, w.units, k, w.units.size(), r);
  auto got = r.haptic;
  checkSyncs(c, w, k, got);
  got.setTimescale(static_cast<int>(r.timescale));
  auto want = from(w.want, w.parsed[k].time, w.m.duration);
  std::string d = sg::compare(want, got, false);
  c.require(d.empty(), "join", pbt::str("joined at ", w.parsed[k].time, ": ", d));
}

// contents by band and effect id: keyframes as (position, time, amplitude, frequency)
using Content = std::map<std::pair<int, int>, std::multiset<std::vector<int>>>;

auto blockLengths(ht::Haptics &h) -> std::vector<int> {
  std::vector<int> r;
  sg::eachBand(h, [&](ht::Perception &, ht::Channel &, ht::Band &b) { r.push_back(b.getBlockLengthOrDefault()); });
  return r;
}
auto infosOf(Written &w) -> std::map<int, mihs::BandInfo> {
  std::map<int, mihs::BandInfo> infos;
  for (auto &p : w.parsed[0].packets) {
    if (p.type == mihs::MetaBand) {
      auto i = mihs::bandInfo(p);
      infos[i.id] = i;
    }
  }
  return infos;
}
// what the units say for which 'take' holds
template <class F> auto contentOf(Written &w, F take) -> Content {
  auto infos = infosOf(w);
  auto blocks = blockLengths(w.want);
  std::map<int, int> seen; // wavelet blocks by band
  Content out;
  for (size_t i = 0; i < w.parsed.size(); i++) {
    auto &u = w.parsed[i];
    if (u.type != mihs::Temporal) {
      continue;
    }
    for (auto &p : u.packets) {
      auto d = mihs::data(p, infos, TRANSIENT, CURVE, VECTORIAL, WAVELET);
      for (auto &f : d.fx) {
        std::pair<int, int> id(d.band, f.type == 1 ? -1 - f.id : f.id);
        auto add = [&](const std::vector<int> &v) {
          if (take(i)) {
            out[id].insert(v);
          }
        };
        if (infos[d.band].type == WAVELET) {
          add({seen[d.band]++ * blocks.at(static_cast<size_t>(d.band))});
        } else if (f.type == 1) {
          add({static_cast<int>(u.time) + f.pos});
        }
        for (auto &q : f.keys) {
          add({static_cast<int>(u.time) + f.pos, q.at, q.amp, q.freq});
        }
      }
    }
  }
  return out;
}
auto contentOf(ht::Haptics &h) -> Content {
  Content got;
  int band = 0;
  sg::eachBand(h, [&](ht::Perception &, ht::Channel &, ht::Band &b) {
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      auto &e = b.getEffectAt(i);
      const bool ref = e.getEffectType() == ht::EffectType::Reference;
      std::pair<int, int> id(band, ref ? -1 - e.getId() : e.getId());
      if (b.getBandType() == ht::BandType::WaveletWave || ref) {
        got[id].insert({e.getPosition()});
      }
      for (int j = 0; j < static_cast<int>(e.getKeyframesSize()); j++) {
        auto &q = e.getKeyframeAt(j);
        int a = q.getAmplitudeModulation().has_value()
                    ? static_cast<int>(std::lround((q.getAmplitudeModulation().value() + 1) / 2 * 255))
                    : -1;
        got[id].insert({e.getPosition(), q.getRelativePosition().value(), a, q.getFrequencyModulation().value_or(-1)});
      }
    }
    band++;
  });
  return got;
}
void subset(pbt::Case &c, Content &a, Content &b, const char *sig, const char *what) {
  for (auto &kv : a) {
    std::multiset<std::vector<int>> rest = b[kv.first];
    for (auto &v : kv.second) {
      auto it = rest.find(v);
      if (it == rest.end()) {
        std::string t;
        for (int x : v) {
          t += pbt::str(x, " ");
        }
        c.fail(sig, pbt::str(what, ": band ", kv.first.first, ", effect ", kv.first.second, ": ", t));
        return;
      }
      rest.erase(it);
    }
  }
}

// losing synchronisation before unit k: nothing is invented, everything from the next unit flagged
// for synchronisation on is there
void wait(pbt::Source &s, pbt::Case &c) {
  auto w = write(s, c);
  size_t k = static_cast<size_t>(s.range(1, std::max<long>(1, static_cast<long>(w.units.size()) - 1)));
  std::vector<size_t> dependent; // units
  for (size_t i = 1; i < w.parsed.size(); i++) {
    if (w.parsed[i].type == mihs::Temporal && w.parsed[i].sync != 0) {
      dependent.push_back(i);
    }
  }
  if (!dependent.empty() && s.chance(3, 4)) {
    k = dependent[static_cast<size_t>(s.range(0, static_cast<long>(dependent.size()) - 1))];
  }
  size_t resumed = k;
  while (resumed < w.parsed.size() && w.parsed[resumed].sync != 0) {
    resumed++;
  }
  c.label(resumed > k, "dependent units in between");
  c.label(resumed < w.parsed.size() && resumed > k, "synchronised again");
  c.nontrivial(resumed > k);
  auto r = IOStream::initializeStream();
  feed(c, w.units, 0, k, r);
  r.waitSync = true;
  feed(c, w.units, k, w.units.size(), r);
  Content must = contentOf(w, [&](size_t i) { return i < k || i >= resumed; });
  Content may = contentOf(w, [](size_t) { return true; });
  Content got = contentOf(r.haptic);
  subset(c, must, got, "lost", "missing after the next synchronisation");
  subset(c, got, may, "invented", "not in the stream");
}

// the units between some unit and a later initialization never arrive
void gap(pbt::Source &s, pbt::Case &c) {
  auto w = write(s, c);
  size_t to = w.inits[static_cast<size_t>(s.range(0, static_cast<long>(w.inits.size()) - 1))];
  if (to == 0 && w.inits.size() > 1) {
    to = w.inits[1];
  }
  size_t from = to == 0 ? 0 : static_cast<size_t>(s.range(1, static_cast<long>(to)));
  Content all = contentOf(w, [](size_t) { return true; });
  Content must = contentOf(w, [&](size_t i) { return i < from || i >= to; });
  c.nontrivial(from < to && !(all == must) && !must.empty());
  c.label(from < to, "units lost");
  c.label(!(all == must), "effects lost");
  auto r = IOStream::initializeStream();
  feed(c, w.units, 0, from, r);
  r.waitSync = s.boolean();
  feed(c, w.units, to, w.units.size(), r);
  Content got = contentOf(r.haptic);
  subset(c, must, got, "lost after a gap", pbt::str("units ", from, " to ", to, " lost, missing").c_str());
  subset(c, got, must, "invented after a gap", pbt::str("units ", from, " to ", to, " lost, not in the others").c_str());
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C05";
  cfg.rule = "Streams as for C04. 'repeat' reads all the units, initializations repeated at syncs and timing "
             "packets inserted at random included (non-trivial: a repeated initialization); 'join' starts "
             "reading at a later initialization (non-trivial: there is one); 'wait' loses synchronisation "
             "before a random unit (non-trivial: dependent units follow); 'gap' leaves out the units up to a later "
             "initialization (non-trivial: effects are lost and others are not).";
  cfg.assumptions = {"as for C03; fewer than 256 bands"};
  cfg.targets = {{"repeat", repeat, 9000, 200000}, {"join", join, 9000, 200000}, {"wait", wait, 9000, 200000},
                 {"gap", gap, 7000, 150000}};
  cfg.init = [] {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
  };
  return pbt::run(cfg, argc, argv);
}
