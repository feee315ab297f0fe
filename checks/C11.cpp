// C11: damaged MIHS streams are refused or read as what they say, never worse
#include "formats.h"
#include "mihs.h"
#include "streamgen.h"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <iostream>
#include <set>

using haptics::io::IOStream;
namespace io = haptics::io;
namespace ht = haptics::types;

namespace {
using Bits = std::vector<bool>;

void put(Bits &b, uint64_t v, int n) {
  for (int i = n - 1; i >= 0; i--) {
    b.push_back((v >> i & 1U) != 0);
  }
}
auto toBits(const std::string &bytes) -> Bits {
  Bits b;
  for (char ch : bytes) {
    put(b, static_cast<unsigned char>(ch), 8);
  }
  return b;
}
auto toBytes(const Bits &b) -> std::string {
  std::string r;
  for (size_t i = 0; i < b.size(); i += 8) {
    int v = 0;
    for (size_t j = 0; j < 8; j++) {
      v = v * 2 + (i + j < b.size() && b[i + j] ? 1 : 0);
    }
    r += static_cast<char>(v);
  }
  return r;
}
auto hex(const std::string &b) -> std::string {
  std::string r;
  for (size_t i = 0; i < b.size() && i < 3000; i++) {
    char x[4];
    snprintf(x, sizeof x, "%02x", static_cast<unsigned char>(b[i]));
    r += x;
  }
  return r;
}

auto header(const mihs::Unit &u, size_t bytes) -> Bits {
  Bits b;
  put(b, static_cast<uint64_t>(u.type), 6);
  put(b, static_cast<uint64_t>(u.sync), 2);
  put(b, static_cast<uint64_t>(u.layer), 4);
  put(b, static_cast<uint64_t>(u.duration), 24);
  put(b, bytes, 32);
  put(b, 0, 4);
  return b;
}
auto build(const std::vector<mihs::Unit> &us) -> std::string {
  Bits all;
  for (auto &u : us) {
    Bits body;
    for (auto &p : u.packets) {
      put(body, static_cast<uint64_t>(p.type), 6);
      put(body, (p.payload.size() + 7) / 8, 17);
      put(body, 0, 1);
      Bits pl = p.payload;
      while (pl.size() % 8 != 0) {
        pl.push_back(false);
      }
      body.insert(body.end(), pl.begin(), pl.end());
    }
    Bits h = header(u, body.size() / 8);
    all.insert(all.end(), h.begin(), h.end());
    all.insert(all.end(), body.begin(), body.end());
  }
  return toBytes(all);
}

auto load(const std::string &bytes, ht::Haptics &h) -> bool {
  std::string path = pbt::scratch() + "/d.hmpg";
  hm::writeBytes(path, bytes);
  return IOStream::readFile(path, h);
}

auto valid(pbt::Source &s, pbt::Case &c) -> std::string {
  sg::Opts o;
  auto m = sg::gen(s, o);
  hm::labels(m.h, c);
  c.describe(pbt::str("packet duration ", m.duration, "\n", hm::dump(m.h)));
  std::string path = pbt::scratch() + "/v.hmpg";
  c.require(IOStream::writeFile(m.h, path, m.duration), "write", "writing fails");
  return hm::readBytes(path);
}

// wavelet blocks of a few ticks only, or of less than 16 samples (when the time scale changes in the
// stream): their length in samples is not known from that in ticks
auto hasShortBlocks(ht::Haptics &h) -> bool {
  bool r = false;
  sg::eachBand(h, [&](auto &, auto &, auto &b) {
    r = r || (b.getBandType() == ht::BandType::WaveletWave &&
             (b.getBlockLengthOrDefault() < 4 ||
              static_cast<double>(b.getBlockLengthOrDefault()) * b.getUpperFrequencyLimit() < 11.0 * h.getTimescaleOrDefault()));
  });
  return r;
}

// whatever is accepted holds codes that exist and can be written to the other formats
void accepted(ht::Haptics &h, pbt::Case &c) {
  auto f = hm::flatten(h);
  std::string path = pbt::scratch() + "/e";
  io::IOJson::writeFile(h, path + ".hjif");
  c.require(io::IOBinary::writeFile(h, path + ".hmpg"), "rewrite", "what was read cannot be written as .hmpg");
  ht::Haptics again;
  const bool shortBlocks = hasShortBlocks(h);
  c.label(shortBlocks, "blocks of less than 4 ticks");
  c.require(shortBlocks || io::IOBinary::loadFile(path + ".hmpg", again), "reread", "what was read and written as .hmpg is refused");
  int64_t end = 0; // a unit is written for every 128 ticks
  for (int i = 0; i < static_cast<int>(h.getSyncsSize()); i++) {
    end = std::max<int64_t>(end, h.getSyncsAt(i).getTimestamp());
  }
  sg::eachBand(h, [&](auto &, auto &, auto &b) {
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      end = std::max<int64_t>(end, b.getEffectAt(i).getPosition());
    }
    end += b.getBlockLengthOrDefault() > 1000000 ? 2000000 : 0;
  });
  if (end > 1000000) {
    c.label("too long to be written as stream");
    return;
  }
  auto h2 = h;
  c.require(IOStream::writeFile(h2, path + ".mihs", 128), "rewrite", "what was read cannot be written as a stream");
}

// what the packets of a stream say, where that is clear: the effects of every band
struct Said {
  bool clear = true;
  struct Band {
    mihs::BandInfo info;
    int64_t block = 0;
    std::vector<mihs::Fx> fx; // positions absolute
  };
  std::vector<Band> bands; // in the order of their first announcement
};
auto read(const std::vector<mihs::Unit> &us) -> Said {
  Said r;
  std::map<int, mihs::BandInfo> infos;
  int64_t time = 0;
  int64_t timescale = 1000;
  auto find = [&](int id) -> Said::Band & {
    for (auto &b : r.bands) {
      if (b.info.id == id) {
        return b;
      }
    }
    throw std::runtime_error("unknown band");
  };
  try {
    for (auto &u : us) {
      for (auto &p : u.packets) {
        mihs::Bits b(p.payload);
        switch (p.type) {
        case mihs::InitTiming:
          time = static_cast<int64_t>(b.get(32));
          timescale = static_cast<int64_t>(b.get(32));
          break;
        case mihs::Timing:
          time = static_cast<int64_t>(b.get(32));
          break;
        case mihs::MetaBand: {
          auto i = mihs::bandInfo(p);
          auto block = i.type == 3 && i.up > 0 && i.code < 20 ? (int64_t{1} << (i.code + 4)) * timescale / i.up : 0;
          if (infos.count(i.id) != 0) {
            auto &o = find(i.id);
            r.clear = r.clear && o.info.perception == i.perception && o.info.channel == i.channel && o.info.type == i.type && o.block == block;
            break;
          }
          infos[i.id] = i;
          Said::Band band;
          band.info = i;
          band.block = block;
          r.bands.push_back(band);
          break;
        }
        case mihs::Data: {
          auto d = mihs::data(p, infos, 0, 1, 2, 3);
          auto &band = find(d.band);
          r.clear = r.clear && band.info.perception == d.perception && band.info.channel == d.channel;
          for (auto e : d.fx) {
            int64_t at = time + e.pos;
            if (band.info.type == 3) {
              r.clear = r.clear && band.block > 0 && d.fx.size() == 1;
              if (!r.clear) {
                return r;
              }
              at = (time + band.block - 1) / band.block * band.block; // or later, after the block before it
              at = band.fx.empty() ? at : std::max<int64_t>(at, band.fx.back().pos + band.block);
            }
            if (std::abs(at) > 2000000000) {
              r.clear = false;
              return r;
            }
            e.pos = static_cast<int>(at);
            bool merged = false;
            if (e.type == 0) {
              for (auto &o : band.fx) {
                if (o.id == e.id && o.type == 0 && !merged && band.info.type != 3) {
                  o.keys.insert(o.keys.end(), e.keys.begin(), e.keys.end());
                  merged = true;
                }
                r.clear = r.clear && !(band.info.type == 3 && o.id == e.id);
              }
            }
            if (!merged) {
              band.fx.push_back(e);
            }
          }
          break;
        }
        default:
          if (p.type >= mihs::CRC32 && p.type <= mihs::GCRC32) {
            r.clear = false;
          }
        }
      }
      time += u.duration;
    }
  } catch (const std::runtime_error &) {
    r.clear = false; // stuffing bits or the like
  }
  return r;
}
auto text(const mihs::Fx &e) -> std::string {
  std::string t = pbt::str("effect ", e.id, " type ", e.type, " at ", e.pos);
  if (e.type == 0) {
    t += pbt::str(" semantic ", e.semantic, " phase ", e.phase, " base ", e.base);
    for (auto &k : e.keys) {
      t += pbt::str(" (", k.at, ",", k.amp, ",", k.freq, ")");
    }
    t += " " + hex(std::string(e.wavelet.begin(), e.wavelet.end()));
  }
  return t;
}
void compareSaid(const std::vector<mihs::Unit> &us, ht::Haptics &h, pbt::Case &c) {
  Said said = read(us);
  c.label(said.clear, "compared");
  if (!said.clear) {
    return;
  }
  std::map<std::pair<int, int>, int> next;
  for (auto &band : said.bands) {
    int index = next[{band.info.perception, band.info.channel}]++;
    ht::Band *got = nullptr;
    for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
      auto &hp = h.getPerceptionAt(p);
      if (hp.getId() != band.info.perception) {
        continue;
      }
      for (int i = 0; i < static_cast<int>(hp.getChannelsSize()); i++) {
        auto &hc = hp.getChannelAt(i);
        if (hc.getId() == band.info.channel && index < static_cast<int>(hc.getBandsSize())) {
          got = &hc.getBandAt(index);
          break;
        }
      }
      break;
    }
    c.require(got != nullptr, "band", pbt::str("band ", band.info.id, " is announced but not there"));
    c.require(static_cast<int>(got->getBandType()) == band.info.type, "band", "type of a band");
    if (band.info.type == 3) {
      c.require(got->getBlockLengthOrDefault() == band.block, "block length", pbt::str(got->getBlockLengthOrDefault(), " for ", band.block));
    }
    std::multiset<std::string> want;
    std::multiset<std::string> have;
    for (auto &e : band.fx) {
      want.insert(text(e));
    }
    for (int i = 0; i < static_cast<int>(got->getEffectsSize()); i++) {
      auto &e = got->getEffectAt(i);
      mihs::Fx x;
      x.id = e.getId();
      x.type = static_cast<int>(e.getEffectType());
      x.pos = e.getPosition();
      if (x.type == 0) {
        auto sem = e.getSemantic();
        if (sem.has_value()) {
          x.semantic = static_cast<int>(ht::stringToEffectSemantic.at(*sem));
        }
        if (band.info.type == 2) {
          x.phase = static_cast<int>(std::lround(e.getPhaseOrDefault() / 6.28318 * 65535));
          x.base = static_cast<int>(e.getBaseSignalOrDefault());
        }
        for (int k = 0; k < static_cast<int>(e.getKeyframesSize()); k++) {
          auto &f = e.getKeyframeAt(k);
          mihs::Key y;
          y.at = f.getRelativePosition().value_or(-1);
          if (f.getAmplitudeModulation().has_value()) {
            y.amp = static_cast<int>(std::lround((*f.getAmplitudeModulation() + 1) / 2 * 255));
          }
          y.freq = f.getFrequencyModulation().value_or(-1);
          x.keys.push_back(y);
        }
        if (band.info.type == 3) {
          x.wavelet = e.getWaveletBitstream();
        }
      }
      have.insert(text(x));
    }
    std::string all;
    for (auto &t : want) {
      all += "\n  sent " + t;
    }
    for (auto &t : have) {
      all += "\n  read " + t;
    }
    c.require(want == have, "content", pbt::str("band ", band.info.id, " is read as other effects than sent:", all));
  }
}

void cut(pbt::Source &s, pbt::Case &c) {
  auto b = valid(s, c);
  c.nontrivial(b.size() > 40);
  ht::Haptics whole;
  c.require(load(b, whole), "refused", "an intact stream is refused");
  std::set<size_t> borders;
  {
    Bits bits = toBits(b);
    size_t at = 0;
    while (at + 72 <= bits.size()) {
      borders.insert(at / 8);
      uint64_t n = 0;
      for (size_t i = at + 36; i < at + 68; i++) {
        n = n * 2 + (bits[i] ? 1 : 0);
      }
      at += 72 + n * 8;
    }
    borders.insert(b.size());
  }
  std::vector<size_t> bs(borders.begin(), borders.end());
  for (int k = 0; k < 6; k++) {
    size_t n = 0;
    switch (s.range(0, 2)) {
    case 0:
      n = b.size() - static_cast<size_t>(s.range(1, std::min<int64_t>(6, static_cast<int64_t>(b.size()))));
      break;
    case 1: { // around the border of a unit
      int64_t x = static_cast<int64_t>(bs[static_cast<size_t>(s.range(0, static_cast<int64_t>(bs.size()) - 1))]) + s.range(-2, 10);
      n = static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(x, 0), static_cast<int64_t>(b.size()) - 1));
      break;
    }
    default:
      n = static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 1));
    }
    ht::Haptics h;
    bool ok = load(b.substr(0, n), h);
    bool whole = n > 0 && borders.count(n) != 0;
    c.label(whole, "cut between units");
    c.require(ok == whole, "cut",
              pbt::str("the first ", n, " of ", b.size(), " bytes, ", whole ? "whole units, are refused: " : "ending inside a unit, are accepted: ",
                       hex(b.substr(0, n))));
  }
}

// the first units of a stream: a part of what the whole stream holds
void prefix(pbt::Source &s, pbt::Case &c) {
  auto b = valid(s, c);
  std::vector<mihs::Unit> us = mihs::parse(toBits(b));
  c.nontrivial(us.size() > 2);
  ht::Haptics whole;
  c.require(load(b, whole), "refused", "an intact stream is refused");
  auto n = static_cast<size_t>(s.range(1, static_cast<int64_t>(us.size())));
  auto some = us;
  some.resize(n);
  ht::Haptics h;
  std::string part = build(some);
  c.require(load(part, h), "refused", "the first units of a stream are refused");
  c.describe(pbt::str(n, " of ", us.size(), " units: ", hex(b)));
  c.require(h.getPerceptionsSize() <= whole.getPerceptionsSize(), "prefix", "more perceptions than in the whole stream");
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &hp = h.getPerceptionAt(p);
    auto &wp = whole.getPerceptionAt(p);
    c.require(hp.getId() == wp.getId() && hp.getDescription() == wp.getDescription(), "prefix", "perception differs");
    c.require(hp.getChannelsSize() <= wp.getChannelsSize(), "prefix", "more channels than in the whole stream");
    for (int i = 0; i < static_cast<int>(hp.getChannelsSize()); i++) {
      auto &hc = hp.getChannelAt(i);
      auto &wc = wp.getChannelAt(i);
      c.require(hc.getId() == wc.getId() && hc.getBandsSize() <= wc.getBandsSize(), "prefix", "channel differs");
      for (int k = 0; k < static_cast<int>(hc.getBandsSize()); k++) {
        auto &hb = hc.getBandAt(k);
        auto &wb = wc.getBandAt(k);
        c.require(hb.getBandType() == wb.getBandType(), "prefix", "band differs");
        for (int e = 0; e < static_cast<int>(hb.getEffectsSize()); e++) {
          auto &he = hb.getEffectAt(e);
          bool found = false;
          for (int q = 0; q < static_cast<int>(wb.getEffectsSize()) && !found; q++) {
            auto &we = wb.getEffectAt(q);
            if (we.getId() != he.getId() || we.getPosition() != he.getPosition() || we.getEffectType() != he.getEffectType() ||
                we.getWaveletBitstream() != he.getWaveletBitstream() || we.getKeyframesSize() < he.getKeyframesSize()) {
              continue;
            }
            found = true;
            for (int j = 0; j < static_cast<int>(he.getKeyframesSize()); j++) {
              auto &a = he.getKeyframeAt(j);
              auto &z = we.getKeyframeAt(j);
              found = found && a.getRelativePosition() == z.getRelativePosition() &&
                      a.getAmplitudeModulation() == z.getAmplitudeModulation() &&
                      a.getFrequencyModulation() == z.getFrequencyModulation();
            }
          }
          c.require(found, "prefix", pbt::str("effect ", he.getId(), " of the first ", n, " units is not in the whole stream"));
        }
      }
    }
  }
}

void damage(pbt::Source &s, pbt::Case &c) {
  auto b = valid(s, c);
  int n = static_cast<int>(s.range(1, 4));
  for (int i = 0; i < n && !b.empty(); i++) {
    auto at = static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 1));
    switch (s.range(0, 4)) {
    case 0:
      b[at] = static_cast<char>(b[at] ^ (1 << s.range(0, 7)));
      c.label("bit");
      break;
    case 1:
      b[at] = static_cast<char>(s.pick<int>({0, 1, 0x7f, 0x80, 0xff, 0xfe}));
      c.label("byte");
      break;
    case 2:
      b.erase(at, static_cast<size_t>(s.range(1, 8)));
      c.label("removed");
      break;
    case 3:
      b.insert(at, static_cast<size_t>(s.range(1, 8)), static_cast<char>(s.range(0, 255)));
      c.label("inserted");
      break;
    default: {
      auto m = static_cast<size_t>(s.range(1, 16));
      for (size_t j = at; j < std::min(b.size(), at + m); j++) {
        b[j] = static_cast<char>(s.range(0, 255));
      }
      c.label("random run");
    }
    }
  }
  c.describe(hex(b));
  ht::Haptics h;
  bool ok = load(b, h);
  c.label(ok, "accepted");
  c.nontrivial(ok);
  if (ok) {
    c.describe(hex(b) + "\n" + hm::dump(h));
    accepted(h, c);
    std::vector<mihs::Unit> us;
    try {
      us = mihs::parse(toBits(b));
    } catch (const std::runtime_error &) {
      return; // reserved bits
    }
    compareSaid(us, h, c);
  }
}

// the framing stays right, the packets are damaged, dropped, repeated or moved
void packets(pbt::Source &s, pbt::Case &c) {
  auto us = mihs::parse(toBits(valid(s, c)));
  int n = static_cast<int>(s.range(1, 5));
  for (int i = 0; i < n; i++) {
    auto &u = us[static_cast<size_t>(s.range(0, static_cast<int64_t>(us.size()) - 1))];
    if (u.packets.empty()) {
      continue;
    }
    auto at = static_cast<size_t>(s.range(0, static_cast<int64_t>(u.packets.size()) - 1));
    auto &p = u.packets[at];
    switch (s.range(0, 8)) {
    case 0: {
      c.label("packet dropped");
      u.packets.erase(u.packets.begin() + static_cast<long>(at));
      break;
    }
    case 1: {
      c.label("packet repeated");
      auto q = p;
      auto &v = us[static_cast<size_t>(s.range(0, static_cast<int64_t>(us.size()) - 1))];
      v.packets.insert(v.packets.begin() + s.range(0, static_cast<int64_t>(v.packets.size())), q);
      break;
    }
    case 2: {
      c.label("unit dropped");
      if (us.size() > 1) {
        us.erase(us.begin() + s.range(0, static_cast<int64_t>(us.size()) - 1));
      }
      break;
    }
    case 3: {
      c.label("units exchanged");
      std::swap(us[static_cast<size_t>(s.range(0, static_cast<int64_t>(us.size()) - 1))],
                us[static_cast<size_t>(s.range(0, static_cast<int64_t>(us.size()) - 1))]);
      break;
    }
    case 4:
      c.label("packet type");
      p.type = static_cast<int>(s.range(0, 15));
      break;
    case 5: {
      c.label("payload cut");
      p.payload.resize(static_cast<size_t>(s.range(0, static_cast<int64_t>(p.payload.size() / 8))) * 8);
      break;
    }
    case 6: {
      c.label("payload bits");
      for (int k = 0; k < 3 && !p.payload.empty(); k++) {
        // the first fields hold ids and counts
        auto x = static_cast<size_t>(s.boolean() ? s.range(0, std::min<int64_t>(79, static_cast<int64_t>(p.payload.size()) - 1))
                                                 : s.range(0, static_cast<int64_t>(p.payload.size()) - 1));
        p.payload[x] = !p.payload[x];
      }
      break;
    }
    case 7: {
      c.label("payload of random bits");
      for (size_t k = static_cast<size_t>(s.range(0, static_cast<int64_t>(p.payload.size()))); k < p.payload.size(); k++) {
        p.payload[k] = s.boolean();
      }
      break;
    }
    default: {
      c.label("unit header");
      u.duration = s.pick<int64_t>({0, 1, 128, 0xffffff});
      u.sync = static_cast<int>(s.range(0, 3));
      u.type = static_cast<int>(s.range(0, 4));
    }
    }
  }
  auto b = build(us);
  c.describe(hex(b));
  ht::Haptics h;
  bool ok = load(b, h);
  c.label(ok, "accepted");
  c.nontrivial(ok);
  if (ok) {
    c.describe(hex(b) + "\n" + hm::dump(h));
    accepted(h, c);
    compareSaid(us, h, c);
  }
}

void anyBytes(pbt::Source &s, pbt::Case &c) {
  std::vector<mihs::Unit> us;
  bool framed = s.chance(3, 4);
  std::string b;
  if (framed) { // packets of made-up content
    for (int64_t i = 0, n = s.range(1, 3); i < n; i++) {
      mihs::Unit u;
      u.type = static_cast<int>(s.range(0, 3));
      u.duration = 128;
      for (int64_t k = 0, m = s.range(1, 6); k < m; k++) {
        mihs::Packet p;
        p.type = static_cast<int>(s.range(0, 12));
        bool sparse = s.chance(2, 3);
        for (int64_t j = 0, l = s.range(0, 60) * 8; j < l; j++) {
          p.payload.push_back(sparse ? s.chance(1, 12) : s.boolean());
        }
        u.packets.push_back(p);
      }
      us.push_back(u);
    }
    b = build(us);
  } else {
    for (int64_t i = 0, n = s.range(1, 200); i < n; i++) {
      b += static_cast<char>(s.chance(2, 3) ? s.range(0, 3) : s.range(0, 255));
    }
  }
  c.describe(hex(b));
  ht::Haptics h;
  bool ok = load(b, h);
  c.label(ok, "accepted");
  c.nontrivial(ok);
  if (ok) {
    c.describe(hex(b) + "\n" + hm::dump(h));
    accepted(h, c);
    if (framed) {
      compareSaid(us, h, c);
    }
  }
}

// units and packets handed over one by one, whole or not; the reader can be used afterwards
void byHand(pbt::Source &s, pbt::Case &c) {
  auto us = mihs::parse(toBits(valid(s, c)));
  auto reader = IOStream::initializeStream();
  IOStream::CRC crc;
  int refused = 0;
  for (auto &u : us) {
    auto bits = toBits(build({u}));
    bool wholePacket = s.boolean();
    if (s.chance(1, 4)) { // an incomplete one first
      Bits part = bits;
      if (wholePacket && !u.packets.empty()) {
        part.assign(bits.begin() + 72, bits.end());
        part.resize(static_cast<size_t>(s.range(0, 24 + static_cast<int64_t>(u.packets[0].payload.size()) - 1)));
        c.require(!IOStream::readMIHSPacket(part, reader, crc), "partial", "an incomplete packet is accepted");
      } else {
        part.resize(static_cast<size_t>(s.range(0, static_cast<int64_t>(bits.size()) - 1)));
        auto copy = reader; // the packets before the cut may be read already
        c.require(!IOStream::readMIHSUnit(part, copy, crc), "partial", "an incomplete unit is accepted");
      }
      refused++;
    }
    c.require(IOStream::readMIHSUnit(bits, reader, crc), "refused", "an intact unit is refused");
  }
  c.nontrivial(refused > 0);
  c.label(refused > 1, "several incomplete parts");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C11";
  cfg.rule = "Streams written from random experiences are cut ('cut': refused unless at the border of two units), cut at a unit and compared "
             "with the whole ('prefix'), damaged byte by byte ('damage'), damaged packet by packet with correct framing ('packets'), made up "
             "('anyBytes') or handed over in incomplete parts ('byHand'). Whatever is accepted is written as .hjif, .hmpg and stream. "
             "Non-trivial: streams of more than 40 bytes or two units, damaged streams that are accepted, incomplete parts handed over.";
  cfg.assumptions = {};
  cfg.targets = {{"cut", cut, 2000, 60000}, {"prefix", prefix, 2000, 60000}, {"damage", damage, 8000, 300000},
                 {"packets", packets, 10000, 300000}, {"anyBytes", anyBytes, 30000, 600000}, {"byHand", byHand, 2000, 60000}};
  cfg.init = [] {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
  };
  return pbt::run(cfg, argc, argv);
}
