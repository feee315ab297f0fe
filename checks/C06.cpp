// C06: checksum packets of MIHS streams.
#include "mihs.h"
#include "pbt.h"
#include "streamgen.h"
#include <IOHaptics/include/IOStream.h>
#include <fstream>
#include <iostream>

using haptics::io::IOStream;
using haptics::io::MIHSPacketType;
namespace ht = haptics::types;

namespace {
using Bits = std::vector<bool>;
// remainder of the division of the bits (followed by zeros) by x^width + poly
auto remainder(const Bits &b, int width, uint64_t poly) -> uint64_t {
  uint64_t r = 0;
  const uint64_t top = 1ULL << (width - 1);
  const uint64_t mask = (1ULL << width) - 1;
  for (bool bit : b) {
    bool out = ((r & top) != 0) != bit;
    r = r << 1 & mask;
    if (out) {
      r ^= poly;
    }
  }
  return r;
}
struct Kind {
  MIHSPacketType type;
  int width;
  bool global;
};
const std::vector<Kind> KINDS = {{MIHSPacketType::CRC16, 16, false},
                                 {MIHSPacketType::CRC32, 32, false},
                                 {MIHSPacketType::GlobalCRC16, 16, true},
                                 {MIHSPacketType::GlobalCRC32, 32, true}};
auto poly(const Kind &k) -> uint64_t { return k.width == 16 ? 49185U : 2187366103U; }
auto join(const std::vector<Bits> &v) -> Bits {
  Bits r;
  for (auto &b : v) {
    r.insert(r.end(), b.begin(), b.end());
  }
  return r;
}
// the checksum packet of some packets; empty when refused
auto crcPacket(const Kind &k, std::vector<Bits> packets) -> Bits {
  IOStream::StreamWriter w;
  if (!IOStream::writeMIHSPacket(k.type, w, packets)) {
    return {};
  }
  return packets.size() == 1 ? packets[0] : Bits();
}
auto genBits(pbt::Source &s, int maxBytes) -> Bits {
  Bits b;
  int n = static_cast<int>(s.range(1, maxBytes)) * 8;
  int kind = static_cast<int>(s.range(0, 3));
  for (int i = 0; i < n; i++) {
    b.push_back(kind == 0 ? false : kind == 1 ? s.chance(1, 16) : s.boolean());
  }
  return b;
}

struct Parsed {
  uint64_t nb = 1;
  uint64_t value = 0;
};
auto parse(pbt::Case &c, const Kind &k, const Bits &p) -> Parsed {
  c.require(!p.empty(), "refused", "no checksum packet is written");
  mihs::Bits b(p);
  c.require(b.get(6) == static_cast<uint64_t>(k.type), "type", "packet type");
  auto len = b.get(17);
  b.get(1);
  int want = k.width / 8 + (k.global ? 1 : 0);
  c.require(static_cast<int>(len) == want && b.left() == static_cast<size_t>(want) * 8, "length",
            pbt::str("checksum packet of ", len, " bytes, ", b.left() / 8, " follow, ", want, " expected"));
  Parsed r;
  if (k.global) {
    r.nb = b.get(8);
  }
  r.value = b.get(k.width);
  return r;
}

// value, counts, reading back, detection of every burst
void value(pbt::Source &s, pbt::Case &c) {
  const Kind &k = s.pick(KINDS);
  int n = k.global ? static_cast<int>(s.chance(1, 30) ? s.range(1, 255) : s.range(1, 4)) : 1;
  std::vector<Bits> packets;
  for (int i = 0; i < n; i++) {
    packets.push_back(genBits(s, n > 10 ? 4 : 40));
  }
  auto all = join(packets);
  bool zero = false;
  if (s.chance(1, 6)) { // make the checksum zero
    auto r = remainder(all, k.width, poly(k));
    for (int i = k.width - 1; i >= 0; i--) {
      packets.back().push_back((r >> i & 1) != 0);
    }
    all = join(packets);
    zero = true;
  }
  std::string hex;
  for (size_t i = 0; i < all.size() && i < 400; i++) {
    hex += all[i] ? '1' : '0';
  }
  c.describe(pbt::str("type ", static_cast<int>(k.type), ", ", n, " packets, ", all.size(), " bits ", hex));
  c.label(n > 1, "several packets");
  c.label(zero, "checksum zero");
  c.nontrivial(true);
  auto p = crcPacket(k, packets);
  auto got = parse(c, k, p);
  c.require(got.nb == static_cast<uint64_t>(n), "count", pbt::str("protects ", got.nb, " packets of ", n));
  auto want = remainder(all, k.width, poly(k));
  c.require(got.value == want, "value", pbt::str("checksum ", got.value, ", expected ", want));
  // reading
  auto r = IOStream::initializeStream();
  IOStream::CRC crc;
  crc.value16 = 77;
  crc.value32 = 77;
  c.require(IOStream::readMIHSPacket(p, r, crc), "read", "reading the checksum packet fails");
  c.require(crc.nbPackets == n, "read count", pbt::str("read ", static_cast<int>(crc.nbPackets), " packets of ", n));
  c.require((k.width == 16 ? crc.value16 : crc.value32) == want, "read value", "checksum read differently");
  // any burst no longer than the checksum changes it
  int len = static_cast<int>(s.range(1, k.width));
  auto at = static_cast<size_t>(s.range(0, static_cast<long>(all.size()) - 1));
  auto damaged = packets;
  size_t flips = 0;
  for (int i = 0; i < len; i++) {
    size_t bit = at + static_cast<size_t>(i);
    if (bit >= all.size() || (i != 0 && !s.boolean())) {
      continue;
    }
    for (auto &d : damaged) {
      if (bit < d.size()) {
        d[bit] = !d[bit];
        flips++;
        break;
      }
      bit -= d.size();
    }
  }
  auto other = parse(c, k, crcPacket(k, damaged));
  c.require(other.value != got.value, "undetected", pbt::str(flips, " flipped bits leave the checksum as it was"));
}

// what cannot be protected is refused
void refused(pbt::Source &s, pbt::Case &c) {
  const Kind &k = s.pick(KINDS);
  int n = static_cast<int>(s.boolean() ? 0 : s.range(256, 300));
  if (!k.global && s.boolean()) {
    n = static_cast<int>(s.range(2, 5));
  }
  c.describe(pbt::str("type ", static_cast<int>(k.type), ", ", n, " packets"));
  c.nontrivial(true);
  std::vector<Bits> packets(static_cast<size_t>(n), Bits(16, true));
  IOStream::StreamWriter w;
  c.require(!IOStream::writeMIHSPacket(k.type, w, packets), "accepted",
            pbt::str("a checksum of ", n, " packets is written"));
}

void put(Bits &b, uint64_t v, int n) {
  for (int i = n - 1; i >= 0; i--) {
    b.push_back((v >> i & 1) != 0);
  }
}
void save(const std::string &path, const std::vector<Bits> &units) {
  std::ofstream f(path, std::ios::binary);
  auto all = join(units);
  for (size_t i = 0; i < all.size(); i += 8) {
    int v = 0;
    for (size_t j = 0; j < 8; j++) {
      v = v << 1 | static_cast<int>(all[i + j]);
    }
    f.put(static_cast<char>(v));
  }
}

// a checksum in a file, after the units it protects
void file(pbt::Source &s, pbt::Case &c) {
  sg::Opts o;
  o.maxWindows = 12;
  o.longStrings = false;
  auto m = sg::gen(s, o);
  hm::labels(m.h, c);
  c.describe(pbt::str("packet duration ", m.duration, "\n", hm::dump(m.h)));
  std::vector<Bits> units;
  c.require(IOStream::writeUnits(m.h, units, m.duration), "write", "writing the units fails");
  const Kind &k = s.pick(KINDS);
  size_t n = k.global ? static_cast<size_t>(s.range(1, std::min<long>(255, static_cast<long>(units.size())))) : 1;
  std::vector<Bits> head(units.begin(), units.begin() + static_cast<long>(n));
  auto all = join(head);
  if (all.size() > 6000) {
    c.discard();
  }
  const bool damage = s.boolean();
  auto v = remainder(all, k.width, poly(k));
  if (damage) {
    v ^= 1ULL << s.range(0, k.width - 1);
  }
  Bits payload;
  if (k.global) {
    put(payload, n, 8);
  }
  put(payload, v, k.width);
  Bits unit;
  put(unit, mihs::Temporal, 6);
  put(unit, 1, 2); // no synchronisation point
  put(unit, 0, 4);
  put(unit, 0, 24);
  put(unit, payload.size() / 8 + 3, 32);
  put(unit, 0, 4);
  put(unit, static_cast<uint64_t>(k.type), 6);
  put(unit, payload.size() / 8, 17);
  put(unit, 0, 1);
  unit.insert(unit.end(), payload.begin(), payload.end());
  auto with = units;
  with.insert(with.begin() + static_cast<long>(n), unit);
  std::string path = pbt::scratch() + "/crc.hmpg";
  save(path, with);
  ht::Haptics got;
  c.require(IOStream::readFile(path, got), "read", "reading the file fails");
  // what reading must give: synchronisation lost after the damaged part, nothing otherwise
  auto r = IOStream::initializeStream();
  IOStream::CRC crc;
  bool lost = false;
  for (size_t i = 0; i < units.size(); i++) {
    auto u = units[i];
    if (i == n && damage) {
      r.waitSync = true;
      lost = u[6] || u[7];
    }
    c.require(IOStream::readMIHSUnit(u, r, crc), "read", "reading a unit fails");
  }
  r.haptic.setTimescale(static_cast<int>(r.timescale));
  c.label(damage, "wrong checksum");
  c.label(damage && lost, "wrong checksum before a dependent unit");
  c.label(!damage, "right checksum");
  c.nontrivial(n < units.size());
  std::string d = sg::compare(r.haptic, got, true);
  c.require(d.empty(), damage ? "damaged" : "intact",
            pbt::str(damage ? "wrong" : "right", " checksum after ", n, " units: ", d));
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C06";
  cfg.rule = "'value': checksum packets of random packets against polynomial division, read back, and again "
             "with a random burst of errors no longer than the checksum (every case is non-trivial). 'refused': "
             "no or too many packets. 'file': a right or wrong checksum of the first units inserted after them "
             "(non-trivial: units follow).";
  cfg.assumptions = {"generator polynomials x^16+49185 and x^32+2187366103, as the code defines them",
                     "in files, a checksum directly follows the units it protects, from the first on"};
  cfg.targets = {{"value", value, 15000, 1000000}, {"refused", refused, 2000, 20000}, {"file", file, 8000, 150000}};
  cfg.init = [] {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
  };
  return pbt::run(cfg, argc, argv);
}
