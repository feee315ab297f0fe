// Parser of MIHS streams, written from the layout of units and packets, independent of the code
// under test.
#pragma once
#include "pbt.h"
#include <cstdint>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace mihs {
enum UnitType { Init = 0, Temporal = 1, Spatial = 2, Silent = 3 };
enum PacketType {
  Timing,
  MetaHaptics,
  MetaPerception,
  MetaChannel,
  MetaBand,
  Data,
  Library,
  CRC32,
  CRC16,
  GCRC16,
  GCRC32,
  InitTiming
};

struct Bits {
  const std::vector<bool> *b;
  size_t at = 0;
  size_t end;
  explicit Bits(const std::vector<bool> &v) : b(&v), end(v.size()) {}
  auto left() const -> size_t { return end - at; }
  auto get(int n) -> uint64_t {
    if (left() < static_cast<size_t>(n)) {
      throw std::runtime_error("content shorter than its fields");
    }
    uint64_t v = 0;
    for (int i = 0; i < n; i++) {
      v = v << 1 | static_cast<uint64_t>((*b)[at++]);
    }
    return v;
  }
  auto str() -> std::string {
    auto n = get(8);
    std::string s;
    for (uint64_t i = 0; i < n; i++) {
      s += static_cast<char>(get(8));
    }
    return s;
  }
};

struct Packet {
  int type = 0;
  std::vector<bool> payload;
};
struct Unit {
  int type = 0;
  int sync = 0;
  int layer = 0;
  int64_t duration = 0;
  int64_t length = 0;
  int64_t time = 0; // sum of the durations of the units before
  std::vector<Packet> packets;
};
struct Key {
  int at = 0; // relative to its effect
  int amp = -1;
  int freq = -1;
};
struct Fx {
  int id = 0;
  int type = 0;
  int pos = 0; // relative to its unit
  int semantic = -1;
  int phase = 0;
  int base = 0;
  std::vector<Key> keys;
  std::vector<unsigned char> wavelet;
};
struct DataPacket {
  bool dau = false;
  int perception = 0;
  int channel = 0;
  int band = 0;
  std::vector<Fx> fx;
};
struct BandInfo {
  int id = 0;
  int perception = 0;
  int channel = 0;
  int priority = 0;
  int type = 0;
  int code = 0; // curve type or block length
  int low = 0;
  int up = 0;
  int effects = 0;
};

// the units of a stream; throws when the framing is wrong
inline auto parse(const std::vector<bool> &bits) -> std::vector<Unit> {
  std::vector<Unit> us;
  Bits in(bits);
  int64_t time = 0;
  while (in.left() > 0) {
    Unit u;
    u.type = static_cast<int>(in.get(6));
    u.sync = static_cast<int>(in.get(2));
    u.layer = static_cast<int>(in.get(4));
    u.duration = static_cast<int64_t>(in.get(24));
    u.length = static_cast<int64_t>(in.get(32));
    if (in.get(4) != 0) {
      throw std::runtime_error("reserved bits of a unit set");
    }
    if (static_cast<int64_t>(in.left()) < u.length * 8) {
      throw std::runtime_error(pbt::str("unit ", us.size(), " announces ", u.length, " bytes, ",
                                        in.left() / 8, " follow"));
    }
    size_t end = in.at + static_cast<size_t>(u.length) * 8;
    while (in.at < end) {
      if (end - in.at < 24) {
        throw std::runtime_error("unit ends inside a packet header");
      }
      Packet p;
      p.type = static_cast<int>(in.get(6));
      auto n = static_cast<size_t>(in.get(17)) * 8;
      if (in.get(1) != 0) {
        throw std::runtime_error("reserved bit of a packet set");
      }
      if (p.type > InitTiming) {
        throw std::runtime_error(pbt::str("packet of type ", p.type));
      }
      if (in.at + n > end) {
        throw std::runtime_error(pbt::str("packet of type ", p.type, " of ", n / 8, " bytes, ",
                                          (end - in.at) / 8, " left in its unit"));
      }
      p.payload.assign(bits.begin() + static_cast<long>(in.at),
                       bits.begin() + static_cast<long>(in.at + n));
      in.at += n;
      u.packets.push_back(p);
    }
    u.time = time;
    time += u.duration;
    us.push_back(u);
  }
  return us;
}

inline void noTail(Bits &b, const std::string &what) {
  if (b.left() >= 8) {
    throw std::runtime_error(pbt::str(what, ": ", b.left(), " bits after the last field"));
  }
  while (b.left() > 0) {
    if (b.get(1) != 0) {
      throw std::runtime_error(what + ": stuffing bits set");
    }
  }
}

inline auto bandInfo(const Packet &p) -> BandInfo {
  Bits b(p.payload);
  BandInfo r;
  r.id = static_cast<int>(b.get(8));
  r.perception = static_cast<int>(b.get(8));
  r.channel = static_cast<int>(b.get(16));
  r.priority = static_cast<int>(b.get(8));
  r.type = static_cast<int>(b.get(3));
  if (r.type == 1) {
    r.code = static_cast<int>(b.get(4));
  } else if (r.type == 3) {
    r.code = static_cast<int>(b.get(8));
  }
  r.low = static_cast<int>(b.get(16));
  r.up = static_cast<int>(b.get(16));
  r.effects = static_cast<int>(b.get(16));
  noTail(b, "band metadata");
  return r;
}

inline auto data(const Packet &p, const std::map<int, BandInfo> &bands, int transient, int curve,
                 int vectorial, int wavelet) -> DataPacket {
  Bits b(p.payload);
  DataPacket d;
  d.dau = b.get(1) == 1;
  d.perception = static_cast<int>(b.get(8));
  d.channel = static_cast<int>(b.get(16));
  d.band = static_cast<int>(b.get(8));
  auto n = b.get(16);
  if (bands.count(d.band) == 0) {
    throw std::runtime_error(pbt::str("data of unannounced band ", d.band));
  }
  int type = bands.at(d.band).type;
  for (uint64_t i = 0; i < n; i++) {
    Fx e;
    e.id = static_cast<int>(b.get(16));
    e.type = static_cast<int>(b.get(2));
    if (type == wavelet) {
      if (b.get(1) == 1) {
        e.semantic = static_cast<int>(b.get(12));
      }
      auto size = b.get(16);
      for (uint64_t k = 0; k < size; k++) {
        e.wavelet.push_back(static_cast<unsigned char>(b.get(8)));
      }
      d.fx.push_back(e);
      continue;
    }
    auto pos = static_cast<int64_t>(b.get(25));
    e.pos = static_cast<int>(pos >= 1 << 24 ? pos - (1 << 25) : pos);
    if (e.type == 0) {
      if (b.get(1) == 1) {
        e.semantic = static_cast<int>(b.get(12));
      }
      auto nk = b.get(16);
      if (type == vectorial) {
        e.phase = static_cast<int>(b.get(16));
        e.base = static_cast<int>(b.get(4));
      }
      for (uint64_t k = 0; k < nk; k++) {
        Key f;
        if (type == vectorial) {
          auto mask = b.get(2);
          if ((mask & 1) != 0) {
            f.amp = static_cast<int>(b.get(8));
          }
          f.at = static_cast<int>(b.get(16));
          if ((mask & 2) != 0) {
            f.freq = static_cast<int>(b.get(16));
          }
        } else {
          f.amp = static_cast<int>(b.get(8));
          f.at = static_cast<int>(b.get(16));
          if (type == transient) {
            f.freq = static_cast<int>(b.get(16));
          } else if (type != curve) {
            throw std::runtime_error(pbt::str("band of type ", type));
          }
        }
        e.keys.push_back(f);
      }
    }
    d.fx.push_back(e);
  }
  noTail(b, "data");
  return d;
}
} // namespace mihs
