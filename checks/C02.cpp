// C02: bit-level field codec. Sequences of fields of every kind, at every bit alignment.
#include "pbt.h"
#include "model.h"
#include <IOHaptics/include/IOBinaryPrimitives.h>
#include <array>
#include <fstream>
#include <sstream>
#include <utility>

using P = haptics::io::IOBinaryPrimitives;
using Bits = std::vector<bool>;

namespace {
template <size_t N> void wU32(uint32_t v, Bits &o) { P::writeNBits<uint32_t, N>(v, o); }
template <size_t N> auto rU32(std::istream &f, Bits &u) -> uint32_t {
  return P::readNBits<uint32_t, N>(f, u);
}
template <size_t N> void wU16(uint32_t v, Bits &o) {
  P::writeNBits<uint16_t, N>(static_cast<uint16_t>(v), o);
}
template <size_t N> auto rU16(std::istream &f, Bits &u) -> uint32_t {
  return P::readNBits<uint16_t, N>(f, u);
}
template <size_t N> void wU8(uint32_t v, Bits &o) {
  P::writeNBits<uint8_t, N>(static_cast<uint8_t>(v), o);
}
template <size_t N> auto rU8(std::istream &f, Bits &u) -> uint32_t {
  return P::readNBits<uint8_t, N>(f, u);
}
using W = void (*)(uint32_t, Bits &);
using R = uint32_t (*)(std::istream &, Bits &);
template <size_t... I> auto tabW32(std::index_sequence<I...>) -> std::array<W, sizeof...(I)> {
  return {wU32<I + 1>...};
}
template <size_t... I> auto tabR32(std::index_sequence<I...>) -> std::array<R, sizeof...(I)> {
  return {rU32<I + 1>...};
}
template <size_t... I> auto tabW16(std::index_sequence<I...>) -> std::array<W, sizeof...(I)> {
  return {wU16<I + 1>...};
}
template <size_t... I> auto tabR16(std::index_sequence<I...>) -> std::array<R, sizeof...(I)> {
  return {rU16<I + 1>...};
}
template <size_t... I> auto tabW8(std::index_sequence<I...>) -> std::array<W, sizeof...(I)> {
  return {wU8<I + 1>...};
}
template <size_t... I> auto tabR8(std::index_sequence<I...>) -> std::array<R, sizeof...(I)> {
  return {rU8<I + 1>...};
}

// the coded real-number fields of the formats
enum FK { AMP, PHASE, GAIN, MIX, FREQ32 };
struct FInfo {
  size_t bits;
  double lo, hi;
};
const FInfo finfo[] = {{8, -1, 1}, {16, 0, 6.28318F}, {32, -10000, 10000}, {32, 0, 10000}, {32, 0, 10000}};
void wF(int k, float v, Bits &o) {
  switch (k) {
  case AMP:
    P::writeFloatNBits<uint8_t, 8>(v, o, -1, 1);
    break;
  case PHASE:
    P::writeFloatNBits<uint16_t, 16>(v, o, 0, haptics::io::MAX_PHASE);
    break;
  case GAIN:
    P::writeFloatNBits<uint32_t, 32>(v, o, -haptics::io::MAX_FLOAT, haptics::io::MAX_FLOAT);
    break;
  case MIX:
    P::writeFloatNBits<uint32_t, 32>(v, o, 0, haptics::io::MAX_FLOAT);
    break;
  default:
    P::writeFloatNBits<uint32_t, 32>(v, o, 0, haptics::io::MAX_FREQUENCY);
  }
}
auto rF(int k, std::istream &f, Bits &u) -> float {
  switch (k) {
  case AMP:
    return P::readFloatNBits<uint8_t, 8>(f, -1, 1, u);
  case PHASE:
    return P::readFloatNBits<uint16_t, 16>(f, 0, haptics::io::MAX_PHASE, u);
  case GAIN:
    return P::readFloatNBits<uint32_t, 32>(f, -haptics::io::MAX_FLOAT, haptics::io::MAX_FLOAT, u);
  case MIX:
    return P::readFloatNBits<uint32_t, 32>(f, 0, haptics::io::MAX_FLOAT, u);
  default:
    return P::readFloatNBits<uint32_t, 32>(f, 0, haptics::io::MAX_FREQUENCY, u);
  }
}
auto rFBits(int k, Bits &b, int &i) -> float {
  switch (k) {
  case AMP:
    return P::readFloatNBits<8>(b, i, -1, 1);
  case PHASE:
    return P::readFloatNBits<16>(b, i, 0, haptics::io::MAX_PHASE);
  case GAIN:
    return P::readFloatNBits<32>(b, i, -haptics::io::MAX_FLOAT, haptics::io::MAX_FLOAT);
  case MIX:
    return P::readFloatNBits<32>(b, i, 0, haptics::io::MAX_FLOAT);
  default:
    return P::readFloatNBits<32>(b, i, 0, haptics::io::MAX_FREQUENCY);
  }
}
auto tolF(int k, double v) -> double {
  const FInfo &f = finfo[k];
  // half a quantisation step, plus single-precision rounding of the normalised value
  return (f.hi - f.lo) / (std::pow(2.0, static_cast<double>(f.bits)) - 1) / 2 +
         4e-7 * std::max(f.hi - f.lo > 2 * f.hi - 1e-9 ? f.hi - f.lo : std::fabs(v), 1e-12) + 1e-9;
}

struct Field {
  int kind; // 0 uN, 1 u16, 2 u8, 3 string, 4 vector, 5 float, 6 signed
  size_t bits = 0;
  uint32_t u = 0;
  int i = 0;
  std::string s;
  int8_t x = 0, y = 0, z = 0;
  int fk = 0;
  float f = 0;
};

void sequence(pbt::Source &s, pbt::Case &c) {
  static const auto w32 = tabW32(std::make_index_sequence<32>{});
  static const auto r32 = tabR32(std::make_index_sequence<32>{});
  static const auto w16 = tabW16(std::make_index_sequence<16>{});
  static const auto r16 = tabR16(std::make_index_sequence<16>{});
  static const auto w8 = tabW8(std::make_index_sequence<8>{});
  static const auto r8 = tabR8(std::make_index_sequence<8>{});
  Bits out;
  std::vector<bool> model; // independent big-endian packing
  std::vector<Field> fields;
  int n = static_cast<int>(s.range(1, 20));
  auto packModel = [&](uint64_t v, size_t bits) {
    for (size_t b = 0; b < bits; b++) {
      model.push_back(((v >> (bits - 1 - b)) & 1U) != 0);
    }
  };
  std::string desc;
  bool unaligned = false;
  for (int k = 0; k < n; k++) {
    Field f;
    f.kind = static_cast<int>(s.range(0, 6));
    unaligned = unaligned || out.size() % 8 != 0;
    switch (f.kind) {
    case 0:
    case 1:
    case 2: {
      size_t maxBits = f.kind == 0 ? 32 : (f.kind == 1 ? 16 : 8);
      f.bits = static_cast<size_t>(s.range(1, static_cast<int64_t>(maxBits)));
      f.u = static_cast<uint32_t>(s.edgy(0, static_cast<int64_t>((1ULL << f.bits) - 1)));
      (f.kind == 0 ? w32[f.bits - 1] : f.kind == 1 ? w16[f.bits - 1] : w8[f.bits - 1])(f.u, out);
      packModel(f.u, f.bits);
      desc += pbt::str("u", f.bits, "=", f.u, " ");
      break;
    }
    case 3: {
      f.s = hm::genString(s, 255, true);
      P::writeString(f.s, out);
      packModel(f.s.size(), 8);
      for (unsigned char ch : f.s) {
        packModel(ch, 8);
      }
      desc += pbt::str("str(", f.s.size(), ") ");
      break;
    }
    case 4: {
      auto v = hm::genVector(s);
      f.x = v.X;
      f.y = v.Y;
      f.z = v.Z;
      P::writeVector(v, out);
      packModel(static_cast<uint8_t>(f.x), 8);
      packModel(static_cast<uint8_t>(f.y), 8);
      packModel(static_cast<uint8_t>(f.z), 8);
      desc += pbt::str("vec(", (int)f.x, ",", (int)f.y, ",", (int)f.z, ") ");
      break;
    }
    case 5: {
      f.fk = static_cast<int>(s.range(0, 4));
      const FInfo &fi = finfo[f.fk];
      f.f = hm::genFloat(s, fi.lo, fi.hi, true);
      size_t before = out.size();
      wF(f.fk, f.f, out);
      c.require(out.size() - before == fi.bits, "float-width", "a real field has the wrong width");
      for (size_t b = before; b < out.size(); b++) {
        model.push_back(out[b]);
      }
      desc += pbt::str("f", f.fk, "=", f.f, " ");
      break;
    }
    default: { // two's complement
      f.bits = static_cast<size_t>(s.range(2, 31));
      int64_t lim = 1LL << (f.bits - 1);
      f.i = static_cast<int>(s.boolean() ? s.range(-lim, lim - 1) : s.edgy(0, lim - 1));
      w32[f.bits - 1](static_cast<uint32_t>(f.i), out);
      packModel(static_cast<uint32_t>(f.i) & static_cast<uint32_t>((1ULL << f.bits) - 1), f.bits);
      desc += pbt::str("i", f.bits, "=", f.i, " ");
    }
    }
    fields.push_back(f);
  }
  c.describe(desc);
  c.label(unaligned, "field not byte aligned");
  c.nontrivial(n >= 2 && unaligned);
  c.require(out == model, "packing", "bits written differ from big-endian packing: " + desc);

  Bits padded = out;
  P::fillBitset(padded);
  bool padOk = padded.size() % 8 == 0 && padded.size() - out.size() < 8;
  for (size_t b = 0; b < padded.size() && padOk; b++) {
    padOk = padded[b] == (b < out.size() ? out[b] : false);
  }
  c.require(padOk, "padding", "padding is not the fewest zero bits up to a byte");
  std::ostringstream file;
  P::writeBitset(s.boolean() ? padded : out, file);
  std::string bytes = file.str();
  bool bytesOk = bytes.size() == padded.size() / 8;
  for (size_t b = 0; b < padded.size() && bytesOk; b++) {
    bytesOk = (((static_cast<unsigned char>(bytes[b / 8]) >> (7 - b % 8)) & 1U) != 0) == padded[b];
  }
  c.require(bytesOk, "bytes", "bytes written are not the bits, most significant first");

  // stream readers
  {
    std::istringstream in(bytes);
    Bits unused;
    for (size_t k = 0; k < fields.size(); k++) {
      const Field &f = fields[k];
      std::string where = pbt::str("field ", k, " of ", desc);
      switch (f.kind) {
      case 0:
      case 1:
      case 2: {
        uint32_t v = (f.kind == 0 ? r32[f.bits - 1]
                      : f.kind == 1 ? r16[f.bits - 1]
                                    : r8[f.bits - 1])(in, unused);
        c.require(v == f.u, "uint-stream", pbt::str("read ", v, " instead of ", f.u, ", ", where));
        break;
      }
      case 3:
        c.require(P::readString(in, unused) == f.s, "string-stream", "string differs, " + where);
        break;
      case 4: {
        auto v = P::readVector(in, unused);
        c.require(v.X == f.x && v.Y == f.y && v.Z == f.z, "vector-stream", "vector differs, " + where);
        break;
      }
      case 5: {
        float v = rF(f.fk, in, unused);
        double want = std::min(std::max<double>(f.f, finfo[f.fk].lo), finfo[f.fk].hi);
        c.require(std::fabs(v - want) <= tolF(f.fk, want), "float-stream",
                  pbt::str("read ", v, " instead of ", want, " (tolerance ", tolF(f.fk, want), "), ", where));
        break;
      }
      default: {
        uint32_t v = r32[f.bits - 1](in, unused);
        auto want = static_cast<uint32_t>(f.i) & static_cast<uint32_t>((1ULL << f.bits) - 1);
        c.require(v == want, "int-stream", "two's complement bits differ, " + where);
      }
      }
      c.require(unused.size() < 8, "unused", "more than 7 bits left over, " + where);
    }
  }
  // bit-vector readers
  {
    Bits bits;
    std::istringstream in(bytes);
    P::readNBytes(in, static_cast<int>(bytes.size()), bits);
    c.require(bits == padded, "readNBytes", "readNBytes does not give back the bits");
    int idx = 0;
    int expectIdx = 0;
    for (size_t k = 0; k < fields.size(); k++) {
      const Field &f = fields[k];
      std::string where = pbt::str("field ", k, " of ", desc);
      switch (f.kind) {
      case 0:
      case 1:
      case 2: {
        auto v = static_cast<uint32_t>(P::readUInt(bits, idx, static_cast<int>(f.bits)));
        c.require(v == f.u, "uint-bits", pbt::str("read ", v, " instead of ", f.u, ", ", where));
        expectIdx += static_cast<int>(f.bits);
        break;
      }
      case 3: {
        int len = P::readUInt(bits, idx, 8);
        c.require(len == static_cast<int>(f.s.size()), "string-len-bits", "string length differs, " + where);
        c.require(P::readString(bits, idx, len) == f.s, "string-bits", "string differs, " + where);
        expectIdx += 8 + 8 * len;
        break;
      }
      case 4: {
        int x = P::readInt(bits, idx, 8);
        int y = P::readInt(bits, idx, 8);
        int z = P::readInt(bits, idx, 8);
        c.require(x == f.x && y == f.y && z == f.z, "vector-bits", "vector differs, " + where);
        expectIdx += 24;
        break;
      }
      case 5: {
        float v = rFBits(f.fk, bits, idx);
        std::istringstream again(bytes);
        double want = std::min(std::max<double>(f.f, finfo[f.fk].lo), finfo[f.fk].hi);
        c.require(std::fabs(v - want) <= tolF(f.fk, want), "float-bits",
                  pbt::str("read ", v, " instead of ", want, ", ", where));
        expectIdx += static_cast<int>(finfo[f.fk].bits);
        break;
      }
      default: {
        int v = P::readInt(bits, idx, static_cast<int>(f.bits));
        c.require(v == f.i, "int-bits", pbt::str("read ", v, " instead of ", f.i, ", ", where));
        expectIdx += static_cast<int>(f.bits);
      }
      }
      c.require(idx == expectIdx, "index", pbt::str("read position is ", idx, " instead of ", expectIdx, ", ", where));
    }
  }
}

void floats(pbt::Source &s, pbt::Case &c) {
  int k = static_cast<int>(s.range(0, 4));
  const FInfo &fi = finfo[k];
  auto coded = [&](float v) {
    Bits b;
    wF(k, v, b);
    int i = 0;
    uint32_t u = 0;
    for (bool x : b) {
      u = u << 1U | (x ? 1U : 0U);
    }
    float viaBits = rFBits(k, b, i);
    std::ostringstream o;
    P::fillBitset(b);
    P::writeBitset(b, o);
    std::istringstream in(o.str());
    Bits un;
    float viaStream = rF(k, in, un);
    c.require(viaBits == viaStream, "readers-differ",
              pbt::str("the two readers disagree on ", v, ": ", viaBits, " and ", viaStream));
    return std::make_pair(u, viaBits);
  };
  float a = hm::genFloat(s, fi.lo, fi.hi, true);
  float b = s.chance(1, 2)
                ? hm::genFloat(s, fi.lo, fi.hi, true)
                : static_cast<float>(a + (fi.hi - fi.lo) / std::pow(2.0, fi.bits) * s.real(-3, 3));
  if (b < a) {
    std::swap(a, b);
  }
  auto ca = coded(a);
  auto cb = coded(b);
  c.describe(pbt::str("field ", k, ": ", a, " -> ", ca.first, " -> ", ca.second, ", ", b, " -> ",
                      cb.first, " -> ", cb.second));
  c.nontrivial(a < b);
  c.label(ca.first == cb.first, "same code");
  c.label(a < fi.lo || b > fi.hi, "outside the range");
  c.require(ca.first <= cb.first, "order", pbt::str("order not kept: ", a, " < ", b, " but codes ", ca.first, " > ", cb.first));
  c.require(ca.second <= cb.second, "order", pbt::str("order not kept by decoding ", a, " and ", b));
  for (auto [v, r] : {std::make_pair(a, ca.second), std::make_pair(b, cb.second)}) {
    double want = std::min(std::max<double>(v, fi.lo), fi.hi);
    c.require(r >= fi.lo - 1e-6 && r <= fi.hi + 1e-6, "range", pbt::str(v, " decodes to ", r, " outside the range"));
    c.require(std::fabs(r - want) <= tolF(k, want), "error", pbt::str(v, " decodes to ", r));
    if (v <= fi.lo || v >= fi.hi) {
      c.require(r == static_cast<float>(want), "end", pbt::str("end of the range ", want, " decodes to ", r));
    }
  }
  // coding what was decoded again changes nothing (single precision holds no 32 bits)
  for (float r : {ca.second, cb.second}) {
    auto again = coded(r);
    c.require(fi.bits > 16 ? std::fabs(again.second - r) <= tolF(k, r) : again.second == r, "drift", pbt::str(r, " was decoded, coding it again gives ", again.second));
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C02";
  cfg.rule = "Random sequences of 1-20 fields (unsigned of 1-32 bits through three carrier types, two's "
             "complement, strings, vectors, coded reals) are written one after the other and read with "
             "the stream reader and the bit-vector reader against an independent bit packer; 'floats' "
             "takes pairs of reals for order, range, error and for coding again what was decoded. Non-trivial: at least two fields with one "
             "not byte aligned; two different reals.";
  cfg.assumptions = {"integers fit their field; signed fields of at most 31 bits"};
  cfg.targets = {{"sequence", sequence, 160000, 4000000}, {"floats", floats, 1000000, 24000000}};
  return pbt::run(cfg, argc, argv);
}
