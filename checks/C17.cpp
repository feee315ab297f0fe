// C17: embedded zero-tree block coder: lossless for every block, and total on arbitrary bytes.
#include "pbt.h"
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>

using haptics::spiht::Spiht_Dec;
using haptics::spiht::Spiht_Enc;

namespace {
auto show(const std::vector<int> &v) -> std::string {
  std::string o = "[" + std::to_string(v.size()) + "]";
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] != 0) {
      o += " " + std::to_string(i) + ":" + std::to_string(v[i]);
    }
  }
  return o;
}
auto hex(const std::vector<unsigned char> &v) -> std::string {
  std::string o;
  for (auto b : v) {
    char t[4];
    snprintf(t, sizeof t, "%02x", b);
    o += t;
  }
  return o;
}

struct Block {
  std::vector<int> v;
  int bits;
  double scalar;
};

auto genBlock(pbt::Source &s, pbt::Case &c) -> Block {
  Block b;
  int len = 1 << s.range(3, 10);
  b.bits = static_cast<int>(s.edgy(1, 15));
  const int64_t lim = (1LL << (b.bits + 1)) - 1;
  b.v.assign(static_cast<size_t>(len), 0);
  auto value = [&]() -> int {
    int64_t m = s.edgy(0, lim);
    return static_cast<int>(s.boolean() ? -m : m);
  };
  switch (s.range(0, 4)) {
  case 0: { // sparse
    int n = static_cast<int>(s.range(1, 6));
    for (int i = 0; i < n; i++) {
      b.v[static_cast<size_t>(s.range(0, len - 1))] = value();
    }
    c.label("sparse block");
    break;
  }
  case 1: { // dense small block or dense prefix
    int n = static_cast<int>(s.range(1, std::min(len, 64)));
    for (int i = 0; i < n; i++) {
      b.v[static_cast<size_t>(i)] = value();
    }
    c.label("dense prefix");
    break;
  }
  case 2: { // decaying magnitudes, pseudo-random from one drawn seed
    uint64_t k = s.draw(~0ULL);
    for (int i = 0; i < len; i++) {
      k = pbt::mix64(k);
      int64_t m = static_cast<int64_t>(k % static_cast<uint64_t>(lim + 1)) >> std::min(14, (i * 8) / len);
      b.v[static_cast<size_t>(i)] = static_cast<int>((k >> 40) & 1 ? -m : m);
    }
    c.label("decaying block");
    break;
  }
  case 3: { // dense, uniform
    uint64_t k = s.draw(~0ULL);
    for (int i = 0; i < len; i++) {
      k = pbt::mix64(k);
      int64_t m = static_cast<int64_t>(k % static_cast<uint64_t>(lim + 1));
      b.v[static_cast<size_t>(i)] = static_cast<int>((k >> 40) & 1 ? -m : m);
    }
    c.label("dense block");
    break;
  }
  default: // a run of equal values in the finest scale
    for (int i = len / 2 + static_cast<int>(s.range(0, len / 2 - 1)), v = value(); i < len; i++) {
      b.v[static_cast<size_t>(i)] = v;
    }
    c.label("tail run");
    break;
  }
  b.scalar = s.chance(1, 4) ? static_cast<double>(s.range(0, 127)) / 128.0
             : s.boolean()  ? 1.0 + static_cast<double>(s.range(0, 127)) / 8.0
                            : s.real(0.0, 16.9);
  return b;
}
// the 8-bit coding of the scale factor: 7 fraction bits below 1, 4+3 bits from 1 on
auto coded(double scalar) -> double {
  return scalar < 1 ? std::floor(scalar * 128) / 128 : 1 + std::floor((scalar - 1) * 8) / 8;
}

void lossless(pbt::Source &s, pbt::Case &c) {
  Spiht_Enc enc; // one coder over several blocks: nothing may leak from one block to the next
  Spiht_Dec dec;
  int n = static_cast<int>(s.range(1, 4));
  for (int i = 0; i < n; i++) {
    Block b = genBlock(s, c);
    bool zero = true;
    for (auto v : b.v) {
      zero = zero && v == 0;
    }
    c.describe(pbt::str("bits=", b.bits, " scale=", b.scalar, " block=", show(b.v)));
    c.nontrivial(!zero);
    c.label(i > 0, "coder reused");
    std::vector<int> in = b.v;
    std::vector<unsigned char> bytes;
    enc.encodeEffect(in, b.bits, b.scalar, bytes);
    c.require(in == b.v, "input-modified", "encoding changed the block");
    std::vector<unsigned char> fresh;
    Spiht_Enc enc2;
    enc2.encodeEffect(in, b.bits, b.scalar, fresh);
    c.require(fresh == bytes, "history", "a reused encoder gives other bytes than a new one: " +
                                             hex(bytes) + " vs " + hex(fresh));
    std::vector<int> out;
    double scalar = -1;
    int bits = -1;
    std::vector<unsigned char> copy = bytes;
    dec.decodeEffect(copy, out, static_cast<int>(b.v.size()), scalar, bits);
    c.require(out.size() == b.v.size(), "length", pbt::str("decoded length ", out.size()));
    c.require(out == b.v, "block", "decoded block differs: " + show(out));
    if (zero) {
      c.require(bytes.empty(), "zero-block", "an all-zero block has a non-empty stream");
      c.label("zero block");
    } else {
      c.require(bits == b.bits, "bits", pbt::str("bit depth ", bits));
      c.require(scalar == coded(b.scalar), "scale",
                pbt::str("scale ", scalar, ", expected ", coded(b.scalar)));
    }
  }
}

// any byte string decodes to a block of the announced size and magnitude; the decoder stays usable
void anyBytes(pbt::Source &s, pbt::Case &c) {
  int len = 1 << s.range(4, 10);
  std::vector<unsigned char> bytes;
  int mode = static_cast<int>(s.range(0, 2));
  if (mode == 0) {
    for (int n = static_cast<int>(s.range(0, 40)); n > 0; n--) {
      bytes.push_back(static_cast<unsigned char>(s.range(0, 255)));
    }
    c.label("raw bytes");
  } else if (mode == 1) {
    uint64_t k = s.draw(~0ULL);
    for (int n = static_cast<int>(s.range(0, 2000)); n > 0; n--) {
      k = pbt::mix64(k);
      bytes.push_back(static_cast<unsigned char>(k));
    }
    c.label("long random bytes");
  } else { // a valid stream, damaged
    Block b = genBlock(s, c);
    while (b.v.size() < 16) {
      b.v.push_back(0);
    }
    Spiht_Enc enc;
    enc.encodeEffect(b.v, b.bits, b.scalar, bytes);
    len = s.boolean() ? static_cast<int>(b.v.size()) : len;
    if (!bytes.empty()) {
      if (s.boolean()) {
        bytes.resize(static_cast<size_t>(s.range(0, static_cast<int64_t>(bytes.size()))));
        c.label("truncated stream");
      }
      for (int n = static_cast<int>(s.range(0, 4)); n > 0 && !bytes.empty(); n--) {
        bytes[static_cast<size_t>(s.range(0, static_cast<int64_t>(bytes.size()) - 1))] ^=
            static_cast<unsigned char>(1U << s.range(0, 7));
        c.label("bits flipped");
      }
    }
  }
  c.describe(pbt::str("length=", len, " bytes=", hex(bytes)));
  c.nontrivial(!bytes.empty());
  Spiht_Dec dec;
  std::vector<int> out;
  double scalar = -1;
  int bits = -1;
  dec.decodeEffect(bytes, out, len, scalar, bits);
  c.require(static_cast<int>(out.size()) == len, "length", pbt::str("decoded length ", out.size()));
  c.require(bits >= 0 && bits <= 15, "bits", pbt::str("bit depth ", bits));
  c.require(scalar >= 0 && scalar < 17, "scale", pbt::str("scale ", scalar));
  for (auto v : out) {
    c.require(std::abs(v) < (1 << (bits + 1)), "magnitude",
              pbt::str("value ", v, " at bit depth ", bits));
  }
  c.label(bits > 0, "some bit planes");
  // a decoder that has seen garbage decodes the next valid stream correctly
  std::vector<int> block(16, 0);
  block[3] = 5;
  block[12] = -2;
  Spiht_Enc enc;
  std::vector<unsigned char> good;
  enc.encodeEffect(block, 3, 0.5, good);
  std::vector<int> out2;
  dec.decodeEffect(good, out2, 16, scalar, bits);
  c.require(out2 == block && bits == 3 && scalar == 0.5, "history",
            "after decoding arbitrary bytes a valid stream decodes wrongly: " + show(out2));
}

// the leading bit planes are an approximation that only gets better (embedded code)
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C17";
  cfg.rule =
      "lossless: 1-4 integer blocks of 8..1024 values (sparse, dense, decaying, tail runs, up to the "
      "largest magnitude of the bit depth) are coded and decoded with reused coder objects; anyBytes: "
      "random byte strings and damaged valid streams are decoded. Non-trivial: a block with a "
      "non-zero value / a non-empty byte string.";
  cfg.assumptions = {"block lengths are powers of two (8..1024 for valid streams, 16..1024 for "
                     "arbitrary bytes), magnitudes below 2^(bits+1), bits 1..15, scale below 17"};
  cfg.targets = {{"lossless", lossless, 40000, 800000}, {"anyBytes", anyBytes, 80000, 2000000}};
  return pbt::run(cfg, argc, argv);
}
