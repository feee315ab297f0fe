// C18: adaptive arithmetic coder and its bit packing.
#include "pbt.h"
#include <Spiht/include/ArithDec.h>
#include <Spiht/include/ArithEnc.h>

using haptics::spiht::ArithDec;
using haptics::spiht::ArithEnc;

namespace {
struct Msg {
  std::vector<unsigned char> sym;
  std::vector<int> ctx;
};
auto genMsg(pbt::Source &s, pbt::Case &c) -> Msg {
  Msg m;
  int style = static_cast<int>(s.range(0, 5));
  if (style == 0) { // explicit
    int n = static_cast<int>(s.range(0, 40));
    for (int i = 0; i < n; i++) {
      m.sym.push_back(static_cast<unsigned char>(s.range(0, 1)));
      m.ctx.push_back(static_cast<int>(s.range(0, 6)));
    }
    c.label("explicit");
    return m;
  }
  if (style == 5) { // long runs: the statistics of a context become extreme, then change
    for (int k = static_cast<int>(s.range(1, 6)); k > 0; k--) {
      auto sym = static_cast<unsigned char>(s.range(0, 1));
      int ctx = static_cast<int>(s.chance(1, 2) ? 2 : s.range(0, 6));
      int len = static_cast<int>(s.boolean() ? s.range(1, 8) : s.range(1, 6000));
      m.sym.insert(m.sym.end(), static_cast<size_t>(len), sym);
      m.ctx.insert(m.ctx.end(), static_cast<size_t>(len), ctx);
    }
    c.label("long runs");
    return m;
  }
  int n = static_cast<int>(style == 4 ? s.range(1, 6000) : s.range(1, 600));
  uint64_t k = s.draw(~0ULL);
  // probability of a one per context
  std::vector<uint64_t> p(7);
  for (auto &x : p) {
    x = style == 1 ? 0 : style == 2 ? 1000 : static_cast<uint64_t>(s.range(0, 1000));
  }
  int oneCtx = static_cast<int>(s.range(-1, 6));
  for (int i = 0; i < n; i++) {
    k = pbt::mix64(k);
    int ctx = oneCtx >= 0 ? oneCtx : static_cast<int>((k >> 32) % 7);
    m.ctx.push_back(ctx);
    m.sym.push_back(static_cast<unsigned char>((k & 0xffff) % 1000 < p[static_cast<size_t>(ctx)]));
  }
  // rare exceptions in a skewed stream
  for (int e = static_cast<int>(s.range(0, 3)); e > 0; e--) {
    m.sym[static_cast<size_t>(s.range(0, n - 1))] ^= 1;
  }
  c.label(style == 1, "mostly zeros");
  c.label(style == 2, "mostly ones");
  c.label(style == 4, "long");
  return m;
}
auto show(const Msg &m) -> std::string {
  std::string o = std::to_string(m.sym.size()) + " symbols:";
  for (size_t i = 0; i < m.sym.size() && i < 200; i++) {
    o += " " + std::to_string(m.ctx[i]) + "/" + std::to_string((int)m.sym[i]);
  }
  return o;
}

void roundTrip(pbt::Source &s, pbt::Case &c) {
  ArithEnc enc;
  ArithDec dec;
  int n = static_cast<int>(s.range(1, 4));
  for (int i = 0; i < n; i++) {
    Msg m = genMsg(s, c);
    c.describe(show(m));
    c.nontrivial(!m.sym.empty());
    std::vector<unsigned char> sym = m.sym;
    std::vector<int> ctx = m.ctx;
    std::vector<unsigned char> bits;
    enc.encode(sym, ctx, bits);
    c.require(sym == m.sym && ctx == m.ctx, "input-modified", "encoding changed its input");
    for (auto b : bits) {
      c.require(b <= 1, "bit-values", pbt::str("code contains ", (int)b));
    }
    c.require(bits.empty() || bits.back() == 1, "trailing-zeros", "code ends with zeros");
    std::vector<unsigned char> bytes;
    ArithEnc::convert2bytes(bits, bytes);
    c.require(bytes.size() == (bits.size() + 7) / 8, "packed-size",
              pbt::str(bits.size(), " bits in ", bytes.size(), " bytes"));
    std::vector<unsigned char> unpacked;
    ArithDec::convert2bits(bytes, unpacked);
    c.require(unpacked.size() == bytes.size() * 8, "unpacked-size", pbt::str(unpacked.size()));
    for (size_t j = 0; j < unpacked.size(); j++) {
      c.require(unpacked[j] == (j < bits.size() ? bits[j] : 0), "packing",
                pbt::str("bit ", j, " changes in packing"));
    }
    // decode from the code itself, or from its packed form (padding zeros change nothing)
    bool packed = s.boolean();
    c.label(packed, "decoded from bytes");
    std::vector<unsigned char> code = packed ? unpacked : bits;
    dec.initDecoding(code);
    for (size_t j = 0; j < m.sym.size(); j++) {
      int r = dec.decode(m.ctx[j]);
      c.require(r == m.sym[j], "symbol",
                pbt::str("symbol ", j, " of message ", i, " decodes to ", r));
    }
    // statistics kept (rescaled) or reset between messages, in step on both sides
    if (s.boolean()) {
      enc.resetCounter();
      dec.resetCounter();
      c.label(i + 1 < n, "reset between messages");
    } else {
      dec.rescaleCounter();
      c.label(i + 1 < n, "statistics kept between messages");
    }
  }
}

// a reset coder behaves as a new one; skewed messages get short
void resets(pbt::Source &s, pbt::Case &c) {
  Msg warm = genMsg(s, c);
  Msg m = genMsg(s, c);
  c.describe(show(warm));
  c.describe(show(m));
  c.nontrivial(!warm.sym.empty() && !m.sym.empty());
  ArithEnc used;
  ArithEnc fresh;
  std::vector<unsigned char> a;
  std::vector<unsigned char> b;
  std::vector<unsigned char> junk;
  used.encode(warm.sym, warm.ctx, junk);
  used.resetCounter();
  used.encode(m.sym, m.ctx, a);
  fresh.encode(m.sym, m.ctx, b);
  c.require(a == b, "reset", "a reset encoder gives another code than a new one");
  // adaptive: the code stays within a few percent (plus a constant) of the empirical entropy
  std::vector<double> ones(7, 0);
  std::vector<double> all(7, 0);
  for (size_t i = 0; i < m.sym.size(); i++) {
    ones[static_cast<size_t>(m.ctx[i])] += m.sym[i];
    all[static_cast<size_t>(m.ctx[i])] += 1;
  }
  double h = 0;
  for (size_t i = 0; i < 7; i++) {
    for (double k : {ones[i], all[i] - ones[i]}) {
      if (k > 0) {
        h -= k * std::log2(k / all[i]);
      }
    }
  }
  double bound = 1.1 * h + 0.02 * static_cast<double>(m.sym.size()) + 7 * 24 + 16;
  c.require(static_cast<double>(b.size()) <= bound, "size",
            pbt::str(m.sym.size(), " symbols of entropy ", h, " bits take ", b.size(), " bits"));
  ArithDec d;
  d.initDecoding(junk);
  for (size_t j = 0; j < warm.sym.size(); j++) {
    d.decode(warm.ctx[j]);
  }
  d.resetCounter();
  d.initDecoding(a);
  for (size_t j = 0; j < m.sym.size(); j++) {
    int r = d.decode(m.ctx[j]);
    c.require(r == m.sym[j], "reset-decode", pbt::str("symbol ", j, " decodes to ", r));
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C18";
  cfg.rule = "Sequences of 1-4 binary messages (0-36000 symbols, 7 contexts, from uniform to fully "
             "skewed probabilities, rare exceptions, long runs) through one encoder and one decoder, with the "
             "statistics reset or kept between messages, decoded from bits or packed bytes. "
             "Non-trivial: a message with at least one symbol.";
  cfg.assumptions = {"context numbers are 0..6 and the decoder is asked for the contexts the encoder used"};
  cfg.targets = {{"roundTrip", roundTrip, 20000, 400000}, {"resets", resets, 12000, 240000}};
  return pbt::run(cfg, argc, argv);
}
