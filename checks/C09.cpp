// C09: damaged .hmpg files are refused or read as what they say, never worse
#include "formats.h"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>

using namespace hm;
namespace io = haptics::io;

namespace {
auto smallDom(pbt::Source &s) -> Dom {
  Dom d;
  d.inexactBlocks = true;
  d.composites = true;
  d.libraryTimelines = true;
  if (s.chance(2, 3)) {
    d.maxPerceptions = d.maxChannels = 2;
    d.maxString = 12;
  } else {
    d.maxString = 40;
  }
  return d;
}

auto validBytes(pbt::Source &s, pbt::Case &c) -> std::string {
  ht::Haptics h = genHaptics(s, smallDom(s));
  labels(h, c);
  std::string path = pbt::scratch() + "/v.hmpg";
  c.require(io::IOBinary::writeFile(h, path), "write-refused", "writeFile returned false");
  return readBytes(path);
}

auto load(const std::string &bytes, ht::Haptics &fromFile, pbt::Case &c) -> bool {
  std::string path = pbt::scratch() + "/d.hmpg";
  writeBytes(path, bytes);
  bool ok = io::IOBinary::loadFile(path, fromFile);
  std::vector<char> buf(bytes.begin(), bytes.end());
  io::IOMemoryBuffer mem(buf.data(), buf.size());
  ht::Haptics fromMemory;
  bool okMemory = io::IOBinary::loadMemory(mem, fromMemory);
  c.require(ok == okMemory, "readers", pbt::str("the file is ", ok ? "accepted" : "refused", ", the same bytes in memory are not"));
  if (ok) {
    auto d = diffExact(flatten(fromFile), flatten(fromMemory));
    c.require(d.empty(), "readers", "file and memory differ: " + d);
  }
  return ok;
}

auto hex(const std::string &b) -> std::string {
  std::string r;
  for (size_t i = 0; i < b.size() && i < 4000; i++) {
    char x[4];
    snprintf(x, sizeof x, "%02x", static_cast<unsigned char>(b[i]));
    r += x;
  }
  return r;
}

// wavelet blocks of a few ticks only: their length in samples is not known from that in ticks
auto hasShortBlocks(ht::Haptics &h) -> bool {
  for (int p = 0; p < static_cast<int>(h.getPerceptionsSize()); p++) {
    auto &perception = h.getPerceptionAt(p);
    for (int i = 0; i < static_cast<int>(perception.getChannelsSize()); i++) {
      auto &channel = perception.getChannelAt(i);
      for (int b = 0; b < static_cast<int>(channel.getBandsSize()); b++) {
        auto &band = channel.getBandAt(b);
        if (band.getBandType() == ht::BandType::WaveletWave && band.getBlockLengthOrDefault() < 4) {
          return true;
        }
      }
    }
  }
  return false;
}

// whatever is accepted holds codes that exist, and can be written and read again
void accepted(ht::Haptics &h, pbt::Case &c) {
  Flat f = flatten(h);
  std::string path = pbt::scratch() + "/e.hmpg";
  c.require(io::IOBinary::writeFile(h, path), "rewrite", "an accepted file cannot be written");
  io::IOJson::writeFile(h, pbt::scratch() + "/e.hjif");
  if (hasShortBlocks(h)) {
    c.label("blocks of less than 4 ticks");
    return;
  }
  ht::Haptics again;
  c.require(io::IOBinary::loadFile(path, again), "reread", "an accepted file that is written again is refused");
  auto d = diff(f, flatten(again), [](const std::string &p, const Val &v) {
    // amplitudes and phases are stable, the 32 bit codes are so up to single precision
    auto t = binaryTolerance(p, v);
    return p.size() >= 3 && (p.compare(p.size() - 3, 3, "amp") == 0 || p.find("phase") != std::string::npos) ? 0 : t;
  }, nullptr);
  c.require(d.empty(), "unstable", "an accepted file changes when it is written again: " + d);
}

void cut(pbt::Source &s, pbt::Case &c) {
  auto b = validBytes(s, c);
  c.nontrivial(b.size() > 20);
  ht::Haptics whole;
  c.require(load(b, whole, c), "refused", "an intact file is refused");
  // any cut, more often near the end
  for (int k = 0; k < 8; k++) {
    size_t n = s.chance(1, 3) ? b.size() - static_cast<size_t>(s.range(1, std::min<int64_t>(4, static_cast<int64_t>(b.size()))))
                              : static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 1));
    ht::Haptics h;
    c.require(!load(b.substr(0, n), h, c), "cut", pbt::str("the first ", n, " of ", b.size(), " bytes are accepted: ", hex(b.substr(0, n))));
  }
}

void damage(pbt::Source &s, pbt::Case &c) {
  auto b = validBytes(s, c);
  int n = static_cast<int>(s.range(1, 4));
  std::string what;
  for (int i = 0; i < n && !b.empty(); i++) {
    auto at = static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 1));
    switch (s.range(0, 5)) {
    case 0: {
      b[at] = static_cast<char>(b[at] ^ (1 << s.range(0, 7)));
      what = "bit";
      break;
    }
    case 1:
      b[at] = static_cast<char>(s.pick<int>({0, 1, 0x7f, 0x80, 0xff, 0xfe}));
      what = "byte";
      break;
    case 2:
      b.erase(at, static_cast<size_t>(s.range(1, 8)));
      what = "removed";
      break;
    case 3:
      b.insert(at, static_cast<size_t>(s.range(1, 8)), static_cast<char>(s.range(0, 255)));
      what = "inserted";
      break;
    case 4: { // a run of random bytes
      auto m = static_cast<size_t>(s.range(1, 16));
      for (size_t j = at; j < std::min(b.size(), at + m); j++) {
        b[j] = static_cast<char>(s.range(0, 255));
      }
      what = "random run";
      break;
    }
    default: { // a part of the file again
      auto from = static_cast<size_t>(s.range(0, static_cast<int64_t>(b.size()) - 1));
      b.insert(at, b.substr(from, static_cast<size_t>(s.range(1, 60))));
      what = "repeated part";
    }
    }
    c.label(what);
  }
  c.describe(hex(b));
  ht::Haptics h;
  bool ok = load(b, h, c);
  c.label(ok, "accepted");
  c.nontrivial(ok);
  if (ok) {
    accepted(h, c);
  }
}

void anyBytes(pbt::Source &s, pbt::Case &c) {
  std::string b;
  int n = static_cast<int>(s.range(1, 400));
  bool sparse = s.boolean();
  for (int i = 0; i < n; i++) {
    b += static_cast<char>(sparse && s.chance(3, 4) ? s.range(0, 3) : s.range(0, 255));
  }
  c.describe(hex(b));
  ht::Haptics h;
  bool ok = load(b, h, c);
  c.label(ok, "accepted");
  c.nontrivial(ok);
  if (ok) {
    accepted(h, c);
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C09";
  cfg.rule = "Files written from random experiences are cut ('cut', every cut must be refused), or damaged by flipped bits, extreme bytes, removed, "
             "inserted, repeated and random parts ('damage'), and bytes are made up ('anyBytes'); read from file and memory. Whatever is "
             "accepted is written, read again and compared. Non-trivial: files of more than 20 bytes; damaged files that are accepted.";
  cfg.assumptions = {};
  cfg.targets = {{"cut", cut, 6000, 200000}, {"damage", damage, 60000, 2000000}, {"anyBytes", anyBytes, 60000, 1000000}};
  return pbt::run(cfg, argc, argv);
}
