// C01: a .hmpg file written from an experience reads back as the same experience (within the
// format's quantisation).
#include "formats.h"
#include <IOHaptics/include/IOBinary.h>

using namespace hm;
namespace io = haptics::io;

static void roundTrip(pbt::Source &s, pbt::Case &c, const Dom &d) {
  ht::Haptics h = genHaptics(s, d);
  labels(h, c);
  c.nontrivial(h.getPerceptionsSize() > 0 && countEffects(h) > 0);
  c.describe(dump(h));
  Flat expected = expectBinary(h);
  std::string path = pbt::scratch() + "/f.hmpg";
  Flat before = flatten(h);
  c.require(io::IOBinary::writeFile(h, path), "write-refused", "writeFile returned false");
  std::string inputChanged = diffExact(before, flatten(h));
  c.require(inputChanged.empty(), "input-modified", "writing changed the experience: " + inputChanged);
  ht::Haptics back;
  c.require(io::IOBinary::loadFile(path, back), "load-refused", "loadFile returned false");
  std::string d1 = diff(expected, flatten(back), binaryTolerance, nullptr);
  c.require(d1.empty(), "differs", "experience differs after write+load: " + d1);

  // what the object held before does not matter
  if (s.chance(1, 4)) {
    ht::Haptics used = h;
    used.setTimescale(back.getTimescale());
    c.label("loaded into a used object");
    c.require(io::IOBinary::loadFile(path, used), "load-refused", "loadFile into a used object returned false");
    std::string d0 = diffExact(flatten(back), flatten(used));
    c.require(d0.empty(), "used", "differs when loaded into an object with content: " + d0);
  }

  // the in-memory reader sees the same bytes
  std::string bytes = readBytes(path);
  std::vector<char> buf(bytes.begin(), bytes.end());
  io::IOMemoryBuffer mem(buf.data(), buf.size());
  ht::Haptics back2;
  c.require(io::IOBinary::loadMemory(mem, back2), "memory-refused", "loadMemory returned false");
  std::string d2 = diffExact(flatten(back), flatten(back2));
  c.require(d2.empty(), "memory-differs", "loadMemory differs from loadFile: " + d2);
  // writing is a function of the experience
  std::string path2 = pbt::scratch() + "/g.hmpg";
  c.require(io::IOBinary::writeFile(h, path2) && readBytes(path2) == bytes, "not-deterministic",
            "writing the same experience twice gave different bytes");
}

static void general(pbt::Source &s, pbt::Case &c) {
  Dom d;
  d.kfAbsent = true;
  d.inexactBlocks = true;
  d.composites = true;
  d.libraryTimelines = true;
  d.maxChannelId = 32767;
  roundTrip(s, c, d);
}
// few objects, long lists and long strings: field widths of the counters
static void wide(pbt::Source &s, pbt::Case &c) {
  Dom d;
  d.maxPerceptions = d.maxChannels = d.maxBands = 1;
  d.maxRefDevices = d.maxLibrary = d.maxAvatars = 1;
  d.composites = true;
  d.libraryTimelines = true;
  switch (s.range(0, 7)) {
  case 0:
    d.maxEffects = 400;
    break;
  case 1:
    d.maxKeyframes = 400;
    break;
  case 2:
    d.maxAvatars = 255;
    break;
  case 3:
    d.maxChannels = 300;
    d.maxBands = 0;
    break;
  case 4:
    d.maxBands = 255;
    break;
  case 5:
    d.maxRefDevices = 255;
    break;
  case 6:
    d.maxLibrary = 300;
    break;
  default:
    d.maxPerceptions = 255;
    break;
  }
  roundTrip(s, c, d);
}
// strings longer than the length field can express are cut, everything after them is intact
static void longStrings(pbt::Source &s, pbt::Case &c) {
  Dom d;
  d.maxPerceptions = d.maxChannels = d.maxBands = 2;
  d.maxString = static_cast<int>(s.range(250, 700));
  roundTrip(s, c, d);
}
// the time scale is not part of the file: it changes nothing else (no wavelet bands here)
static void otherTimescale(pbt::Source &s, pbt::Case &c) {
  Dom d;
  d.wavelets = false;
  d.composites = true;
  d.timescales = {1, 480, 999, 8000, 44100, 48000};
  roundTrip(s, c, d);
}

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C01";
  cfg.rule = "Random experiences (0-3 perceptions/channels/bands each, all band kinds, reference, "
             "composite and library effects, optional fields present or absent, floats inside and "
             "outside their coded range, strings of arbitrary bytes) are written to a .hmpg file and "
             "read back with the file and the memory reader; 'wide' stretches one list at a time to "
             "hundreds of entries. Non-trivial: at least one perception and one effect in a band.";
  cfg.assumptions = {"positions, ids, counts and frequencies are inside the field widths of the format",
                     "wavelet bands have a block length that is a power of two samples, time scale 1000"};
  cfg.targets = {{"general", general, 12000, 300000},
                 {"wide", wide, 1000, 20000},
                 {"longStrings", longStrings, 3000, 60000},
                 {"timescale", otherTimescale, 3000, 60000}};
  return pbt::run(cfg, argc, argv);
}
