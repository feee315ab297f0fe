// C12: factoring repeated effects into the library keeps the meaning of the experience.
#include "libgen.h"

using namespace lib;

namespace {
auto key(ht::Effect e) -> std::string {
  e.setPosition(0);
  e.setId(0);
  hm::Flat f;
  hm::flattenEffect(e, "e", f);
  std::string s;
  for (auto &x : f) {
    s += x.first + "=" + x.second.show() + ";";
  }
  return s;
}
void factor(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h;
  int np = static_cast<int>(s.range(1, 2));
  for (int i = 0; i < np; i++) {
    ht::Perception p = genPerception(s, i);
    h.addPerception(p);
  }
  c.describe(hm::dump(h));
  ht::Haptics f = h;
  f.refactor();
  c.require(f.getPerceptionsSize() == h.getPerceptionsSize(), "perceptions", "count");
  bool any = false;
  for (int i = 0; i < np; i++) {
    auto &a = h.getPerceptionAt(i);
    auto &b = f.getPerceptionAt(i);
    std::string d = lib::diff(meaning(a), meaning(b));
    c.require(d.empty(), "meaning", "the effects differ once references are resolved: " + d);
    // the library only grows, with new ids
    size_t n0 = a.getEffectLibrarySize();
    size_t n1 = b.getEffectLibrarySize();
    c.require(n1 >= n0, "library", "the library shrank");
    std::map<int, int> ids;
    for (size_t k = 0; k < n1; k++) {
      auto &e = b.getBasisEffectAt(static_cast<int>(k));
      ids[e.getId()]++;
      if (k < n0) {
        hm::Flat x;
        hm::Flat y;
        hm::flattenEffect(e, "e", x);
        hm::flattenEffect(a.getBasisEffectAt(static_cast<int>(k)), "e", y);
        c.require(hm::diffExact(y, x).empty(), "library", "an entry of the library changed");
      } else {
        c.require(e.getPosition() == 0 && e.getEffectType() == ht::EffectType::Basis, "library", "new entry is not a basis effect at 0");
      }
      c.require(ids[e.getId()] == 1, "library-id", pbt::str("id ", e.getId(), " is used twice"));
    }
    any = any || n1 > n0;
    // every repeated effect is factored, no other is, and wavelet blocks are left alone
    std::map<std::string, int> before;
    std::map<std::string, int> after;
    std::map<int, int> refs;
    for (size_t k = 0; k < a.getChannelsSize(); k++) {
      auto &ca = a.getChannelAt(static_cast<int>(k));
      auto &cb = b.getChannelAt(static_cast<int>(k));
      for (size_t m = 0; m < ca.getBandsSize(); m++) {
        auto &ba = ca.getBandAt(static_cast<int>(m));
        auto &bb = cb.getBandAt(static_cast<int>(m));
        if (ba.getBandType() == ht::BandType::WaveletWave) {
          hm::Flat x;
          hm::Flat y;
          hm::flattenBand(ba, "b", x);
          hm::flattenBand(bb, "b", y);
          c.require(hm::diffExact(x, y).empty(), "wavelet", "a wavelet band changed");
          continue;
        }
        for (size_t e = 0; e < ba.getEffectsSize(); e++) {
          auto &ea = ba.getEffectAt(static_cast<int>(e));
          auto &eb = bb.getEffectAt(static_cast<int>(e));
          if (ea.getEffectType() == ht::EffectType::Basis) {
            before[key(ea)]++;
          }
          if (eb.getEffectType() == ht::EffectType::Basis) {
            after[key(eb)]++;
          }
          if (eb.getEffectType() == ht::EffectType::Reference) {
            refs[eb.getId()]++;
          }
        }
      }
    }
    size_t repeated = 0;
    for (auto &x : before) {
      if (x.second > 1) {
        repeated++;
        c.require(after.count(x.first) == 0, "not-factored", pbt::str("an effect that occurs ", x.second, " times is left in place"));
      } else {
        c.require(after.count(x.first) == 1 && after[x.first] == 1, "factored-single", "an effect that occurs once was factored");
      }
    }
    c.require(n1 - n0 == repeated, "library-size", pbt::str(repeated, " repeated effects give ", n1 - n0, " entries"));
    c.label(repeated > 1, "several repeated");
    c.label(n0 > 0, "library before");
    for (size_t k = n0; k < n1; k++) {
      c.require(refs[b.getBasisEffectAt(static_cast<int>(k)).getId()] > 1, "unused-entry", "a new entry is not referred to twice");
    }
  }
  c.nontrivial(any);
  std::string once = hm::dump(f);
  f.refactor();
  c.require(hm::dump(f) == once, "idempotent", "factoring again changes the experience");
  // and resolving gives the original effects back
  f.linearize();
  for (int i = 0; i < np; i++) {
    std::string d = lib::diff(meaning(h.getPerceptionAt(i)), f.getPerceptionAt(i));
    c.require(d.empty(), "round-trip", "factor then resolve: " + d);
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C12";
  cfg.rule = "Experiences of 1-2 perceptions whose bands draw effects from a small pool (exact repeats, copies that "
             "differ in one field, references, composites, wavelet blocks) with or without an existing library are "
             "factored. Non-trivial: at least one effect was factored.";
  cfg.assumptions = {"ids in the library are distinct", "wavelet bitstreams occur only in wavelet bands",
                     "a reference to an id missing from the library is not one of the ids 0..49"};
  cfg.targets = {{"factor", factor, 60000, 1500000}};
  return pbt::run(cfg, argc, argv);
}
