// C13: resolving references replaces each by the library effect it stands for.
#include "libgen.h"

using namespace lib;

namespace {
auto countRefs(ht::Effect &e) -> int {
  int n = e.getEffectType() == ht::EffectType::Reference ? 1 : 0;
  for (size_t i = 0; i < e.getTimelineSize(); i++) {
    n += countRefs(e.getTimelineEffectAt(static_cast<int>(i)));
  }
  return n;
}
auto countRefs(ht::Perception &p) -> int {
  int n = 0;
  for (size_t k = 0; k < p.getChannelsSize(); k++) {
    auto &ca = p.getChannelAt(static_cast<int>(k));
    for (size_t m = 0; m < ca.getBandsSize(); m++) {
      auto &ba = ca.getBandAt(static_cast<int>(m));
      for (size_t e = 0; e < ba.getEffectsSize(); e++) {
        n += countRefs(ba.getEffectAt(static_cast<int>(e)));
      }
    }
  }
  return n;
}
void resolveAll(pbt::Source &s, pbt::Case &c) {
  ht::Haptics h;
  int np = static_cast<int>(s.range(1, 2));
  for (int i = 0; i < np; i++) {
    ht::Perception p = genPerception(s, i);
    h.addPerception(p);
  }
  c.describe(hm::dump(h));
  bool perPerception = s.boolean();
  ht::Haptics f = h;
  int refs = 0;
  int left = 0;
  for (int i = 0; i < np; i++) {
    refs += countRefs(h.getPerceptionAt(i));
    ht::Perception m = meaning(h.getPerceptionAt(i));
    left += countRefs(m);
    if (perPerception) {
      f.getPerceptionAt(i).linearizeLibrary();
    }
  }
  if (!perPerception) {
    f.linearize();
  }
  c.nontrivial(refs > left);
  c.label(left > 0, "unknown ids");
  for (int i = 0; i < np; i++) {
    auto &a = h.getPerceptionAt(i);
    ht::Perception b = f.getPerceptionAt(i);
    c.require(b.getEffectLibrarySize() == 0, "library", "the library is not empty");
    // ids of effects that were not references are kept, resolved ones have none (-1)
    ht::Perception want = a;
    for (size_t k = 0; k < want.getChannelsSize(); k++) {
      auto &ch = want.getChannelAt(static_cast<int>(k));
      for (size_t m = 0; m < ch.getBandsSize(); m++) {
        auto &band = ch.getBandAt(static_cast<int>(m));
        for (size_t e = 0; e < band.getEffectsSize(); e++) {
          ht::Effect r = resolve(band.getEffectAt(static_cast<int>(e)), a);
          band.replaceEffectAt(static_cast<int>(e), r);
        }
      }
    }
    want.clearEffectLibrary();
    std::string d = lib::diff(want, b);
    c.require(d.empty(), "resolved", d);
  }
  std::string once = hm::dump(f);
  f.linearize();
  c.require(hm::dump(f) == once, "idempotent", "resolving again changes the experience");
}
// a library whose entries refer to each other in a circle is resolved without hanging
void circles(pbt::Source &s, pbt::Case &c) {
  ht::Perception p(0, 0, "p", ht::PerceptionModality::Vibrotactile);
  int n = static_cast<int>(s.range(1, 3));
  for (int i = 0; i < n; i++) {
    ht::Effect e(0, ht::EffectType::Composite);
    e.setId(i);
    for (int k = static_cast<int>(s.range(0, 2)); k > 0; k--) {
      ht::Effect r(static_cast<int>(s.range(0, 9)), ht::EffectType::Reference);
      r.setId(static_cast<int>(s.range(0, n - 1)));
      e.addTimelineEffect(r);
    }
    p.addBasisEffect(e);
  }
  ht::Channel ch(0, "c", 1, 1, 1);
  ht::Band b(ht::BandType::VectorialWave, 0, 100);
  ht::Effect r(static_cast<int>(s.range(0, 9)), ht::EffectType::Reference);
  r.setId(static_cast<int>(s.range(0, n - 1)));
  b.addEffect(r);
  ch.addBand(b);
  p.addChannel(ch);
  c.describe(lib::dump(p));
  c.nontrivial();
  ht::Perception q = p;
  q.linearizeLibrary();
  auto &e = q.getChannelAt(0).getBandAt(0).getEffectAt(0);
  c.require(e.getEffectType() == ht::EffectType::Composite && e.getPosition() == r.getPosition(), "circle",
            "the outer reference is not resolved");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C13";
  cfg.rule = "Experiences of 1-2 perceptions with references (known and unknown ids) in bands, in composite effects "
             "and in the library itself are linearised. Non-trivial: at least one reference is resolved.";
  cfg.assumptions = {"ids in the library are distinct"};
  cfg.targets = {{"resolve", resolveAll, 60000, 1500000}, {"circles", circles, 5000, 50000}};
  return pbt::run(cfg, argc, argv);
}
