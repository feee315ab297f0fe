// C22: IVS documents become the effects their timelines launch
#include "pbt.h"
#include <Encoder/include/IvsEncoder.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <optional>

namespace ht = haptics::types;
using haptics::encoder::IvsEncoder;

namespace {
struct Basis {
  std::string name;
  std::string type; // periodic, magsweep or something else
  std::string waveform = "sine";
  ht::BaseSignal signal = ht::BaseSignal::Sine;
  int duration = 100;
  int magnitude = 5000;
  int period = 20;
  int attackTime = -1;
  int attackLevel = 0;
  int fadeTime = -1;
  int fadeLevel = 0;
};
struct Launch {
  long t = 0;
  std::string name;
  int duration = -1;
  int magnitude = -1;
  int period = -1;
};
struct Repeat {
  long a = 0;
  long d = 0;
  int count = 0;
  std::vector<Repeat> inner;
};
struct Timeline {
  std::string name;
  std::vector<Launch> launches;
  std::vector<Repeat> repeats;
};
struct Doc {
  std::string modified;
  std::vector<Basis> basis;
  std::vector<Timeline> lines;
  long ts = 1000;
};

struct Played {
  double t; // ms
  const Launch *l;
};
// plays the launches of [a, a + d) once; gives the moments relative to a and the time it takes
long play(const std::vector<Launch> &all, const std::vector<Repeat> &inner, long a, long d, bool open, std::vector<Played> &out) {
  long shift = 0;
  long from = a;
  auto plain = [&](long lo, long hi, bool unlimited) {
    for (auto &l : all) {
      if (l.t >= lo && (unlimited || l.t < hi)) {
        out.push_back({static_cast<double>(l.t - a + shift), &l});
      }
    }
  };
  for (auto &r : inner) {
    plain(from, r.a, false);
    std::vector<Played> once;
    long len = play(all, r.inner, r.a, r.d, false, once);
    for (int i = 0; i <= r.count; i++) {
      for (auto &p : once) {
        out.push_back({p.t + static_cast<double>(r.a - a + shift + i * len), p.l});
      }
    }
    shift += len * (r.count + 1) - r.d;
    from = r.a + r.d;
  }
  plain(from, a + d, open);
  return d + shift;
}

std::vector<Repeat> genRepeats(pbt::Source &s, long a, long b, int depth) {
  std::vector<Repeat> r;
  int n = static_cast<int>(s.weighted({depth == 0 ? 2U : 4U, 4, 2, 1}));
  long at = a;
  for (int i = 0; i < n && b - at >= 1; i++) {
    Repeat x;
    x.a = at + (s.chance(1, 4) ? 0 : s.range(0, (b - at - 1) / 2));
    x.d = s.chance(1, 4) ? b - x.a : s.range(1, std::max<long>(1, b - x.a));
    x.count = static_cast<int>(s.range(0, 3));
    if (depth < 4) {
      x.inner = genRepeats(s, x.a, x.a + x.d, depth + 1);
    }
    at = x.a + x.d;
    r.push_back(x);
  }
  return r;
}
int depthOf(const std::vector<Repeat> &r) {
  int d = 0;
  for (auto &x : r) {
    d = std::max(d, 1 + depthOf(x.inner));
  }
  return d;
}
void marksOf(const std::vector<Repeat> &r, std::vector<long> &m) {
  for (auto &x : r) {
    m.push_back(x.a);
    m.push_back(x.a + x.d);
    m.push_back(x.a + x.d - 1);
    marksOf(x.inner, m);
  }
}
void flat(const std::vector<Repeat> &r, std::vector<const Repeat *> &out) {
  for (auto &x : r) {
    out.push_back(&x);
    flat(x.inner, out);
  }
}

std::string esc(const std::string &s) {
  std::string r;
  for (char ch : s) {
    r += ch == '&' ? "&amp;" : ch == '<' ? "&lt;" : ch == '"' ? "&quot;" : std::string(1, ch);
  }
  return r;
}

Doc gen(pbt::Source &s) {
  Doc d;
  d.ts = s.pick(std::vector<long>{1000, 1000, 8000, 100, 44100});
  d.modified = s.pick(std::vector<std::string>{"2021-05-04", "", "Tue & Wed"});
  int nb = static_cast<int>(s.range(1, 4));
  const std::vector<std::pair<std::string, ht::BaseSignal>> waves = {{"sine", ht::BaseSignal::Sine},
                                                                     {"square", ht::BaseSignal::Square},
                                                                     {"triangle", ht::BaseSignal::Triangle},
                                                                     {"sawtooth-up", ht::BaseSignal::SawToothUp},
                                                                     {"sawtooth-down", ht::BaseSignal::SawToothDown}};
  for (int i = 0; i < nb; i++) {
    Basis b;
    b.name = pbt::str(s.pick(std::vector<std::string>{"b", "Effect & ", "x<"}), i);
    b.type = s.pick(std::vector<std::string>{"periodic", "periodic", "magsweep", "waveform"});
    auto w = s.pick(waves);
    b.waveform = w.first;
    b.signal = w.second;
    b.duration = static_cast<int>(s.chance(1, 4) ? s.range(1, 5) : s.range(1, 2000));
    b.magnitude = static_cast<int>(s.edgy(0, 10000));
    b.period = static_cast<int>(s.range(1, 200));
    if (s.boolean()) {
      b.attackTime = static_cast<int>(s.chance(1, 6) ? 0 : s.range(1, b.duration + 50));
      b.attackLevel = static_cast<int>(s.edgy(0, 10000));
    }
    if (s.boolean()) {
      b.fadeTime = static_cast<int>(s.chance(1, 6) ? 0 : s.range(1, b.duration + 50));
      b.fadeLevel = static_cast<int>(s.edgy(0, 10000));
    }
    d.basis.push_back(b);
  }
  int nl = static_cast<int>(s.weighted({0, 5, 2, 1}));
  for (int i = 0; i < nl; i++) {
    Timeline t;
    t.name = pbt::str("t", i);
    const long span = s.pick(std::vector<long>{60, 600, 3000});
    t.repeats = genRepeats(s, 0, span, 0);
    std::vector<long> marks;
    marksOf(t.repeats, marks);
    int n = static_cast<int>(s.range(0, 7));
    for (int k = 0; k < n; k++) {
      Launch l;
      l.t = s.boolean() && !marks.empty() ? s.pick(marks) : s.range(0, span + 50);
      l.name = s.chance(1, 10) ? "none" : s.pick(d.basis).name;
      if (s.chance(1, 4)) {
        l.duration = static_cast<int>(s.range(1, 1500));
      }
      if (s.chance(1, 4)) {
        l.magnitude = static_cast<int>(s.edgy(0, 10000));
      }
      if (s.chance(1, 4)) {
        l.period = static_cast<int>(s.range(1, 200));
      }
      t.launches.push_back(l);
    }
    d.lines.push_back(t);
  }
  return d;
}

std::string text(pbt::Source &s, const Doc &d) {
  std::vector<std::string> top;
  for (auto &b : d.basis) {
    std::string e = pbt::str("<basis-effect name=\"", esc(b.name), "\" type=\"", b.type, "\" duration=\"", b.duration,
                             "\" magnitude=\"", b.magnitude, "\" waveform=\"", b.waveform, "\" period=\"", b.period, "\"");
    if (b.attackTime >= 0) {
      e += pbt::str(" attack-time=\"", b.attackTime, "\" attack-level=\"", b.attackLevel, "\"");
    }
    if (b.fadeTime >= 0) {
      e += pbt::str(" fade-time=\"", b.fadeTime, "\" fade-level=\"", b.fadeLevel, "\"");
    }
    top.push_back(e + "/>");
  }
  std::vector<std::string> lines;
  for (auto &t : d.lines) {
    std::vector<std::string> in;
    for (auto &l : t.launches) {
      std::string e = pbt::str("<launch-event time=\"", l.t, "\" effect=\"", esc(l.name), "\"");
      if (l.duration >= 0) {
        e += pbt::str(" duration-override=\"", l.duration, "\"");
      }
      if (l.magnitude >= 0) {
        e += pbt::str(" magnitude-override=\"", l.magnitude, "\"");
      }
      if (l.period >= 0) {
        e += pbt::str(" period-override=\"", l.period, "\"");
      }
      in.push_back(e + "/>");
    }
    std::vector<const Repeat *> rs;
    flat(t.repeats, rs);
    for (auto *r : rs) {
      in.push_back(pbt::str("<repeat-event time=\"", r->a, "\" duration=\"", r->d, "\"",
                            r->count == 0 && s.boolean() ? "" : pbt::str(" count=\"", r->count, "\""), "/>"));
    }
    if (s.chance(2, 3)) {
      for (size_t i = in.size(); i > 1; i--) {
        std::swap(in[i - 1], in[static_cast<size_t>(s.range(0, static_cast<long>(i) - 1))]);
      }
    }
    std::string x = "<timeline-effect name=\"" + t.name + "\">\n";
    for (auto &e : in) {
      x += "  " + e + "\n";
    }
    lines.push_back(x + "</timeline-effect>");
  }
  // the timelines keep their order, wherever the basis effects are
  size_t at = static_cast<size_t>(s.range(0, static_cast<long>(top.size())));
  for (auto &l : lines) {
    top.insert(top.begin() + static_cast<long>(at), l);
    at = static_cast<size_t>(s.range(static_cast<long>(at) + 1, static_cast<long>(top.size())));
  }
  std::string r = "<?xml version=\"1.0\"?>\n<ivs-file last-modified=\"" + esc(d.modified) + "\">\n<effects>\n";
  for (auto &e : top) {
    r += e + "\n";
  }
  return r + "</effects>\n</ivs-file>\n";
}

// a moment in milliseconds as ticks: exact when it is a whole number of them
bool isTick(long tick, double ms, long ts) {
  double x = ms * static_cast<double>(ts) / 1000;
  if (std::fabs(x - std::round(x)) < 1e-6) {
    return tick == std::lround(x);
  }
  return std::fabs(static_cast<double>(tick) - x) < 1;
}

struct KF {
  double t;
  double v;
};
double lineAt(const std::vector<KF> &k, double t, int side) {
  if (side < 0) {
    size_t j = 0;
    while (j < k.size() && k[j].t < t - 1e-9) {
      j++;
    }
    if (j == k.size()) {
      return k.back().v;
    }
    if (std::fabs(k[j].t - t) < 1e-9 || j == 0) {
      return k[j].v;
    }
    return k[j - 1].v + (k[j].v - k[j - 1].v) * (t - k[j - 1].t) / (k[j].t - k[j - 1].t);
  }
  size_t j = k.size();
  while (j > 0 && k[j - 1].t > t + 1e-9) {
    j--;
  }
  if (j == 0) {
    return k.front().v;
  }
  if (std::fabs(k[j - 1].t - t) < 1e-9 || j == k.size()) {
    return k[j - 1].v;
  }
  return k[j - 1].v + (k[j].v - k[j - 1].v) * (t - k[j - 1].t) / (k[j].t - k[j - 1].t);
}

std::string match(const Doc &d, const Played &p, const Basis &b, ht::Effect &e) {
  if (!isTick(e.getPosition(), p.t, d.ts)) {
    return "other position";
  }
  const int dur = p.l->duration >= 0 ? p.l->duration : b.duration;
  const double mag = (p.l->magnitude >= 0 ? p.l->magnitude : b.magnitude) * 1e-4;
  const int period = p.l->period >= 0 ? p.l->period : b.period;
  const bool sweep = b.type == "magsweep";
  if (e.getBaseSignal() != (sweep ? ht::BaseSignal::Sine : b.signal) || e.getPhase() != 0 || e.getEffectType() != ht::EffectType::Basis) {
    return "other base signal or phase";
  }
  std::vector<KF> a;
  std::vector<KF> f;
  long last = 0;
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto k = e.getKeyframeAt(i);
    long t = k.getRelativePosition().value_or(-1);
    if (t < last) {
      return "keyframes out of order";
    }
    last = t;
    if (k.getAmplitudeModulation()) {
      a.push_back({static_cast<double>(t), *k.getAmplitudeModulation()});
    }
    if (k.getFrequencyModulation()) {
      f.push_back({static_cast<double>(t), static_cast<double>(*k.getFrequencyModulation())});
    }
  }
  if (!isTick(last, dur, d.ts)) {
    return pbt::str("lasts ", last, " ticks, expected ", dur, " ms");
  }
  if (a.empty() || f.empty() || a.front().t != 0 || f.front().t != 0 || a.back().t != last || f.back().t != last) {
    return "amplitude or frequency not given over the whole effect";
  }
  double freq = sweep ? 170 : 1000. / period;
  for (auto &x : f) {
    if (x.v != std::floor(freq + 1e-9)) {
      return pbt::str("frequency ", x.v, ", expected ", freq);
    }
  }
  if (d.ts % 1000 != 0) {
    // borders of the envelope fall between ticks
    return "";
  }
  const double m = static_cast<double>(d.ts) / 1000;
  const double D = dur * m;
  const double A = std::max(b.attackTime, 0) * m;
  const double F = b.fadeTime > 0 ? D - b.fadeTime * m : D;
  auto want = [&](double t, int side) {
    if (A > 0 && (t < A || (t == A && side < 0))) {
      return b.attackLevel * 1e-4 + (mag - b.attackLevel * 1e-4) * t / A;
    }
    if (b.fadeTime > 0 && A < D && (t > F || (t == F && side > 0))) {
      return mag + (b.fadeLevel * 1e-4 - mag) * (t - F) / (D - F);
    }
    return mag;
  };
  std::set<double> ts = {0, D, std::floor(D / 2)};
  for (double t : {A, F, std::floor(A / 2), std::floor((A + F) / 2), std::floor((F + D) / 2)}) {
    for (double o : {-1., 0., 1.}) {
      ts.insert(t + o);
    }
  }
  for (double t : ts) {
    for (int side : {-1, 1}) {
      if (t < 0 || t > D || (side < 0 && t == 0) || (side > 0 && t == D)) {
        continue;
      }
      if (std::fabs(lineAt(a, t, side) - want(t, side)) > 1e-5) {
        return pbt::str("amplitude ", lineAt(a, t, side), " at tick ", t, side < 0 ? " (from the left)" : "", " of the effect, expected ", want(t, side));
      }
    }
  }
  return "";
}

std::string store(const std::string &t) {
  std::string path = pbt::scratch() + "/d.ivs";
  std::ofstream f(path, std::ios::binary);
  f << t;
  return path;
}

void convert(pbt::Source &s, pbt::Case &c) {
  auto d = gen(s);
  auto t = text(s, d);
  c.describe(pbt::str("time scale ", d.ts, "\n", t));
  // what each timeline plays
  std::vector<std::vector<Played>> plays;
  size_t total = 0;
  for (auto &l : d.lines) {
    std::vector<Played> all;
    std::vector<Played> p;
    play(l.launches, l.repeats, 0, 0, true, all);
    for (auto &x : all) {
      for (auto &b : d.basis) {
        if (b.name == x.l->name && b.type != "waveform") {
          p.push_back(x);
        }
      }
    }
    total += p.size();
    plays.push_back(p);
    c.label(depthOf(l.repeats) > 1, "nested repeats");
    c.label(depthOf(l.repeats) > 2, "repeats nested three times");
    c.nontrivial(depthOf(l.repeats) > 0 && p.size() > 1);
  }
  if (total > 400) {
    c.discard();
  }
  c.label(d.lines.size() > 1, "several timelines");
  ht::Perception per(0, 0, "p", ht::PerceptionModality::Vibrotactile);
  size_t had = 0;
  size_t kept = 0;
  if (s.chance(1, 4)) {
    ht::Channel ch(7, "mine", 0.5F, 0.25F, 3);
    ht::Band b(ht::BandType::VectorialWave, 0, 1000);
    int at = 0;
    for (kept = 0; kept == 0 || (kept < 5 && s.chance(2, 3)); kept++) {
      at += static_cast<int>(s.range(0, 1000));
      ht::Effect e(at, 0, ht::BaseSignal::Sine, ht::EffectType::Basis);
      e.setId(4242);
      e.addKeyframe(0, 0.5, 100);
      e.addKeyframe(200, 0.5, 100);
      b.addEffect(e);
      at += 200;
    }
    ch.addBand(b);
    per.addChannel(ch);
    had = 1;
    c.label("content before");
  }
  auto path = store(t);
  c.require(IvsEncoder::encode(path, per, static_cast<unsigned>(d.ts)) == EXIT_SUCCESS, "encode", "conversion fails");
  c.require(per.getChannelsSize() == std::max(d.lines.size(), had), "channels",
            pbt::str(per.getChannelsSize(), " channels for ", d.lines.size(), " timelines"));
  std::set<int> ids;
  for (size_t i = 0; i < d.lines.size(); i++) {
    auto ch = per.getChannelAt(static_cast<int>(i));
    const bool own = i < had;
    c.require(ids.insert(ch.getId()).second, "id", "two channels have the same id");
    if (own) {
      c.require(ch.getId() == 7 && ch.getDescription() == "mine" && ch.getGain() == 0.5F, "channel", "the channel that was there has other metadata");
    } else {
      c.require(ch.getDescription().find(d.lines[i].name) != std::string::npos && ch.getGain() == 1, "channel", "description without the name of the timeline, or gain not 1");
    }
    std::vector<ht::Effect> effects;
    size_t marked = 0;
    for (int b = 0; b < static_cast<int>(ch.getBandsSize()); b++) {
      auto band = ch.getBandAt(b);
      c.require(band.getBandType() == ht::BandType::VectorialWave && band.getLowerFrequencyLimit() == 0 && band.getUpperFrequencyLimit() == 1000,
                "band", "a band that is not vectorial from 0 to 1000 Hz");
      std::vector<std::pair<long, long>> spans;
      for (int k = 0; k < static_cast<int>(band.getEffectsSize()); k++) {
        auto e = band.getEffectAt(k);
        c.require(e.getKeyframesSize() > 0, "empty", "effect without keyframes");
        spans.push_back({e.getPosition(), e.getPosition() + e.getKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1).getRelativePosition().value_or(0)});
        if (e.getId() == 4242) {
          marked++;
        } else {
          effects.push_back(e);
        }
      }
      std::sort(spans.begin(), spans.end());
      for (size_t k = 1; k < spans.size(); k++) {
        c.require(spans[k].first >= spans[k - 1].second, "overlap", "effects of one band overlap");
      }
    }
    c.require(marked == (own ? kept : 0), "before", "content that was there is gone");
    std::stable_sort(effects.begin(), effects.end(), [](const ht::Effect &a, const ht::Effect &b) { return a.getPosition() < b.getPosition(); });
    std::stable_sort(plays[i].begin(), plays[i].end(), [](const Played &a, const Played &b) { return a.t < b.t; });
    // every launch has an effect of its own; one effect may do for several launches where ticks are coarse
    std::vector<int> owner(effects.size(), -1);
    std::vector<std::vector<size_t>> fits;
    for (size_t n = 0; n < plays[i].size(); n++) {
      auto &p = plays[i][n];
      const Basis *b = nullptr;
      for (auto &x : d.basis) {
        if (x.name == p.l->name) {
          b = &x;
        }
      }
      std::string why = "no effect there";
      fits.emplace_back();
      for (size_t k = 0; k < effects.size(); k++) {
        auto m = match(d, p, *b, effects[k]);
        if (m.empty()) {
          fits.back().push_back(k);
        } else if (m != "other position") {
          why = m;
        }
      }
      std::vector<bool> seenEffect(effects.size());
      std::function<bool(size_t)> place = [&](size_t x) {
        for (size_t k : fits[x]) {
          if (!seenEffect[k]) {
            seenEffect[k] = true;
            if (owner[k] < 0 || place(static_cast<size_t>(owner[k]))) {
              owner[k] = static_cast<int>(x);
              return true;
            }
          }
        }
        return false;
      };
      const bool ok = place(n);
      std::string seen;
      for (auto &e : effects) {
        seen += pbt::str(" ", e.getPosition());
      }
      c.require(ok, "effect", pbt::str("timeline ", i, ", '", p.l->name, "' at ", p.t, " ms: ", why, "; effects at ticks", seen));
    }
    c.require(effects.size() == plays[i].size(), "count", pbt::str("timeline ", i, ": ", effects.size(), " effects, expected ", plays[i].size()));
  }
}

void malformed(pbt::Source &s, pbt::Case &c) {
  auto d = gen(s);
  ht::Perception per(0, 0, "p", ht::PerceptionModality::Vibrotactile);
  c.nontrivial();
  switch (s.range(0, 2)) {
  case 0: {
    auto t = text(s, d);
    t.resize(static_cast<size_t>(s.range(0, static_cast<long>(t.size()) - 3)));
    c.describe(t);
    c.require(IvsEncoder::encode(store(t), per, 1000) != EXIT_SUCCESS, "cut", "a document cut short is accepted");
    c.require(per.getChannelsSize() == 0, "modified", "a refused document changed the perception");
    break;
  }
  case 1:
    c.require(IvsEncoder::encode(s.boolean() ? "" : pbt::scratch() + "/none", per, 1000) != EXIT_SUCCESS, "missing", "a missing file is accepted");
    break;
  default: { // documents without the expected parts give nothing
    auto t = s.pick(std::vector<std::string>{"<a/>", "<ivs-file/>", "<ivs-file><effects/></ivs-file>", "<effects><timeline-effect/></effects>",
                                             "<ivs-file><timeline-effect><launch-event/></timeline-effect></ivs-file>"});
    c.describe(t);
    c.require(IvsEncoder::encode(store(t), per, 1000) == EXIT_SUCCESS && per.getChannelsSize() == 0, "other", "something is made of nothing");
  }
  }
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C22";
  cfg.rule = "'convert': random documents (basis effects with envelopes, timelines with launches near the borders of repeats nested "
             "up to five deep, elements in any order); non-trivial: a timeline with a repeat that plays several effects. "
             "'malformed': documents cut short, missing or without the expected parts";
  cfg.assumptions = {"repeats of a timeline are disjoint or nested", "envelopes are compared for time scales that are multiples of 1000"};
  cfg.targets = {{"convert", convert, 60000, 2000000}, {"malformed", malformed, 5000, 100000}};
  return pbt::run(cfg, argc, argv);
}
