// C21: AHAP patterns become the effects they describe
#include "pbt.h"
#include <Encoder/include/AhapEncoder.h>
#include <algorithm>
#include <fstream>
#include <optional>

namespace ht = haptics::types;
using haptics::encoder::AhapEncoder;

namespace {
constexpr double MAX_T = 0.792;
constexpr double MAX_C = 0.6138;

struct Point {
  long t = 0;
  double v = 0;
};
struct Event {
  bool transient = false;
  long t = 0;
  long d = 0;
  std::optional<double> intensity;
  std::optional<double> sharpness;
};
struct Pattern {
  long ts = 1000;
  std::vector<Event> events;
  std::vector<Point> amp;
  std::vector<Point> freq;
  std::vector<std::string> elements; // of the array, in order
  double over = 0; // values at an end of their range are written as so much beyond it
};

std::string num(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
std::string sec(long t, long ts) { return num(static_cast<double>(t) / static_cast<double>(ts)); }

double beyond(double v, double lo, double hi, double over) { return v == lo ? lo - over : v == hi ? hi + over : v; }

std::string param(const std::string &id, double v, bool swap) {
  return swap ? pbt::str("{\"ParameterValue\":", num(v), ",\"ParameterID\":\"", id, "\"}")
              : pbt::str("{\"ParameterID\":\"", id, "\",\"ParameterValue\":", num(v), "}");
}

std::vector<Point> genCurve(pbt::Source &s, const std::vector<long> &marks, bool sharp) {
  std::vector<Point> r;
  int n = static_cast<int>(s.weighted({3, 1, 3, 3, 2, 1, 1}));
  std::set<long> used;
  for (int i = 0; i < n; i++) {
    long t = s.chance(1, 2) && !marks.empty() ? s.pick(marks) + s.range(0, 2) - 1 : s.range(0, 3000);
    if (t < 0 || !used.insert(t).second) {
      continue;
    }
    double v = static_cast<double>(s.range(0, 20)) / 20;
    if (sharp) {
      v = v * 2 - 1;
    }
    r.push_back({t, v});
  }
  std::sort(r.begin(), r.end(), [](const Point &a, const Point &b) { return a.t < b.t; });
  return r;
}

void curveElements(pbt::Source &s, Pattern &p, const std::vector<Point> &pts, const std::string &id) {
  size_t i = 0;
  while (i < pts.size()) {
    size_t n = s.chance(1, 3) ? static_cast<size_t>(s.range(1, static_cast<long>(pts.size() - i))) : pts.size() - i;
    long o = s.boolean() ? s.range(0, pts[i].t) : 0;
    std::string e = "{\"ParameterCurve\":{\"ParameterID\":\"" + id + "\",\"Time\":" + sec(o, p.ts) +
                    ",\"ParameterCurveControlPoints\":[";
    for (size_t k = 0; k < n; k++) {
      e += pbt::str(k == 0 ? "" : ",", "{\"Time\":", sec(pts[i + k].t - o, p.ts), ",\"ParameterValue\":",
                    num(beyond(pts[i + k].v, id == "HapticSharpnessControl" ? -1 : 0, 1, p.over)), "}");
    }
    p.elements.push_back(e + "]}}");
    i += n;
  }
}

std::string eventText(pbt::Source &s, const Event &e, long ts, double over) {
  std::vector<std::string> ps;
  if (e.intensity) {
    ps.push_back(param("HapticIntensity", beyond(*e.intensity, 0, 1, over), s.boolean()));
  }
  if (e.sharpness) {
    ps.push_back(param("HapticSharpness", beyond(*e.sharpness, 0, 1, over), s.boolean()));
  }
  if (s.chance(1, 8)) {
    ps.push_back(param("ReleaseTime", 0.25, false));
  }
  if (ps.size() > 1 && s.boolean()) {
    std::swap(ps[0], ps[1]);
  }
  std::string t = pbt::str("{\"Event\":{\"Time\":", sec(e.t, ts), ",\"EventType\":\"",
                           e.transient ? "HapticTransient" : "HapticContinuous", "\"");
  if (!e.transient) {
    t += ",\"EventDuration\":" + sec(e.d, ts);
  }
  t += ",\"EventParameters\":[";
  for (size_t i = 0; i < ps.size(); i++) {
    t += (i == 0 ? "" : ",") + ps[i];
  }
  return t + "]}}";
}

Pattern genPattern(pbt::Source &s) {
  Pattern p;
  p.ts = s.pick(std::vector<long>{1000, 1000, 100, 8000, 44100, 10, 1});
  int n = static_cast<int>(s.range(0, 8));
  std::vector<long> marks;
  for (int i = 0; i < n; i++) {
    Event e;
    e.transient = s.boolean();
    e.t = s.chance(1, 3) && !marks.empty() ? s.pick(marks) : s.range(0, 3000);
    marks.push_back(e.t);
    if (!e.transient) {
      e.d = s.chance(1, 4) ? s.range(1, 5) : s.range(1, 1500);
      marks.push_back(e.t + e.d);
    }
    if (s.chance(5, 6)) {
      e.intensity = static_cast<double>(s.range(0, 20)) / 20;
    }
    if (s.chance(5, 6)) {
      e.sharpness = static_cast<double>(s.range(0, 20)) / 20;
    }
    p.events.push_back(e);
  }
  p.amp = genCurve(s, marks, false);
  p.freq = genCurve(s, marks, true);
  p.over = s.chance(1, 5) ? s.pick(std::vector<double>{0.5, 1e300, 7}) : 0;
  for (auto &e : p.events) {
    p.elements.push_back(eventText(s, e, p.ts, p.over));
  }
  curveElements(s, p, p.amp, "HapticIntensityControl");
  curveElements(s, p, p.freq, "HapticSharpnessControl");
  if (s.chance(1, 5)) {
    p.elements.push_back("{\"Event\":{\"Time\":0.5,\"EventType\":\"AudioCustom\",\"EventParameters\":[]}}");
  }
  if (s.chance(1, 5)) {
    p.elements.push_back("{\"ParameterCurve\":{\"ParameterID\":\"AudioVolumeControl\",\"Time\":0,"
                         "\"ParameterCurveControlPoints\":[{\"Time\":0,\"ParameterValue\":0.25}]}}");
  }
  if (s.chance(1, 5)) {
    p.elements.push_back("{\"Parameter\":{\"ParameterID\":\"HapticIntensityControl\",\"ParameterValue\":0.5,\"Time\":0}}");
  }
  if (s.chance(2, 3)) {
    for (size_t i = p.elements.size(); i > 1; i--) {
      std::swap(p.elements[i - 1], p.elements[static_cast<size_t>(s.range(0, static_cast<long>(i) - 1))]);
    }
  }
  return p;
}

std::string text(const Pattern &p, bool comma) {
  std::string t = "{\"Version\":1.0,\"Metadata\":{\"Project\":\"x\"},\"Pattern\":[";
  for (size_t i = 0; i < p.elements.size(); i++) {
    t += (i == 0 ? "" : ",\n") + p.elements[i];
  }
  if (comma && !p.elements.empty()) {
    t += ",";
  }
  return t + "]}";
}

// value of a curve; outside of its points 'out'. side: -1 limit from the left, 1 from the right
double curveAt(const std::vector<Point> &c, long t, int side, double out, bool chirp) {
  if (c.empty() || t < c.front().t || t > c.back().t || (side < 0 && t == c.front().t) ||
      (side > 0 && t == c.back().t)) {
    return out;
  }
  for (size_t i = 0; i < c.size(); i++) {
    if (c[i].t == t) {
      return chirp && side < 0 && i > 0 ? c[i - 1].v + (c[i].v - c[i - 1].v) / 2 : c[i].v;
    }
    if (c[i].t > t) {
      const auto &a = c[i - 1];
      const auto &b = c[i];
      double f = static_cast<double>(t - a.t) / static_cast<double>(b.t - a.t);
      return a.v + (b.v - a.v) * f / (chirp ? 2 : 1);
    }
  }
  return out;
}

struct KF {
  long t;
  double v;
};
// limit at t of the polyline through the keyframes
double lineAt(const std::vector<KF> &k, long t, int side) {
  if (k.empty()) {
    return NAN;
  }
  if (side < 0) {
    size_t j = 0; // first keyframe at or after t
    while (j < k.size() && k[j].t < t) {
      j++;
    }
    if (j == k.size()) {
      return k.back().v;
    }
    if (k[j].t == t || j == 0) {
      return k[j].v;
    }
    return k[j - 1].v + (k[j].v - k[j - 1].v) * static_cast<double>(t - k[j - 1].t) / static_cast<double>(k[j].t - k[j - 1].t);
  }
  size_t j = k.size(); // last keyframe at or before t
  while (j > 0 && k[j - 1].t > t) {
    j--;
  }
  if (j == 0) {
    return k.front().v;
  }
  if (k[j - 1].t == t || j == k.size()) {
    return k[j - 1].v;
  }
  return k[j - 1].v + (k[j].v - k[j - 1].v) * static_cast<double>(t - k[j - 1].t) / static_cast<double>(k[j].t - k[j - 1].t);
}

// empty when the effect is the event
std::string match(const Pattern &p, const Event &ev, ht::Effect &e) {
  if (e.getPosition() != ev.t) {
    return "other position";
  }
  if (e.getBaseSignal() != ht::BaseSignal::Sine || e.getPhase() != 0 || e.getEffectType() != ht::EffectType::Basis) {
    return "not a sine of phase 0";
  }
  std::vector<KF> a;
  std::vector<KF> f;
  long last = 0;
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto k = e.getKeyframeAt(i);
    long t = k.getRelativePosition().value_or(0);
    if (t < last) {
      return "keyframes out of order";
    }
    last = t;
    if (k.getAmplitudeModulation()) {
      a.push_back({ev.t + t, *k.getAmplitudeModulation()});
    }
    if (k.getFrequencyModulation()) {
      f.push_back({ev.t + t, static_cast<double>(*k.getFrequencyModulation())});
    }
  }
  if (last != ev.d) {
    return pbt::str("lasts ", last, ", expected ", ev.d);
  }
  if (a.empty() || f.empty() || a.front().t != ev.t || f.front().t != ev.t || a.back().t != ev.t + ev.d || f.back().t != ev.t + ev.d) {
    return "amplitude or frequency not given over the whole effect";
  }
  const double base = ev.intensity ? *ev.intensity * MAX_C : 0.5;
  std::set<long> ts = {ev.t, ev.t + ev.d, ev.t + ev.d / 2};
  for (size_t i = 0; i < p.amp.size(); i++) {
    ts.insert(p.amp[i].t);
    ts.insert(p.amp[i].t + 1);
    ts.insert(p.amp[i].t - 1);
    if (i > 0) {
      ts.insert((p.amp[i].t + p.amp[i - 1].t) / 2);
    }
  }
  for (long t : ts) {
    for (int side : {-1, 1}) {
      if (t < ev.t || t > ev.t + ev.d || (side < 0 && t == ev.t) || (side > 0 && t == ev.t + ev.d)) {
        continue;
      }
      // inside the event a curve of one point has no extent
      double want = base * curveAt(p.amp, t, side, 1, false);
      double got = lineAt(a, t, side);
      if (std::fabs(got - want) > 1e-4) {
        return pbt::str("amplitude ", got, " at tick ", t, side < 0 ? " (from the left)" : "", ", expected ", want);
      }
    }
  }
  if (ev.sharpness || p.freq.empty()) {
    // frequencies are given at the ends and at the control points
    ts = {ev.t, ev.t + ev.d};
    for (auto &q : p.freq) {
      ts.insert(q.t);
    }
    for (long t : ts) {
      for (int side : {-1, 1}) {
        if (t < ev.t || t > ev.t + ev.d || (side < 0 && t == ev.t) || (side > 0 && t == ev.t + ev.d)) {
          continue;
        }
        double want = ev.sharpness ? 65 + 235 * std::clamp(*ev.sharpness + curveAt(p.freq, t, side, 0, true), 0., 1.) : 90;
        double got = lineAt(f, t, side);
        // the interpolation between control points is half-way for chirps, and either is accepted
        double alt = ev.sharpness ? 65 + 235 * std::clamp(*ev.sharpness + curveAt(p.freq, t, side, 0, false), 0., 1.) : 90;
        if (std::fabs(got - want) > 1.01 && std::fabs(got - alt) > 1.01) {
          return pbt::str("frequency ", got, " at tick ", t, side < 0 ? " (from the left)" : "", ", expected ", want);
        }
      }
    }
  }
  return "";
}

struct Found {
  std::vector<ht::Effect> continuous;
  std::vector<ht::Keyframe> transients;
  size_t others = 0;
};

constexpr int MARK = 4242;

// what was there before: a channel with effects that are marked
ht::Perception before(pbt::Source &s, pbt::Case &c, bool &channel) {
  ht::Perception per(3, 0, "p", ht::PerceptionModality::Vibrotactile);
  channel = s.chance(1, 4);
  if (channel) {
    ht::Channel ch(5, "mine", 0.5F, 0.25F, 3);
    for (auto type : {ht::BandType::VectorialWave, ht::BandType::Transient, ht::BandType::Curve}) {
      if (s.boolean()) {
        ht::Band b(type, 65, 300);
        int at = 0;
        for (int k = 0; k == 0 || (k < 5 && s.chance(2, 3)); k++) {
          at += static_cast<int>(s.range(0, 1000));
          ht::Effect e(at, 0, ht::BaseSignal::Sine, ht::EffectType::Basis);
          e.setId(MARK);
          e.addKeyframe(0, 0.5, 100);
          e.addKeyframe(200, 0.5, 100);
          b.addEffect(e);
          at += 200;
        }
        ch.addBand(b);
        c.label("content before");
      }
    }
    per.addChannel(ch);
  }
  return per;
}

Found collect(pbt::Case &c, ht::Perception &per, ht::Perception &old, bool channel) {
  Found f;
  c.require(per.getChannelsSize() == 1, "channels", pbt::str(per.getChannelsSize(), " channels"));
  auto ch = per.getChannelAt(0);
  if (channel) {
    auto o = old.getChannelAt(0);
    c.require(ch.getId() == o.getId() && ch.getDescription() == o.getDescription() && ch.getGain() == o.getGain() &&
                  ch.getMixingWeight() == o.getMixingWeight() && ch.getBodyPartMask() == o.getBodyPartMask(),
              "channel", "the channel that was there has other metadata");
  } else {
    c.require(ch.getGain() == 1 && ch.getMixingWeight() == 1, "channel", "gain or mixing weight of the new channel is not 1");
  }
  size_t marked = 0;
  for (int b = 0; b < static_cast<int>(ch.getBandsSize()); b++) {
    auto band = ch.getBandAt(b);
    bool own = false;
    std::vector<std::pair<long, long>> spans;
    for (int i = 0; i < static_cast<int>(band.getEffectsSize()); i++) {
      auto e = band.getEffectAt(i);
      if (e.getId() == MARK) {
        marked++;
        own = true;
        c.require(e.getKeyframesSize() == 2 && e.getKeyframeAt(1).getRelativePosition() == 200, "before", "an effect that was there changed");
        spans.push_back({e.getPosition(), e.getPosition() + 200});
        continue;
      }
      if (band.getBandType() == ht::BandType::VectorialWave) {
        f.continuous.push_back(e);
        c.require(e.getKeyframesSize() > 0, "empty", "a continuous effect without keyframes");
        spans.push_back({e.getPosition(), e.getPosition() + e.getKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1).getRelativePosition().value_or(0)});
      } else if (band.getBandType() == ht::BandType::Transient) {
        c.require(e.getKeyframesSize() > 0, "empty", "a transient effect without keyframes");
        int last = 0;
        for (int k = 0; k < static_cast<int>(e.getKeyframesSize()); k++) {
          auto kf = e.getKeyframeAt(k);
          int at = kf.getRelativePosition().value_or(0);
          c.require(k == 0 || at >= last, "order", "transients out of order");
          last = at;
          kf.setRelativePosition(at + e.getPosition());
          f.transients.push_back(kf);
        }
      } else {
        f.others++;
      }
    }
    if (!own) {
      c.require(band.getLowerFrequencyLimit() == 65 && band.getUpperFrequencyLimit() == 300, "limits", "band limits are not 65 and 300 Hz");
      c.require(band.getEffectsSize() > 0, "empty", "a band without effects");
    }
    if (band.getBandType() == ht::BandType::VectorialWave) {
      std::sort(spans.begin(), spans.end());
      for (size_t i = 1; i < spans.size(); i++) {
        c.require(spans[i].first >= spans[i - 1].second, "overlap", "effects of one band overlap");
      }
    }
  }
  size_t had = 0;
  if (channel) {
    for (int b = 0; b < static_cast<int>(old.getChannelAt(0).getBandsSize()); b++) {
      had += old.getChannelAt(0).getBandAt(b).getEffectsSize();
    }
  }
  c.require(marked == had, "before", "content that was there is gone");
  c.require(f.others == 0, "kind", "effects of another kind appeared");
  return f;
}

void verifyAs(pbt::Case &c, const Pattern &p, Found &f, bool firstHolds) {
  size_t nt = 0;
  std::vector<bool> used(f.transients.size());
  std::vector<bool> usedC(f.continuous.size());
  size_t nc = 0;
  for (auto &ev : p.events) {
    if (ev.transient) {
      nt++;
      double base = ev.intensity ? *ev.intensity * MAX_T : 0.5;
      double want = base * curveAt(p.amp, ev.t, 0, 1, false);
      if (firstHolds && !p.amp.empty() && ev.t < p.amp.front().t) {
        want = base * p.amp.front().v;
      }
      bool ok = false;
      std::string seen;
      for (size_t i = 0; i < f.transients.size(); i++) {
        auto &k = f.transients[i];
        if (used[i] || k.getRelativePosition() != ev.t || !k.getAmplitudeModulation() || !k.getFrequencyModulation()) {
          continue;
        }
        double a = *k.getAmplitudeModulation();
        seen += pbt::str(" ", a, "/", *k.getFrequencyModulation());
        if (std::fabs(a - want) < 1e-4 && (!p.freq.empty() || *k.getFrequencyModulation() == 90)) {
          used[i] = true;
          ok = true;
          break;
        }
      }
      c.require(ok, "transient", pbt::str("no transient at tick ", ev.t, " with amplitude ", want, "; there are:", seen));
    } else {
      nc++;
      bool ok = false;
      std::string why = "no effect at this position";
      for (size_t i = 0; i < f.continuous.size() && !ok; i++) {
        if (usedC[i]) {
          continue;
        }
        auto d = match(p, ev, f.continuous[i]);
        if (d.empty()) {
          usedC[i] = true;
          ok = true;
        } else if (d != "other position") {
          why = d;
        }
      }
      c.require(ok, "continuous", pbt::str("event at tick ", ev.t, " of ", ev.d, " ticks: ", why));
    }
  }
  c.require(nt == f.transients.size(), "transients", pbt::str(f.transients.size(), " transients of ", nt));
  c.require(nc == f.continuous.size(), "count", pbt::str(f.continuous.size(), " continuous effects of ", nc));
}

void verify(pbt::Case &c, const Pattern &p, Found &f) {
  try {
    verifyAs(c, p, f, true);
  } catch (pbt::Failure &) {
    verifyAs(c, p, f, false);
  }
}

std::string store(const std::string &t) {
  std::string path = pbt::scratch() + "/p.ahap";
  std::ofstream f(path, std::ios::binary);
  f << t;
  return path;
}

void convert(pbt::Source &s, pbt::Case &c) {
  auto p = genPattern(s);
  auto t = text(p, s.chance(1, 4));
  c.describe(pbt::str("time scale ", p.ts, "\n", t));
  bool channel = false;
  auto per = before(s, c, channel);
  auto old = per;
  auto path = store(t);
  c.require(AhapEncoder::encode(path, per, static_cast<unsigned>(p.ts)) == EXIT_SUCCESS, "encode", "conversion fails");
  auto f = collect(c, per, old, channel);
  bool in = false;
  for (auto &e : p.events) {
    for (auto *cv : {&p.amp, &p.freq}) {
      c.label(!cv->empty() && !e.transient && cv->back().t <= e.t, "curve ends before an event");
      c.label(!cv->empty() && !e.transient && cv->front().t >= e.t + e.d, "curve starts after an event");
      c.label(!cv->empty() && !e.transient && cv->front().t > e.t && cv->front().t < e.t + e.d, "curve starts inside an event");
      c.label(!cv->empty() && !e.transient && cv->back().t > e.t && cv->back().t < e.t + e.d, "curve ends inside an event");
      in = in || (!cv->empty() && cv->back().t >= e.t && cv->front().t <= e.t + e.d);
    }
  }
  c.nontrivial(p.events.size() > 1 && in);
  verify(c, p, f);
}

// documents that are no pattern, or have malformed elements
void malformed(pbt::Source &s, pbt::Case &c) {
  auto p = genPattern(s);
  bool channel = false;
  auto per = before(s, c, channel);
  auto old = per;
  enum Expect { Fails, Ignored, Any } expect = Fails;
  std::string t;
  auto time = [&]() { return sec(s.range(0, 3000), p.ts); };
  auto insert = [&](const std::string &e) {
    p.elements.insert(p.elements.begin() + s.range(0, static_cast<long>(p.elements.size())), e);
  };
  const auto bad = s.pick(std::vector<std::string>{"null", "\"1\"", "[]", "{}", "true"});
  switch (s.range(0, 9)) {
  case 0: // cut short
    t = text(p, false);
    t.resize(static_cast<size_t>(s.range(0, static_cast<long>(t.size()) - 1)));
    c.label("cut");
    break;
  case 1:
    t = s.pick(std::vector<std::string>{"[]", "1", "\"Pattern\"", "{}", "{\"Pattern\":{}}", "{\"Pattern\":1}", "null", "{\"pattern\":[]}"});
    c.label("no pattern");
    break;
  case 2: { // an event without a required member, or with one of a wrong type
    const bool tr = s.boolean();
    std::vector<std::string> m = {"\"Time\":", "\"EventParameters\":"};
    std::vector<std::string> v = {time(), "[]"};
    if (!tr) {
      m.push_back("\"EventDuration\":");
      v.push_back(sec(s.range(1, 300), p.ts));
    }
    size_t k = static_cast<size_t>(s.range(0, static_cast<long>(m.size()) - 1));
    const bool drop = s.boolean();
    std::string e = pbt::str("{\"Event\":{\"EventType\":\"", tr ? "HapticTransient" : "HapticContinuous", "\"");
    for (size_t i = 0; i < m.size(); i++) {
      if (i != k) {
        e += "," + m[i] + v[i];
      } else if (!drop) {
        e += "," + m[i] + (bad == "[]" && i == 1 ? "{}" : bad);
      }
    }
    insert(e + "}}");
    c.label("malformed event");
    break;
  }
  case 3: // a curve without its time or points
    insert(pbt::str("{\"ParameterCurve\":{\"ParameterID\":\"", s.boolean() ? "HapticIntensityControl" : "HapticSharpnessControl", "\"",
                    s.boolean() ? ",\"Time\":0" : ",\"ParameterCurveControlPoints\":[]", "}}"));
    c.label("malformed curve");
    break;
  case 4: // control points that are none
    p.elements.clear();
    p.events.clear();
    p.amp.clear();
    p.freq.clear();
    p.events.push_back({false, 100, 500, 0.5, 0.5});
    p.elements.push_back(eventText(s, p.events[0], p.ts, p.over));
    p.amp = {{50, 0.5}, {900, 1}};
    p.elements.push_back(pbt::str("{\"ParameterCurve\":{\"ParameterID\":\"HapticIntensityControl\",\"Time\":0,\"ParameterCurveControlPoints\":[{\"Time\":",
                                  sec(50, p.ts), ",\"ParameterValue\":0.5},{\"Time\":", s.boolean() ? bad : time(), s.boolean() ? ",\"ParameterValue\":" + bad : "",
                                  "},{\"Time\":", sec(900, p.ts), ",\"ParameterValue\":1}]}}"));
    expect = Ignored;
    c.label("malformed control point");
    break;
  case 5: // elements of other kinds
    insert(s.pick(std::vector<std::string>{"{}", "{\"Event\":{\"EventType\":\"Other\"}}", "{\"x\":1}",
                                           "{\"ParameterCurve\":{\"ParameterID\":\"Other\"}}"}));
    expect = Ignored;
    c.label("other element");
    break;
  case 6: // parameters of other kinds, or without a value
    p.events.push_back({s.boolean(), s.range(0, 3000), 100, std::nullopt, std::nullopt});
    p.freq.clear();
    p.elements.clear();
    p.amp.clear();
    p.events.erase(p.events.begin(), p.events.end() - 1);
    {
      auto &e = p.events[0];
      insert(pbt::str("{\"Event\":{\"Time\":", sec(e.t, p.ts), ",\"EventType\":\"", e.transient ? "HapticTransient" : "HapticContinuous",
                      "\",\"EventDuration\":", sec(100, p.ts), ",\"EventParameters\":[",
                      s.pick(std::vector<std::string>{"{}", "{\"ParameterValue\":0.25}", "{\"ParameterID\":\"Other\",\"ParameterValue\":0.25}",
                                                      "{\"ParameterID\":\"HapticIntensity\"}", "{\"ParameterID\":\"HapticSharpness\"}",
                                                      "{\"ParameterID\":\"HapticIntensity\",\"ParameterValue\":" + bad + "}",
                                                      "{\"ParameterID\":\"HapticSharpness\",\"ParameterValue\":" + bad + "}",
                                                      "{\"ParameterID\":" + bad + ",\"ParameterValue\":0.5}", bad}),
                      "]}}"));
    }
    expect = Any;
    c.label("malformed parameter");
    break;
  case 7: // elements that are no objects, or whose parts are none
    insert(s.pick(std::vector<std::string>{bad, "{\"Event\":" + bad + "}", "{\"ParameterCurve\":" + bad + "}",
                                           "{\"Event\":{\"EventType\":" + bad + "}}", "{\"ParameterCurve\":{\"ParameterID\":" + bad + "}}",
                                           "{\"Event\":{}}", "{\"ParameterCurve\":{}}"}));
    expect = Any;
    c.label("malformed element");
    break;
  case 8: { // control points that are no objects
    insert(pbt::str("{\"ParameterCurve\":{\"ParameterID\":\"HapticIntensityControl\",\"Time\":0,\"ParameterCurveControlPoints\":[", bad, "]}}"));
    expect = Any;
    c.label("malformed control point");
    break;
  }
  default: // a second channel
    if (!channel) {
      { ht::Channel extra(1, "a", 1, 1, 0); per.addChannel(extra); }
    }
    { ht::Channel extra(2, "b", 1, 1, 0); per.addChannel(extra); }
    old = per;
    c.label("two channels");
    break;
  }
  if (t.empty() && !c.labels.count("cut")) {
    t = text(p, false);
  }
  c.describe(pbt::str("time scale ", p.ts, "\n", t));
  auto path = store(t);
  int r = AhapEncoder::encode(path, per, static_cast<unsigned>(p.ts));
  c.nontrivial();
  c.require(r == EXIT_SUCCESS || r == EXIT_FAILURE, "code", "neither success nor failure");
  if (expect == Fails) {
    c.require(r != EXIT_SUCCESS, "accepted", "a malformed document is accepted");
    c.require(per.getChannelsSize() == old.getChannelsSize(), "modified", "a refused document changed the perception");
  } else if (expect == Ignored || r == EXIT_SUCCESS) {
    c.require(r == EXIT_SUCCESS, "refused", "a document is refused for an element that is to be ignored");
    auto f = collect(c, per, old, channel);
    verify(c, p, f);
  }
}

void missing(pbt::Source &s, pbt::Case &c) {
  ht::Perception per;
  std::string path = pbt::scratch() + "/" + std::string(static_cast<size_t>(s.range(1, 30)), 'n') + ".none";
  c.nontrivial();
  c.require(AhapEncoder::encode(path, per, 1000) != EXIT_SUCCESS, "missing", "a file that does not exist is accepted");
}
} // namespace

int main(int argc, char **argv) {
  pbt::Config cfg;
  cfg.property = "C21";
  cfg.rule = "'convert': random AHAP patterns (events and curves in any order, curves in pieces, control points near the "
             "ends of events), the intensity of every resulting effect followed from tick to tick; non-trivial: several "
             "events and a curve that meets one of them. 'malformed': patterns with one malformed element";
  cfg.assumptions = {"control points of one parameter at distinct ticks, values 0..1 (intensity), -1..1 (sharpness)",
                     "a transient before the first control point may have its own intensity or that of the first point",
                     "frequencies of transients under a sharpness curve are not compared"};
  cfg.targets = {{"convert", convert, 60000, 3000000}, {"malformed", malformed, 20000, 500000}, {"missing", missing, 50, 200}};
  return pbt::run(cfg, argc, argv);
}
