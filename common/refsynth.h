// Reference (slow, direct) definitions of signal interpolation and synthesis.
#pragma once
#include "model.h"
#include <algorithm>
#include <cmath>
#include <optional>
#include <vector>

namespace ref {
namespace ht = haptics::types;
using Points = std::vector<std::pair<int, double>>;

inline auto lerp(double x0, double y0, double x1, double y1, double x) -> double {
  return y0 + (y1 - y0) * ((x - x0) / (x1 - x0));
}
inline auto smooth(double x0, double y0, double x1, double y1, double x) -> double {
  double u = (x - x0) / (x1 - x0);
  return y0 + (y1 - y0) * u * u * (3 - 2 * u);
}
// value at every integer of [p.front, p.back] (p.front.first == 0)
inline auto linear(const Points &p, bool cubic) -> std::vector<double> {
  std::vector<double> r;
  size_t k = 0;
  for (int x = p.front().first; x <= p.back().first; x++) {
    while (x > p[k + 1].first) {
      k++;
    }
    r.push_back((cubic ? smooth : lerp)(p[k].first, p[k].second, p[k + 1].first, p[k + 1].second, x));
  }
  return r;
}
// natural cubic spline by solving the full system for the second derivatives
inline auto naturalSpline(const Points &p) -> std::vector<double> {
  size_t n = p.size();
  std::vector<std::vector<double>> A(n, std::vector<double>(n + 1, 0));
  A[0][0] = A[n - 1][n - 1] = 1;
  for (size_t i = 1; i + 1 < n; i++) {
    double h0 = p[i].first - p[i - 1].first;
    double h1 = p[i + 1].first - p[i].first;
    A[i][i - 1] = h0 / 6;
    A[i][i] = (h0 + h1) / 3;
    A[i][i + 1] = h1 / 6;
    A[i][n] = (p[i + 1].second - p[i].second) / h1 - (p[i].second - p[i - 1].second) / h0;
  }
  for (size_t c = 0; c < n; c++) { // elimination with partial pivoting
    size_t piv = c;
    for (size_t r = c + 1; r < n; r++) {
      if (std::fabs(A[r][c]) > std::fabs(A[piv][c])) {
        piv = r;
      }
    }
    std::swap(A[c], A[piv]);
    for (size_t r = 0; r < n; r++) {
      if (r != c && A[r][c] != 0) {
        double f = A[r][c] / A[c][c];
        for (size_t k = c; k <= n; k++) {
          A[r][k] -= f * A[c][k];
        }
      }
    }
  }
  std::vector<double> m(n);
  for (size_t i = 0; i < n; i++) {
    m[i] = A[i][n] / A[i][i];
  }
  std::vector<double> r;
  size_t k = 0;
  for (int x = p.front().first; x <= p.back().first; x++) {
    while (x > p[k + 1].first) {
      k++;
    }
    double h = p[k + 1].first - p[k].first;
    double a = (p[k + 1].first - x) / h;
    double b = (x - p[k].first) / h;
    r.push_back(a * p[k].second + b * p[k + 1].second +
                ((a * a * a - a) * m[k] + (b * b * b - b) * m[k + 1]) * h * h / 6);
  }
  return r;
}
// Akima spline: slopes weighted by the changes of slope on the other side, two extrapolated
// segments at both ends
inline auto akima(const Points &p) -> std::vector<double> {
  size_t n = p.size();
  std::vector<double> s; // segment slopes s[k+2] = slope of segment k
  for (size_t i = 0; i + 1 < n; i++) {
    s.push_back((p[i + 1].second - p[i].second) / (p[i + 1].first - p[i].first));
  }
  double a = s[0];
  double b = s[1];
  double y = s[n - 3];
  double z = s[n - 2];
  s.insert(s.begin(), {3 * a - 2 * b, 2 * a - b});
  s.push_back(2 * z - y);
  s.push_back(3 * z - 2 * y);
  double top = 0;
  for (size_t i = 0; i < n; i++) {
    top = std::max(top, std::fabs(s[i + 3] - s[i + 2]) + std::fabs(s[i + 1] - s[i]));
  }
  std::vector<double> d(n);
  for (size_t i = 0; i < n; i++) {
    double w1 = std::fabs(s[i + 3] - s[i + 2]);
    double w2 = std::fabs(s[i + 1] - s[i]);
    d[i] = w1 + w2 > 1e-8 * top ? (w1 * s[i + 1] + w2 * s[i + 2]) / (w1 + w2) : s[i + 1];
  }
  std::vector<double> r;
  size_t k = 0;
  for (int x = p.front().first; x <= p.back().first; x++) {
    while (x > p[k + 1].first) {
      k++;
    }
    double h = p[k + 1].first - p[k].first;
    double u = (x - p[k].first) / h;
    double h00 = (1 + 2 * u) * (1 - u) * (1 - u);
    double h10 = u * (1 - u) * (1 - u);
    double h01 = u * u * (3 - 2 * u);
    double h11 = u * u * (u - 1);
    r.push_back(h00 * p[k].second + h10 * h * d[k] + h01 * p[k + 1].second + h11 * h * d[k + 1]);
  }
  return r;
}
// quadratic Bezier arcs over consecutive triples of control points
inline auto bezier(Points p) -> std::vector<double> {
  if (p.size() % 2 == 0) {
    p.pop_back();
  }
  std::vector<double> r;
  for (size_t i = 0; i + 2 < p.size(); i += 2) {
    for (int x = p[i].first; x < p[i + 2].first; x++) {
      double lo = 0;
      double hi = 1;
      for (int it = 0; it < 60; it++) {
        double t = (lo + hi) / 2;
        double v = (1 - t) * (1 - t) * p[i].first + 2 * t * (1 - t) * p[i + 1].first +
                   t * t * p[i + 2].first;
        (v < x ? lo : hi) = t;
      }
      double t = (lo + hi) / 2;
      r.push_back((1 - t) * (1 - t) * p[i].second + 2 * t * (1 - t) * p[i + 1].second +
                  t * t * p[i + 2].second);
    }
  }
  r.push_back(p.back().second);
  return r;
}
// clamped uniform quadratic B-spline with the points as control polygon
inline auto bspline(const Points &p) -> std::vector<double> {
  int n = static_cast<int>(p.size());
  int spans = n - 2;
  auto eval = [&](double u, bool y) {
    int k = std::min(spans - 1, static_cast<int>(std::floor(u * spans)));
    auto knot = [&](int i) { // clamped knots, degree 2
      return std::clamp(static_cast<double>(i - 2) / spans, 0.0, 1.0);
    };
    double d[3];
    for (int i = 0; i < 3; i++) {
      const auto &q = p[static_cast<size_t>(k + i)];
      d[i] = y ? q.second : q.first;
    }
    int s = k + 2; // knot span [knot(s), knot(s+1))
    for (int lev = 1; lev <= 2; lev++) {
      for (int j = 2; j >= lev; j--) {
        int i = s - 2 + j;
        double den = knot(i + 3 - lev) - knot(i);
        double w = den == 0 ? 0 : (u - knot(i)) / den;
        d[j] = (1 - w) * d[j - 1] + w * d[j];
      }
    }
    return d[2];
  };
  std::vector<double> r;
  for (int x = p.front().first; x <= p.back().first; x++) {
    double lo = 0;
    double hi = 1;
    for (int it = 0; it < 60; it++) {
      double u = (lo + hi) / 2;
      (eval(u, false) < x ? lo : hi) = u;
    }
    r.push_back(eval((lo + hi) / 2, true));
  }
  r.front() = p.front().second;
  r.back() = p.back().second;
  return r;
}
// how far the stepped evaluation of a B-spline (a tenth of a sample in parameter space) may be off
inline auto bsplineTolerance(const Points &p) -> double {
  double m = 0;
  for (size_t i = 1; i < p.size(); i++) {
    m = std::max(m, std::fabs(p[i].second - p[i - 1].second));
  }
  return 0.1 / p.back().first * 2 * static_cast<double>(p.size() - 2) * m * 1.05 + 1e-9;
}

// -------------------------------------------------------------------------------------------
// value, or nothing where the definition jumps and a rounding decides
using Opt = std::optional<double>;

inline auto base(ht::BaseSignal b, double cycles) -> Opt {
  double fr = cycles - std::floor(cycles);
  auto near = [&](double x) { return std::fabs(fr - x) < 1e-6 || std::fabs(fr - x) > 1 - 1e-6; };
  switch (b) {
  case ht::BaseSignal::Sine:
    return std::sin(2 * M_PI * fr);
  case ht::BaseSignal::Square:
    if (near(0) || near(0.5)) {
      return {};
    }
    return fr < 0.5 ? 1 : -1;
  case ht::BaseSignal::Triangle:
    return fr < 0.25 ? 4 * fr : fr < 0.75 ? 2 - 4 * fr : 4 * fr - 4;
  case ht::BaseSignal::SawToothUp:
    if (near(0.5)) {
      return {};
    }
    return fr < 0.5 ? 2 * fr : 2 * fr - 2;
  case ht::BaseSignal::SawToothDown:
    if (near(0.5)) {
      return {};
    }
    return fr < 0.5 ? -2 * fr : 2 - 2 * fr;
  }
  return {};
}
// positions in ticks, strictly increasing; every keyframe has a position
inline auto vectorial(ht::Effect &e, double t, unsigned ts) -> Opt {
  t -= e.getPosition();
  Points amp;
  Points freq;
  int end = -1;
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto &k = e.getKeyframeAt(i);
    end = k.getRelativePosition().value_or(0);
    if (k.getAmplitudeModulation()) {
      amp.emplace_back(end, *k.getAmplitudeModulation());
    }
    if (k.getFrequencyModulation()) {
      freq.emplace_back(end, *k.getFrequencyModulation());
    }
  }
  if (end < 0 || t < 0 || t > end) {
    return 0.0;
  }
  double a = 1;
  if (!amp.empty()) {
    if (t <= amp.front().first) {
      a = amp.front().second;
    } else if (t >= amp.back().first) {
      a = amp.back().second;
    } else {
      size_t k = 0;
      while (t > amp[k + 1].first) {
        k++;
      }
      a = lerp(amp[k].first, amp[k].second, amp[k + 1].first, amp[k + 1].second, t);
    }
  }
  if (freq.empty()) { // no oscillation: the phase the effect has
    freq.emplace_back(0, 0);
  }
  // cycles = integral of the frequency (held outside the keyframes, linear between them)
  double cycles = std::min<double>(t, freq.front().first) * freq.front().second;
  for (size_t k = 0; k + 1 < freq.size(); k++) {
    if (t <= freq[k].first) {
      break;
    }
    double u = std::min<double>(t, freq[k + 1].first);
    double fu = lerp(freq[k].first, freq[k].second, freq[k + 1].first, freq[k + 1].second, u);
    cycles += (u - freq[k].first) * (freq[k].second + fu) / 2;
  }
  if (t > freq.back().first) {
    cycles += (t - freq.back().first) * freq.back().second;
  }
  Opt b = base(e.getBaseSignalOrDefault(), cycles / ts + e.getPhaseOrDefault() / (2 * M_PI));
  if (!b) {
    return {};
  }
  return a * *b;
}
inline auto transientTicks(unsigned ts) -> double { return 22.0 * ts / 1000.0; }
inline auto transient(ht::Effect &e, double t, unsigned ts) -> double {
  double d = transientTicks(ts);
  double r = 0;
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto &k = e.getKeyframeAt(i);
    double u = t - e.getPosition() - k.getRelativePosition().value();
    if (u >= 0 && u <= d && k.getAmplitudeModulation()) {
      r += *k.getAmplitudeModulation() * std::sin(4 * M_PI * u / d);
    }
  }
  return r;
}
// linear and cubic curves at any time; amplitude held before the first keyframe, 0 from the last
// one on (nothing: exactly on the last one)
inline auto curve(ht::Effect &e, double t, bool cubic) -> Opt {
  t -= e.getPosition();
  Points p;
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto &k = e.getKeyframeAt(i);
    if (k.getAmplitudeModulation()) {
      p.emplace_back(k.getRelativePosition().value(), *k.getAmplitudeModulation());
    }
  }
  if (p.empty() || t > p.back().first) {
    return 0.0;
  }
  if (t == p.back().first) {
    return {};
  }
  if (t < p.front().first) {
    return p.front().second;
  }
  size_t k = 0;
  while (t >= p[k + 1].first) {
    k++;
  }
  return (cubic ? smooth : lerp)(p[k].first, p[k].second, p[k + 1].first, p[k + 1].second, t);
}
} // namespace ref
