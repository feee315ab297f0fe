// Stand-in for iir1's Iir.h (not available offline): Butterworth low/high pass of even order,
// as a cascade of bilinear-transform biquads.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
namespace Iir {
namespace shim {
struct Biquad {
  double b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0, z1 = 0, z2 = 0;
  double filter(double x) {
    double y = b0 * x + z1;
    z1 = b1 * x - a1 * y + z2;
    z2 = b2 * x - a2 * y;
    return y;
  }
};
template <int ORDER, bool HIGH> class Butter {
public:
  void setup(double fs, double f) {
    const double pi = 3.14159265358979323846;
    for (int i = 0; i < ORDER / 2; i++) {
      const double q = 1.0 / (2.0 * std::cos(pi * (2.0 * i + 1.0) / (2.0 * ORDER)));
      const double w = 2 * pi * f / fs;
      const double alpha = std::sin(w) / (2 * q);
      const double c = std::cos(w);
      Biquad &s = stages[static_cast<size_t>(i)];
      s = Biquad();
      const double a0 = 1 + alpha;
      if (HIGH) {
        s.b0 = (1 + c) / 2 / a0;
        s.b1 = -(1 + c) / a0;
      } else {
        s.b0 = (1 - c) / 2 / a0;
        s.b1 = (1 - c) / a0;
      }
      s.b2 = s.b0;
      s.a1 = -2 * c / a0;
      s.a2 = (1 - alpha) / a0;
    }
  }
  double filter(double x) {
    for (auto &s : stages) {
      x = s.filter(x);
    }
    return x;
  }
  void reset() {
    for (auto &s : stages) {
      s.z1 = s.z2 = 0;
    }
  }

private:
  std::array<Biquad, ORDER / 2> stages{};
};
} // namespace shim
namespace Butterworth {
template <int N> using LowPass = shim::Butter<N, false>;
template <int N> using HighPass = shim::Butter<N, true>;
} // namespace Butterworth
} // namespace Iir
