// Stand-in for dj_fft.h (not available offline): 1D FFT normalised by 1/sqrt(N).
#pragma once
#include <cmath>
#include <complex>
#include <vector>
namespace dj {
enum class fft_dir { DIR_FWD = +1, DIR_BWD = -1 };
template <typename T> using fft_arg = std::vector<std::complex<T>>;
template <typename T>
auto fft1d(const std::vector<std::complex<T>> &xi, const fft_dir &dir)
    -> std::vector<std::complex<T>> {
  const size_t n = xi.size();
  const T pi = static_cast<T>(3.14159265358979323846264338327950288);
  std::vector<std::complex<T>> a = xi;
  for (size_t i = 1, j = 0; i < n; i++) {
    size_t bit = n >> 1;
    for (; (j & bit) != 0; bit >>= 1) {
      j ^= bit;
    }
    j ^= bit;
    if (i < j) {
      std::swap(a[i], a[j]);
    }
  }
  for (size_t len = 2; len <= n; len <<= 1) {
    const T ang = -static_cast<T>(static_cast<int>(dir)) * 2 * pi / static_cast<T>(len);
    for (size_t i = 0; i < n; i += len) {
      for (size_t k = 0; k < len / 2; k++) {
        const std::complex<T> w(std::cos(ang * static_cast<T>(k)), std::sin(ang * static_cast<T>(k)));
        const auto u = a[i + k];
        const auto v = a[i + k + len / 2] * w;
        a[i + k] = u + v;
        a[i + k + len / 2] = u - v;
      }
    }
  }
  const T norm = static_cast<T>(1) / std::sqrt(static_cast<T>(n));
  for (auto &v : a) {
    v *= norm;
  }
  return a;
}
} // namespace dj
