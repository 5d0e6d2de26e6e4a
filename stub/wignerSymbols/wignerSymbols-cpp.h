// Stand-in for the (unavailable offline) joeydumont/wignerSymbols library, used only by the
// harnesses in /verif so that the parts of pairinteraction that need it can be compiled and run.
// Racah's formulas evaluated in long double with exact factorial tables.
#ifndef VERIF_WIGNER_STANDIN_H
#define VERIF_WIGNER_STANDIN_H
#include <algorithm>
#include <cmath>
#include <vector>

namespace WignerSymbols {
namespace detail {
inline long double fact(int n) {
    static const std::vector<long double> table = [] {
        std::vector<long double> t(1001);
        t[0] = 1;
        for (int i = 1; i <= 1000; ++i) t[i] = t[i - 1] * i;
        return t;
    }();
    return table.at(n);
}
inline bool halfint(double x, int &twice) {
    double t = 2 * x;
    double r = std::round(t);
    twice = static_cast<int>(r);
    return std::abs(t - r) < 1e-9;
}
inline bool tri(int a, int b, int c) { // doubled arguments
    return a >= 0 && b >= 0 && c >= 0 && (a + b + c) % 2 == 0 && c <= a + b && c >= std::abs(a - b);
}
inline long double delta(int a, int b, int c) {
    return fact((a + b - c) / 2) * fact((a - b + c) / 2) * fact((-a + b + c) / 2) /
        fact((a + b + c) / 2 + 1);
}
} // namespace detail

inline double wigner3j(double l1, double l2, double l3, double m1, double m2, double m3) {
    using namespace detail;
    int a, b, c, x, y, z;
    if (!halfint(l1, a) || !halfint(l2, b) || !halfint(l3, c) || !halfint(m1, x) ||
        !halfint(m2, y) || !halfint(m3, z))
        return 0;
    if (x + y + z != 0 || !tri(a, b, c)) return 0;
    if (std::abs(x) > a || std::abs(y) > b || std::abs(z) > c) return 0;
    if ((a + x) % 2 != 0 || (b + y) % 2 != 0 || (c + z) % 2 != 0) return 0;
    int t1 = (b - x - c) / 2, t2 = (a + y - c) / 2, t3 = (a + b - c) / 2, t4 = (a - x) / 2,
        t5 = (b + y) / 2;
    int tmin = std::max({0, t1, t2}), tmax = std::min({t3, t4, t5});
    long double sum = 0;
    for (int t = tmin; t <= tmax; ++t) {
        long double d = fact(t) * fact(t - t1) * fact(t - t2) * fact(t3 - t) * fact(t4 - t) *
            fact(t5 - t);
        sum += ((t % 2) ? -1.0L : 1.0L) / d;
    }
    int ph = (a - b - z) / 2;
    long double r = ((std::abs(ph) % 2) ? -1.0L : 1.0L) *
        std::sqrt(delta(a, b, c) * fact((a + x) / 2) * fact((a - x) / 2) * fact((b + y) / 2) *
                  fact((b - y) / 2) * fact((c + z) / 2) * fact((c - z) / 2)) *
        sum;
    return static_cast<double>(r);
}

inline double wigner6j(double l1, double l2, double l3, double l4, double l5, double l6) {
    using namespace detail;
    int a, b, c, d, e, f;
    if (!halfint(l1, a) || !halfint(l2, b) || !halfint(l3, c) || !halfint(l4, d) ||
        !halfint(l5, e) || !halfint(l6, f))
        return 0;
    if (!tri(a, b, c) || !tri(a, e, f) || !tri(d, b, f) || !tri(d, e, c)) return 0;
    long double pre =
        std::sqrt(delta(a, b, c)) * std::sqrt(delta(a, e, f)) * std::sqrt(delta(d, b, f)) *
        std::sqrt(delta(d, e, c));
    int s1 = (a + b + c) / 2, s2 = (a + e + f) / 2, s3 = (d + b + f) / 2, s4 = (d + e + c) / 2;
    int q1 = (a + b + d + e) / 2, q2 = (b + c + e + f) / 2, q3 = (a + c + d + f) / 2;
    int tmin = std::max({s1, s2, s3, s4}), tmax = std::min({q1, q2, q3});
    long double sum = 0;
    for (int t = tmin; t <= tmax; ++t) {
        long double den = fact(t - s1) * fact(t - s2) * fact(t - s3) * fact(t - s4) * fact(q1 - t) *
            fact(q2 - t) * fact(q3 - t);
        sum += ((t % 2) ? -1.0L : 1.0L) * fact(t + 1) / den;
    }
    return static_cast<double>(pre * sum);
}

inline double clebschGordan(double l1, double l2, double l3, double m1, double m2, double m3) {
    double ph = std::fmod(std::abs(l1 - l2 + m3), 2.0) > 0.5 ? -1 : 1;
    return ph * std::sqrt(2 * l3 + 1) * wigner3j(l1, l2, l3, m1, m2, -m3);
}
} // namespace WignerSymbols
#endif
