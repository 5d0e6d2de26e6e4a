// Angular and radial matrix elements computed without the code under test's angular algebra: spherical harmonics by
// Gauss-Legendre quadrature and ladder operators in the uncoupled basis |l ml>|s ms>.
#ifndef VERIF_ANGULAR_HPP
#define VERIF_ANGULAR_HPP
#include "Basisnames.hpp"
#include "Constants.hpp"
#include "QuantumDefect.hpp"
#include "Wavefunction.hpp"
#include "mc.hpp"
#include <map>
#include <memory>

using Mat = std::vector<std::vector<long double>>;
inline Mat zero(int n) { return Mat(n, std::vector<long double>(n, 0)); }
struct Node {
    long double x, w;
};
inline std::vector<Node> gauss(int n) {
    std::vector<Node> r;
    for (int i = 0; i < n; ++i) {
        long double x = cosl(acosl(-1.L) * (i + .75L) / (n + .5L)), dp = 0;
        for (int it = 0; it < 100; ++it) {
            long double p0 = 1, p1 = x;
            for (int k = 2; k <= n; ++k) {
                long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
                p0 = p1, p1 = p2;
            }
            dp = n * (x * p1 - p0) / (x * x - 1);
            x -= p1 / dp;
        }
        r.push_back({x, 2 / ((1 - x * x) * dp * dp)});
    }
    return r;
}
// theta part of Y_lm (Condon-Shortley phase), with 1/sqrt(2 pi) of the azimuthal part included
inline long double ylm(int l, int m, long double x) {
    int a = std::abs(m);
    long double s = sqrtl(1 - x * x), p = sqrtl(1 / (4 * acosl(-1.L)));
    for (int i = 1; i <= a; ++i) p *= -s * sqrtl((2 * i + 1.L) / (2 * i));
    long double q = p, prev = 0;
    for (int k = a + 1; k <= l; ++k) {
        long double A = sqrtl((4.L * k * k - 1) / ((long double)k * k - a * a)),
                    B = sqrtl((2 * k + 1.L) * (k - 1 + a) * (k - 1 - a) / ((2 * k - 3.L) * ((long double)k * k - a * a)));
        if (k == a + 1) B = 0;
        long double nx = A * x * q - B * prev;
        prev = q, q = nx;
    }
    return m < 0 && a % 2 ? -q : q;
}
inline long double harmonic(int l1, int m1, int k, int q, int l2, int m2) { // <l1 m1| C^k_q |l2 m2>
    if (m1 != q + m2) return 0;
    static auto g = gauss(24);
    long double r = 0;
    for (auto &p : g) r += p.w * ylm(l1, m1, p.x) * ylm(k, q, p.x) * ylm(l2, m2, p.x);
    return r * 2 * acosl(-1.L) * sqrtl(4 * acosl(-1.L) / (2 * k + 1));
}
struct LJM {
    int l;
    double j, m;
};
// the coupled states |l s j m> as vectors over (l, ml, ms); j from l+s downwards by lowering and orthogonalisation
struct Angular {
    double s;
    int lmax;
    struct U {
        int l, ml;
        double ms;
    };
    std::vector<U> u;
    std::vector<LJM> c;
    Mat v; // coupled states as rows
    std::map<std::pair<int, int>, Mat> C;
    Mat L[3], S[3]; // q = -1, 0, 1
    Angular(double s, int lmax) : s(s), lmax(lmax) {
        for (int l = 0; l <= lmax; ++l)
            for (int m = -l; m <= l; ++m)
                for (double k = -s; k <= s; ++k) u.push_back({l, m, k});
        int n = u.size();
        for (int l = 0; l <= lmax; ++l) {
            std::vector<std::vector<std::vector<long double>>> done; // [j index][m step]
            for (double j = l + s; j >= std::abs(l - s); --j) {
                // the state m = j: orthogonal to the ones of larger j, amplitude of ml = l positive
                std::vector<long double> top(n, 0);
                for (int i = 0; i < n; ++i)
                    if (u[i].l == l && u[i].ml == l && std::abs(u[i].ms + l - j) < .1) top[i] = 1;
                for (size_t d = 0; d < done.size(); ++d) {
                    auto &w = done[d][int(l + s - d - j + .5)];
                    long double o = 0;
                    for (int i = 0; i < n; ++i) o += w[i] * top[i];
                    for (int i = 0; i < n; ++i) top[i] -= o * w[i];
                }
                long double N = 0;
                for (auto x : top) N += x * x;
                for (auto &x : top) x /= sqrtl(N);
                std::vector<std::vector<long double>> ladder;
                for (double m = j; m >= -j; --m) {
                    ladder.push_back(top);
                    c.push_back({l, j, m});
                    v.push_back(top);
                    std::vector<long double> low(n, 0);
                    for (int i = 0; i < n; ++i) {
                        if (top[i] == 0) continue;
                        for (int k = 0; k < n; ++k) {
                            if (u[k].l != u[i].l) continue;
                            if (u[k].ml == u[i].ml - 1 && u[k].ms == u[i].ms)
                                low[k] += top[i] * sqrtl((l + u[i].ml) * (l - u[i].ml + 1.L));
                            if (u[k].ml == u[i].ml && u[k].ms == u[i].ms - 1)
                                low[k] += top[i] * sqrtl((s + u[i].ms) * (s - u[i].ms + 1.L));
                        }
                    }
                    long double f = sqrtl((j + m) * (j - m + 1));
                    if (f > 0)
                        for (auto &x : low) x /= f;
                    top = low;
                }
                done.push_back(ladder);
            }
        }
        for (int q = -1; q <= 1; ++q) {
            L[q + 1] = S[q + 1] = zero(n);
            for (int i = 0; i < n; ++i)
                for (int k = 0; k < n; ++k) {
                    if (u[i].l != u[k].l) continue;
                    if (u[i].ms == u[k].ms && u[i].ml == u[k].ml + q)
                        L[q + 1][i][k] = q == 0 ? u[k].ml : -q * sqrtl((u[k].l - q * u[k].ml) * (u[k].l + q * u[k].ml + 1.L) / 2);
                    if (u[i].ml == u[k].ml && u[i].ms == u[k].ms + q)
                        S[q + 1][i][k] = q == 0 ? u[k].ms : -q * sqrtl((s - q * u[k].ms) * (s + q * u[k].ms + 1.L) / 2);
                }
            L[q + 1] = coupled(L[q + 1]);
            S[q + 1] = coupled(S[q + 1]);
        }
        for (int k = 0; k <= 5; ++k)
            for (int q = -k; q <= k; ++q) {
                Mat m = zero(n);
                for (int a = 0; a < n; ++a)
                    for (int b = 0; b < n; ++b)
                        if (u[a].ms == u[b].ms) m[a][b] = harmonic(u[a].l, u[a].ml, k, q, u[b].l, u[b].ml);
                C[{k, q}] = coupled(m);
            }
    }
    Mat coupled(Mat const &m) const {
        int n = u.size();
        Mat t = zero(n), r = zero(n);
        for (int a = 0; a < n; ++a)
            for (int i = 0; i < n; ++i)
                if (v[a][i] != 0)
                    for (int k = 0; k < n; ++k) t[a][k] += v[a][i] * m[i][k];
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
                for (int k = 0; k < n; ++k) r[a][b] += t[a][k] * v[b][k];
        return r;
    }
    double element(int k, int row, int col) const {
        int q = std::lround(c[row].m - c[col].m);
        return std::abs(q) > k ? 0 : (double)C.at({k, q})[row][col];
    }
    double magnetic(int row, int col) const {
        int q = std::lround(c[row].m - c[col].m);
        return std::abs(q) > 1 ? 0 : double(gL * L[q + 1][row][col] + gS * S[q + 1][row][col]);
    }
};
inline double spin(std::string const &sp) { return isdigit(sp.back()) ? ((sp.back() - '0') - 1) / 2. : .5; }
struct Radial {
    std::string sp;
    int m;
    std::map<std::string, double> memo;
    double operator()(int p, int n1, LJM a, int n2, LJM b) {
        auto key = mc::cat(p, ' ', n1, ' ', a.l, ' ', a.j, ' ', n2, ' ', b.l, ' ', b.j);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        QuantumDefect x(sp, n1, a.l, a.j), y(sp, n2, b.l, b.j);
        double r = m ? IntegrateRadialElement<Whittaker>(x, p, y) : IntegrateRadialElement<Numerov>(x, p, y);
        memo[mc::cat(p, ' ', n2, ' ', b.l, ' ', b.j, ' ', n1, ' ', a.l, ' ', a.j)] = r;
        return memo[key] = r;
    }
};
#endif
