// A01: rotation matrices for every angular momentum and every composition of rotations on a grid, against exp(-i beta Jy).
#include "WignerD.hpp"
#include "mc.hpp"

using R = long double;
using M = std::vector<std::vector<R>>;
static M mul(M const &a, M const &b) {
    size_t n = a.size();
    M c(n, std::vector<R>(n, 0));
    for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < n; ++k)
            if (a[i][k] != 0)
                for (size_t j = 0; j < n; ++j) c[i][j] += a[i][k] * b[k][j];
    return c;
}
static M one(size_t n) {
    M c(n, std::vector<R>(n, 0));
    for (size_t i = 0; i < n; ++i) c[i][i] = 1;
    return c;
}
// exp(-i beta Jy) in the basis m = -j..j; -i Jy = (J- - J+) / 2 is real
static M exact(int j2, R beta) {
    size_t n = j2 + 1;
    // whole turns
    R turn = std::remainder(beta, 4 * std::acos(R(-1)));
    M g(n, std::vector<R>(n, 0));
    int s = 12;
    while (std::ldexp(std::abs(turn) * (j2 + 1), -s) > 0.25) ++s;
    R t = std::ldexp(turn, -s);
    R j = j2 / R(2);
    for (size_t i = 0; i + 1 < n; ++i) {
        R m = -j + i;
        R c = std::sqrt(j * (j + 1) - m * (m + 1)) / 2;
        g[i + 1][i] = -c * t; // J+
        g[i][i + 1] = c * t;  // J-
    }
    M sum = one(n), term = one(n);
    for (int k = 1; k < 30; ++k) {
        term = mul(term, g);
        for (auto &row : term)
            for (auto &v : row) v /= k;
        for (size_t a = 0; a < n; ++a)
            for (size_t b = 0; b < n; ++b) sum[a][b] += term[a][b];
    }
    // squaring exp - 1 keeps small angles exact
    for (int k = 0; k < s; ++k) sum = mul(sum, sum);
    return sum;
}

using C = std::complex<double>;
static std::vector<C> full(int j2, double a, double b, double g) {
    WignerD d;
    size_t n = j2 + 1;
    std::vector<C> v(n * n);
    for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < n; ++k) v[i * n + k] = d(j2 / 2.f, -j2 / 2.f + i, -j2 / 2.f + k, a, b, g);
    return v;
}
static double dist(std::vector<C> const &a, std::vector<C> const &b) {
    double w = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        double x = std::abs(a[i] - b[i]);
        if (!(x <= w)) w = x;
    }
    return w;
}
static std::vector<C> prod(std::vector<C> const &a, std::vector<C> const &b, size_t n) {
    std::vector<C> c(n * n);
    for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < n; ++k)
            for (size_t j = 0; j < n; ++j) c[i * n + j] += a[i * n + k] * b[k * n + j];
    return c;
}
static std::vector<C> adj(std::vector<C> const &a, size_t n) {
    std::vector<C> c(n * n);
    for (size_t i = 0; i < n; ++i)
        for (size_t k = 0; k < n; ++k) c[k * n + i] = std::conj(a[i * n + k]);
    return c;
}

int main() {
    auto &r = mc::R();
    int jmax2 = mc::tier(21, 31);
    std::vector<double> betas;
    int steps = mc::tier(24, 48);
    for (int k = -2 * steps; k <= 4 * steps; ++k) betas.push_back(M_PI * k / steps);
    double h = M_PI / 2;
    for (double c : {h, -h, M_PI, 0., 2 * M_PI, 3 * h})
        for (double e : {0., 1e-17, 1e-16, 2.3e-16, 5e-16, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3})
            for (int s : {-1, 1}) betas.push_back(c + s * e);
    for (double b : {0.1, 1.234567, 100., -1e3, 5e-324}) betas.push_back(b);
    std::sort(betas.begin(), betas.end());
    betas.erase(std::unique(betas.begin(), betas.end()), betas.end());
    std::vector<double> az = {0, M_PI / 3, -1.1, M_PI, 4.5, -M_PI / 2, 2 * M_PI};

    mc::parallel(jmax2 + 1, [&](int w) {
        int j2 = jmax2 - w;
        size_t n = j2 + 1;
        WignerD d;
        double tol = 3e-15 * std::pow(1.75, j2 / 2.) + 1e-13;
        for (double b : betas) {
            char lab[64];
            snprintf(lab, sizeof lab, "j=%g beta=%.17g", j2 / 2., b);
            if (!mc::enter(lab)) continue;
            double t = tol + 1e-16 * std::abs(b) * j2;
            M e = exact(j2, b);
            std::vector<C> v = full(j2, 0, b, 0);
            for (size_t i = 0; i < n; ++i)
                for (size_t k = 0; k < n; ++k) {
                    double x = d(j2 / 2.f, -j2 / 2.f + i, -j2 / 2.f + k, b);
                    double err = std::abs(x - static_cast<double>(e[i][k]));
                    ++r.evaluations;
                    if (!(err < t)) mc::violation("wrong rotation matrix element", mc::cat("m=", -j2 / 2. + i, " m'=", -j2 / 2. + k, ": ", x, " instead of ", static_cast<double>(e[i][k])));
                    if (!(std::abs(v[i * n + k] - C(x)) < tol)) mc::violation("the reduced and the full matrix differ", "");
                }
            std::vector<C> id(n * n);
            for (size_t i = 0; i < n; ++i) id[i * n + i] = 1;
            if (!(dist(prod(v, adj(v, n), n), id) < 4 * n * t)) mc::violation("the rotation matrix is not unitary", "");
            if (b == 0 && !(dist(v, id) < t)) mc::violation("no rotation is not the identity", "");
            if (!(dist(full(j2, 0, -b, 0), adj(v, n)) < 2 * t)) mc::violation("the opposite rotation is not the adjoint", "");
            ++r.states;
            mc::outcome(lab);
            if (j2 == 3 && r.samples.size() < 4) mc::sample(mc::cat(lab, " d(3/2,1/2)=", v[3 * n + 2].real()));
        }
        // phases of the rotations about z, and all consecutive rotations about one axis
        std::vector<double> few;
        for (double b : {0., M_PI / 6, M_PI / 4, M_PI / 2, 2., M_PI, -M_PI / 2, -0.7, 2 * M_PI, 1e-3}) few.push_back(b);
        for (double a : az)
            for (double g : az)
                for (double b : few) {
                    std::string l = mc::cat("j=", j2 / 2., " euler ", a, " ", b, " ", g);
                    if (!mc::enter(l)) continue;
                    M e = exact(j2, b);
                    std::vector<C> v = full(j2, a, b, g), want(n * n);
                    for (size_t i = 0; i < n; ++i)
                        for (size_t k = 0; k < n; ++k) {
                            double m = -j2 / 2. + i, mp = -j2 / 2. + k;
                            want[i * n + k] = std::polar(1., -m * a) * static_cast<double>(e[i][k]) * std::polar(1., -mp * g);
                        }
                    if (!(dist(v, want) < 2 * tol)) mc::violation("wrong phases of a rotation about z", "");
                    if (!(dist(full(j2, -g, -b, -a), adj(v, n)) < 4 * tol)) mc::violation("the opposite rotation is not the adjoint", "");
                    ++r.states;
                    ++r.evaluations;
                }
        for (double b1 : few)
            for (double b2 : few)
                for (double b3 : few) {
                    std::string l = mc::cat("j=", j2 / 2., " consecutive ", b1, " ", b2, " ", b3);
                    if (!mc::enter(l)) continue;
                    auto p = prod(prod(full(j2, 0, b1, 0), full(j2, 0, b2, 0), n), full(j2, 0, b3, 0), n);
                    if (!(dist(p, full(j2, 0, b1 + b2 + b3, 0)) < 16 * n * tol)) mc::violation("consecutive rotations about one axis do not multiply", "");
                    ++r.traces;
                    r.transitions += 3;
                    ++r.evaluations;
                }
    });
    return mc::finish();
}
