// Reference for pair systems: the Coulomb interaction of the two valence electrons and cores, with the image charges of
// a conducting plate, expanded numerically (complex circles for the powers of r1 and r2, quadrature for the angles) and
// written with the one-atom tensors of sysone.hpp.
#ifndef VERIF_SYSTWO_HPP
#define VERIF_SYSTWO_HPP
#include "SystemTwo.hpp"
#include "sysone.hpp"

double const NOWHERE = std::numeric_limits<double>::max();
struct PairParams {
    C3 dir{{0, 0, 1}};
    double len = NOWHERE;
    unsigned order = 3;
    bool gt = false, sticky = false; // Green tensor asked for; switched on by an earlier setting
    double surf = NOWHERE;
    Params one;                      // fields of both atoms (fixed)
    C3 v() const { return {{dir[0] * len, dir[1] * len, dir[2] * len}}; }
    bool plate() const { return surf != NOWHERE; }
    bool operator<(PairParams const &o) const {
        auto a = v(), b = o.v();
        return std::tie(a, order, surf, one) < std::tie(b, o.order, o.surf, o.one);
    }
};
// coefficients of r1^k1 C^k1_q1 r2^k2 C^k2_q2 in the energy of two unit charges at p1 + r1 and p2 + r2
struct Kernel {
    std::map<std::pair<int, int>, CM> A;
    Kernel(C3 R, double surf, int kmax = 3) {
        using cd = std::complex<double>;
        bool plate = surf != NOWHERE;
        double radius = norm(R);
        C3 p1{{0, 0, 0}}, p2 = R;
        if (plate) {
            p1[2] = surf - R[2] / 2, p2[2] = surf + R[2] / 2;
            radius = std::min(radius, std::sqrt(R[0] * R[0] + 4 * surf * surf));
        }
        radius /= 24;
        int const n = 8;
        auto g = gauss(kmax + 1);
        struct Dir {
            C3 v;
            double w;
        };
        std::vector<Dir> dirs;
        int nphi = 2 * kmax + 2;
        for (auto &node : g)
            for (int i = 0; i < nphi; ++i) {
                double phi = 2 * M_PI * (i + .3) / nphi, s = std::sqrt(1 - (double)(node.x * node.x));
                dirs.push_back({{{s * std::cos(phi), s * std::sin(phi), (double)node.x}}, double(node.w) * 2 * M_PI / nphi});
            }
        for (int a = 1; a <= kmax; ++a)
            for (int b = 1; a + b <= kmax + 1; ++b) A[{a, b}] = CM::Zero(2 * a + 1, 2 * b + 1);
        cd z[n];
        for (int i = 0; i < n; ++i) z[i] = std::polar(radius, 2 * M_PI * i / n);
        std::vector<std::vector<cd>> Y(dirs.size());
        auto at = [](int k, int q) { return k * (k + 1) + q; };
        for (size_t d = 0; d < dirs.size(); ++d)
            for (int k = 0; k <= kmax; ++k)
                for (int q = -k; q <= k; ++q) Y[d].push_back(std::conj(unitC(k, q, dirs[d].v)));
        for (size_t d1 = 0; d1 < dirs.size(); ++d1)
            for (size_t d2 = 0; d2 < dirs.size(); ++d2) {
                cd f[n][n];
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j) {
                        cd direct = 0, image = 0;
                        for (int c = 0; c < 3; ++c) {
                            cd x1 = p1[c] + z[i] * dirs[d1].v[c], x2 = p2[c] + z[j] * dirs[d2].v[c];
                            direct += (x2 - x1) * (x2 - x1);
                            cd m = c == 2 ? x2 + x1 : x2 - x1;
                            image += m * m;
                        }
                        f[i][j] = 1. / std::sqrt(direct) - (plate ? 1. / std::sqrt(image) : cd(0));
                    }
                for (auto &e : A) {
                    int a = e.first.first, b = e.first.second;
                    cd c = 0;
                    for (int i = 0; i < n; ++i)
                        for (int j = 0; j < n; ++j) c += f[i][j] * std::polar(1., -2 * M_PI * (a * i + b * j) / n);
                    c /= n * n * std::pow(radius, a + b);
                    c *= dirs[d1].w * dirs[d2].w * (2 * a + 1) * (2 * b + 1) / (16 * M_PI * M_PI);
                    for (int q1 = -a; q1 <= a; ++q1)
                        for (int q2 = -b; q2 <= b; ++q2) e.second(a + q1, b + q2) += c * Y[d1][at(a, q1)] * Y[d2][at(b, q2)];
                }
            }
    }
};
inline CM kron(CM const &a, CM const &b) {
    CM r(a.rows() * b.rows(), a.cols() * b.cols());
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j) r.block(i * b.rows(), j * b.cols(), b.rows(), b.cols()) = a(i, j) * b;
    return r;
}
struct PairRef {
    OneRef &a, &b;
    std::vector<StateTwo> F;
    std::map<StateTwo, int> index;
    Eigen::VectorXd e0;
    std::map<PairParams, CM> memo;
    std::map<std::pair<C3, double>, Kernel> kernels;
    PairRef(OneRef &a, OneRef &b) : a(a), b(b) {
        e0.resize(a.F.size() * b.F.size());
        for (size_t i = 0; i < a.F.size(); ++i)
            for (size_t k = 0; k < b.F.size(); ++k) {
                e0[F.size()] = a.e0[i] + b.e0[k];
                index[StateTwo(a.F[i], b.F[k])] = F.size();
                F.push_back(StateTwo(a.F[i], b.F[k]));
            }
    }
    CM V(C3 const &R, double surf, unsigned order) {
        auto key = std::make_pair(R, surf);
        auto it = kernels.find(key);
        if (it == kernels.end()) it = kernels.emplace(key, Kernel(R, surf)).first;
        int na = a.F.size(), nb = b.F.size();
        CM r = CM::Zero(na * nb, na * nb);
        for (auto &e : it->second.A) {
            int k1 = e.first.first, k2 = e.first.second;
            if (k1 + k2 + 1 > (int)order) continue;
            for (int q1 = -k1; q1 <= k1; ++q1) {
                CM m = CM::Zero(nb, nb);
                for (int q2 = -k2; q2 <= k2; ++q2) m += e.second(k1 + q1, k2 + q2) * b.tensor(k2, q2, k2);
                r += kron(a.tensor(k1, q1, k1), m);
            }
        }
        return coulombs_constant * elementary_charge * elementary_charge * r;
    }
    CM const &H(PairParams const &p) {
        auto it = memo.find(p);
        if (it != memo.end()) return it->second;
        int na = a.F.size(), nb = b.F.size();
        CM h = kron(a.H(p.one), CM::Identity(nb, nb)) + kron(CM::Identity(na, na), b.H(p.one));
        if (p.len != NOWHERE) h += V(p.v(), p.surf, p.order);
        return memo[p] = h;
    }
};
#endif
