// Reference for one-atom systems: the Hamiltonian on a list of states as H0 - e E.r - mu.B + e^2/8m [B^2 r^2 - (B.r)^2]
// + ion terms, from spherical harmonics and ladder operators (angular.hpp), and helpers to look at a real system.
#ifndef VERIF_SYSONE_HPP
#define VERIF_SYSONE_HPP
#include "angular.hpp"
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "SystemOne.hpp"
#include <Eigen/Dense>

using CM = Eigen::MatrixXcd;
using C3 = std::array<double, 3>;
inline double norm(C3 const &v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
inline std::complex<double> unitC(int k, int q, C3 const &v) { // C^k_q of the direction of v
    double r = norm(v), phi = std::atan2(v[1], v[0]);
    double c = ylm(k, q, v[2] / r) * std::sqrt(4 * M_PI / (2 * k + 1));
    return std::polar(1., q * phi) * c;
}
struct Params {
    C3 E{{0, 0, 0}}, B{{0, 0, 0}};
    bool dia = true;
    int charge = 0;
    unsigned order = 0;
    double dist = std::numeric_limits<double>::max();
    bool operator<(Params const &o) const {
        return std::tie(E, B, dia, charge, order, dist) < std::tie(o.E, o.B, o.dia, o.charge, o.order, o.dist);
    }
};
struct OneRef {
    std::string species;
    std::vector<StateOne> F;
    std::vector<std::pair<int, int>> at; // n, index into A.c
    std::shared_ptr<Angular> A;
    std::map<int, CM> radial; // power -> matrix in um^power
    Eigen::VectorXd e0;
    std::map<Params, CM> memo;
    std::map<StateOne, int> index;
    OneRef(std::string const &sp, std::vector<StateOne> const &states, MatrixElementCache &cache, int lmax) : species(sp), F(states) {
        A = std::make_shared<Angular>(spin(sp), lmax);
        Radial R{sp, 0, {}};
        e0.resize(F.size());
        for (size_t i = 0; i < F.size(); ++i) {
            index[F[i]] = i;
            e0[i] = F[i].getEnergy(cache);
            int k = -1;
            for (size_t c = 0; c < A->c.size(); ++c)
                if (A->c[c].l == F[i].getL() && A->c[c].j == F[i].getJ() && A->c[c].m == F[i].getM()) k = c;
            if (k < 0) fprintf(stderr, "oracle: state out of range\n"), exit(2);
            at.push_back({F[i].getN(), k});
        }
        for (int p = 0; p <= 3; ++p) {
            radial[p] = CM::Zero(F.size(), F.size());
            for (size_t i = 0; i < F.size(); ++i)
                for (size_t k = 0; k < F.size(); ++k)
                    radial[p](i, k) = R(p, at[i].first, A->c[at[i].second], at[k].first, A->c[at[k].second]) * std::pow(au2um, p);
        }
    }
    CM tensor(int k, int q, int power) const {
        CM m = radial.at(power);
        for (int i = 0; i < m.rows(); ++i)
            for (int j = 0; j < m.cols(); ++j) m(i, j) *= (double)A->C.at({k, q})[at[i].second][at[j].second];
        return m;
    }
    CM const &H(Params const &p) {
        auto it = memo.find(p);
        if (it != memo.end()) return it->second;
        CM h = CM::Zero(F.size(), F.size());
        h.diagonal() = e0.cast<std::complex<double>>();
        double const e = elementary_charge;
        if (norm(p.E) > 0)
            for (int q = -1; q <= 1; ++q) h -= e * norm(p.E) * std::conj(unitC(1, q, p.E)) * tensor(1, q, 1);
        if (norm(p.B) > 0) {
            for (int q = -1; q <= 1; ++q) {
                CM m = radial[0];
                for (int i = 0; i < m.rows(); ++i)
                    for (int j = 0; j < m.cols(); ++j)
                        m(i, j) *= double(gL * A->L[q + 1][at[i].second][at[j].second] + gS * A->S[q + 1][at[i].second][at[j].second]);
                h += bohr_magneton * norm(p.B) * std::conj(unitC(1, q, p.B)) * m;
            }
            if (p.dia) {
                CM m = 2. / 3 * tensor(0, 0, 2);
                for (int q = -2; q <= 2; ++q) m -= 2. / 3 * std::conj(unitC(2, q, p.B)) * tensor(2, q, 2);
                h += e * e * norm(p.B) * norm(p.B) / (8 * electron_rest_mass) * m;
            }
        }
        if (p.charge != 0 && p.dist != std::numeric_limits<double>::max())
            for (unsigned k = 1; k <= p.order; ++k)
                h -= coulombs_constant * e * e * p.charge / std::pow(p.dist, k + 1) * tensor(k, 0, k);
        return memo[p] = h;
    }
};
template <class Scalar>
struct Seen { // what a system shows
    std::vector<int> rows; // states as indices into the reference list
    CM B;                  // basis vectors over the whole reference list
    CM H;
    std::string bad;
};
template <class Scalar, class Sys, class Ref>
Seen<Scalar> look(Sys &s, Ref const &ref) {
    Seen<Scalar> r;
    r.H = CM(Eigen::Matrix<Scalar, -1, -1>(s.getHamiltonian()).template cast<std::complex<double>>());
    CM b(Eigen::Matrix<Scalar, -1, -1>(s.getBasisvectors()).template cast<std::complex<double>>());
    auto st = s.getStates();
    r.B = CM::Zero(ref.F.size(), b.cols());
    if ((int)st.size() != b.rows() || r.H.rows() != b.cols() || r.H.cols() != b.cols()) {
        r.bad = mc::cat("sizes do not fit: ", st.size(), " states, ", b.rows(), "x", b.cols(), " basis vectors, ", r.H.rows(), "x", r.H.cols(), " Hamiltonian");
        return r;
    }
    if (s.getNumStates() != st.size() || (int)s.getNumBasisvectors() != b.cols()) r.bad = "reported numbers of states or basis vectors are wrong";
    std::set<int> dup;
    for (size_t i = 0; i < st.size(); ++i) {
        auto it = ref.index.find(st[i]);
        if (it == ref.index.end()) {
            r.bad = "unexpected state " + st[i].str();
            return r;
        }
        if (!dup.insert(it->second).second) r.bad = "state listed twice: " + st[i].str();
        r.rows.push_back(it->second);
        r.B.row(it->second) = b.row(i);
    }
    return r;
}
inline double spread(CM const &h) { // size of the interaction part: largest off-diagonal entry
    double m = 0;
    for (int i = 0; i < h.rows(); ++i)
        for (int k = 0; k < h.cols(); ++k)
            if (i != k) m = std::max(m, std::abs(h(i, k)));
    return m;
}
inline Eigen::VectorXd spectrum(CM const &h) { return Eigen::SelfAdjointEigenSolver<CM>(h, Eigen::EigenvaluesOnly).eigenvalues(); }
inline bool refused(std::function<void()> const &f, std::string *what = nullptr) {
    try {
        f();
        return false;
    } catch (std::exception &e) {
        if (what) *what = e.what();
        return true;
    }
}
#endif
