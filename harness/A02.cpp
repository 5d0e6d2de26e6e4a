// A02: all pairs of states of small sets, all powers and ranks, against matrix elements built from spherical harmonics
// (Gauss-Legendre quadrature, angular.hpp) and ladder operators in the uncoupled basis |l ml>|s ms>.
#include "Basisnames.hpp"
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "MatrixElements.hpp"
#include "QuantumDefect.hpp"
#include "State.hpp"
#include "StateOld.hpp"
#include "Wavefunction.hpp"
#include "angular.hpp"
#include "mc.hpp"
#include <map>

static std::string name(int n, LJM a) { return mc::cat(n, ",", a.l, ",", a.j, ",", a.m); }
static void expect(const char *what, std::string const &where, double got, double want, double scale) {
    mc::R().evaluations++;
    if (!(std::abs(got - want) <= 3e-7 * std::abs(scale)))
        mc::violation(mc::cat(what, " is wrong"), mc::cat(where, ": ", got, " instead of ", want));
}

int main() {
    const char *tmp = getenv("MC_TMP");
    std::string dir = tmp ? tmp : "/tmp";
    std::vector<std::string> species{"Rb", "Sr1", "Sr3", "Li", "Cs"};
    if (mc::thorough()) species.insert(species.end(), {"Na", "K"});
    int lmax = mc::tier(3, 4), kmax = mc::tier(4, 5);
    std::vector<std::pair<int, int>> ns{{20, 20}, {20, 23}, {23, 20}};
    if (mc::thorough()) ns.insert(ns.end(), {{9, 60}, {60, 9}});
    std::map<double, std::shared_ptr<Angular>> ang;
    for (double s : {0., .5, 1.}) {
        auto &A = *(ang[s] = std::make_shared<Angular>(s, lmax));
        for (size_t i = 0; i < A.v.size(); ++i) // self-check of the oracle
            for (size_t k = 0; k < A.v.size(); ++k) {
                long double o = 0;
                for (size_t t = 0; t < A.v.size(); ++t) o += A.v[i][t] * A.v[k][t];
                if (fabsl(o - (i == k)) > 1e-15L) fprintf(stderr, "oracle: coupled states are not orthonormal\n"), exit(2);
                if (fabsl(A.C[{0, 0}][i][k] - (i == k)) > 1e-15L) fprintf(stderr, "oracle: unit operator\n"), exit(2);
                bool same = A.c[i].l == A.c[k].l && A.c[i].j == A.c[k].j && A.c[i].m == A.c[k].m;
                if (fabsl(A.L[1][i][k] + A.S[1][i][k] - (same ? A.c[i].m : 0)) > 1e-15L) fprintf(stderr, "oracle: Jz\n"), exit(2);
            }
    }
    // 1. all pairs of states
    mc::parallel(species.size() * 2 * ns.size(), [&](int job) {
        auto sp = species[job % species.size()];
        int m = job / species.size() % 2;
        auto N = ns[job / species.size() / 2];
        double s = spin(sp);
        auto &A = *ang[s];
        Radial R{sp, m, {}};
        MatrixElementCache cache;
        cache.setMethod(m ? WHITTAKER : NUMEROV);
        auto oldfile = mc::cat(dir, "/A02-", getpid(), ".db");
        Configuration conf;
        conf["missingCalc"] << (m ? "false" : "true");
        conf["missingWhittaker"] << (m ? "true" : "false");
        std::vector<StateOneOld> basis;
        for (int n : {N.first, N.second})
            for (auto &c : A.c) {
                basis.emplace_back(n, c.l, c.j, c.m);
                basis.back().species = sp;
            }
        std::unique_ptr<MatrixElements> old(new MatrixElements(conf, sp, oldfile));
        for (int k = 1; k <= kmax; ++k) old->precalculateMultipole(basis, k);
        old->precalculateMagneticMomentum(basis, std::numeric_limits<int>::max());
        for (int k : {0, 2}) old->precalculateDiamagnetism(basis, k, std::numeric_limits<int>::max());
        unlink(oldfile.c_str());
        for (size_t a = 0; a < A.c.size(); ++a) {
            if (!mc::enter(mc::cat("element ", m ? "whittaker " : "numerov ", sp, " ", name(N.first, A.c[a]), " n'=", N.second))) continue;
            StateOne row(sp, N.first, A.c[a].l, A.c[a].j, A.c[a].m);
            StateOneOld orow(N.first, A.c[a].l, A.c[a].j, A.c[a].m);
            for (size_t b = 0; b < A.c.size(); ++b) {
                mc::R().states++;
                StateOne col(sp, N.second, A.c[b].l, A.c[b].j, A.c[b].m);
                StateOneOld ocol(N.second, A.c[b].l, A.c[b].j, A.c[b].m);
                auto where = name(N.second, A.c[b]);
                for (int kr = 0; kr <= kmax; ++kr) {
                    double r = R(kr, N.first, A.c[a], N.second, A.c[b]) * std::pow(au2um, kr);
                    expect("radial element", where, cache.getRadial(row, col, kr), r, r);
                    for (int ka = 0; ka <= kmax; ++ka) {
                        double want = A.element(ka, a, b) * r * elementary_charge;
                        expect("multipole element", mc::cat(where, " ", kr, " ", ka), cache.getElectricMultipole(row, col, kr, ka), want, r * elementary_charge);
                        if (ka == kr) {
                            expect("multipole element", mc::cat(where, " ", kr), cache.getElectricMultipole(row, col, kr), want, r * elementary_charge);
                            if (kr && selectionRulesMultipole(orow, ocol, kr))
                                expect("old multipole element", mc::cat(where, " ", kr), old->getMultipole(orow, ocol, kr),
                                       want / elementary_charge / au2um * au2GHz / au2Vcm, r / au2um * au2GHz / au2Vcm);
                        }
                        if (ka == 1 && kr == 1) {
                            expect("dipole element", where, cache.getElectricDipole(row, col), want, r * elementary_charge);
                            if (selectionRulesMultipole(orow, ocol, kr))
                                expect("old dipole element", where, old->getElectricMomentum(orow, ocol), want / elementary_charge / au2um * au2GHz / au2Vcm,
                                       r / au2um * au2GHz / au2Vcm);
                        }
                        if (kr == 2 && ka <= 2) {
                            expect("diamagnetic element", mc::cat(where, " ", ka), cache.getDiamagnetism(row, col, ka), 2. / 3 * elementary_charge * want,
                                   elementary_charge * elementary_charge * r);
                            if (ka != 1 && selectionRulesMultipole(orow, ocol, ka)) {
                                double f = inverse_electron_rest_mass / 12 / au2um * au2GHz / au2Vcm;
                                expect("old diamagnetic element", mc::cat(where, " ", ka), old->getDiamagnetism(orow, ocol, ka), f * want,
                                       f * r * elementary_charge);
                            }
                        }
                    }
                }
                double r0 = R(0, N.first, A.c[a], N.second, A.c[b]), mag = A.magnetic(a, b) * r0 * bohr_magneton;
                expect("magnetic element", where, cache.getMagneticDipole(row, col), -mag, bohr_magneton);
                if (selectionRulesMomentum(orow, ocol)) expect("old magnetic element", where, old->getMagneticMomentum(orow, ocol), mag, bohr_magneton);
            }
            mc::outcome(mc::cat(sp, A.c[a].l, A.c[a].j, A.c[a].m));
        }
    });
    // 2. the older class filled from a basis of the older calculation code (used for alkali atoms)
    for (auto sp : {"Rb", "Li"}) {
        if (!mc::enter(mc::cat("older basis ", sp))) continue;
        Configuration conf;
        for (auto *k : {"deltaLSingle", "deltaJSingle", "deltaMSingle"}) conf[k] << -1;
        conf["deltaNSingle"] << 1;
        conf["deltaLSingle"] << 2;
        conf["species1"] << sp;
        conf["n1"] << 9, conf["l1"] << 1, conf["j1"] << .5, conf["m1"] << .5;
        conf["missingCalc"] << "true", conf["missingWhittaker"] << "false";
        auto oldfile = mc::cat(dir, "/A02b-", getpid(), ".db");
        auto basis = std::make_shared<BasisnamesOne>(BasisnamesOne::fromFirst(conf));
        for (int round = 0; round < 2; ++round) { // computed, then read back from the file
            MatrixElements old(conf, sp, oldfile);
            for (int k = 1; k <= 3; ++k) old.precalculateMultipole(basis, k);
            old.precalculateMagneticMomentum(basis, std::numeric_limits<int>::max());
            for (int k : {0, 2}) old.precalculateDiamagnetism(basis, k, std::numeric_limits<int>::max());
            auto &A = *ang[.5];
            Radial R{sp, 0, {}};
            auto find = [&](StateOneOld const &x) {
                for (size_t i = 0; i < A.c.size(); ++i)
                    if (A.c[i].l == x.l && A.c[i].j == x.j && A.c[i].m == x.m) return (int)i;
                return -1;
            };
            for (auto const &x : *basis)
                for (auto const &y : *basis) {
                    int a = find(x), b = find(y);
                    if (a < 0 || b < 0) {
                        mc::violation("basis state out of range", mc::cat(x.l, " ", x.j, " ", x.m));
                        continue;
                    }
                    mc::R().states++;
                    auto where = mc::cat(name(x.n, A.c[a]), " ", name(y.n, A.c[b]), " round ", round);
                    for (int k = 1; k <= 3; ++k) {
                        if (!selectionRulesMultipole(x, y, k)) continue;
                        double r = R(k, x.n, A.c[a], y.n, A.c[b]) * std::pow(au2um, k - 1) * au2GHz / au2Vcm;
                        expect("old multipole element", mc::cat(where, " ", k), old.getMultipole(x, y, k), r * A.element(k, a, b), r);
                    }
                    for (int k : {0, 2}) {
                        if (!selectionRulesMultipole(x, y, k)) continue;
                        double r = R(2, x.n, A.c[a], y.n, A.c[b]) * au2um * au2GHz / au2Vcm * elementary_charge * inverse_electron_rest_mass / 12;
                        expect("old diamagnetic element", mc::cat(where, " ", k), old.getDiamagnetism(x, y, k), r * A.element(k, a, b), r);
                    }
                    if (selectionRulesMomentum(x, y))
                        expect("old magnetic element", where, old.getMagneticMomentum(x, y),
                               R(0, x.n, A.c[a], y.n, A.c[b]) * bohr_magneton * A.magnetic(a, b), bohr_magneton);
                }
        }
        unlink(oldfile.c_str());
        mc::outcome(mc::cat("older ", sp));
    }
    // 3. selection rules
    for (double s : {0., .5, 1.}) {
        auto &A = *ang[s];
        auto sp = s == 0 ? "Sr1" : s == 1 ? "Sr3" : "Rb";
        for (size_t a = 0; a < A.c.size(); ++a) {
            if (!mc::enter(mc::cat("rules ", sp, " ", name(20, A.c[a])))) continue;
            for (size_t b = 0; b < A.c.size(); ++b) {
                mc::R().states++;
                StateOne x(sp, 20, A.c[a].l, A.c[a].j, A.c[a].m), y(sp, 21, A.c[b].l, A.c[b].j, A.c[b].m);
                StateOneOld ox(20, A.c[a].l, A.c[a].j, A.c[a].m), oy(21, A.c[b].l, A.c[b].j, A.c[b].m);
                int dm = std::lround(A.c[a].m - A.c[b].m);
                auto judge = [&](const char *kind, int k, std::function<bool(int)> comp, bool any, double el) {
                    bool u = false;
                    for (int q = -k - 2; q <= k + 2; ++q) {
                        bool c = comp(q);
                        mc::R().evaluations++;
                        u |= c;
                        if (c && (q != dm || std::abs(q) > k))
                            mc::violation("rule allows a component that changes m by another amount", mc::cat(kind, k, " q=", q, " ", name(21, A.c[b])));
                        if (!c && q == dm && std::abs(el) > 1e-12)
                            mc::violation("rule forbids a component that couples", mc::cat(kind, k, " q=", q, " ", name(21, A.c[b]), " ", el));
                    }
                    if (u != any) mc::violation("component-free rule is not the union", mc::cat(kind, k, " ", name(21, A.c[b])));
                };
                for (int k = 0; k <= kmax; ++k) {
                    judge("multipole", k, [&](int q) { return selectionRulesMultipoleNew(x, y, k, q); }, selectionRulesMultipoleNew(x, y, k), A.element(k, a, b));
                    judge("old multipole", k, [&](int q) { return selectionRulesMultipole(ox, oy, k, q); }, selectionRulesMultipole(ox, oy, k), A.element(k, a, b));
                }
                judge("momentum", 1, [&](int q) { return selectionRulesMomentumNew(x, y, q); }, selectionRulesMomentumNew(x, y), A.magnetic(a, b));
                judge("old momentum", 1, [&](int q) { return selectionRulesMomentum(ox, oy, q); }, selectionRulesMomentum(ox, oy), A.magnetic(a, b));
            }
            mc::outcome(mc::cat("rules ", sp, A.c[a].l, A.c[a].j, A.c[a].m));
        }
    }
    // 4. different species have no common matrix elements
    if (mc::enter("different species")) {
        MatrixElementCache cache;
        StateOne x("Rb", 20, 0, .5, .5), y("Cs", 20, 1, .5, .5);
        auto throws = [&](std::function<void()> f) {
            try {
                f();
            } catch (std::exception &) {
                return;
            }
            mc::violation("matrix element between different species");
        };
        throws([&] { cache.getElectricDipole(x, y); });
        throws([&] { cache.getMagneticDipole(x, y); });
        throws([&] { cache.getRadial(x, y, 1); });
        throws([&] { cache.getElectricMultipole(y, x, 2, 0); });
        mc::outcome("species");
    }
    return mc::finish();
}
