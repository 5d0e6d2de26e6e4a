// P01: perturbative coefficients: all ordered sets of up to three pair states out of pools, over angles and windows of the
// principal quantum number, against second-order sums over all states of the window with a dipole-dipole interaction
// expanded numerically; all sequences of calls on one object; and the same from the Hamiltonian of a pair system.
#include "PerturbativeInteraction.hpp"
#include "systwo.hpp"

struct One { // an atom: virtual states and their dipole elements with given ones
    std::string species;
    Angular A;
    Radial R;
    std::map<std::pair<std::string, int>, std::vector<StateOne>> made;
    MatrixElementCache &cache;
    std::map<StateOne, double> energies;
    One(std::string const &sp, int lmax, MatrixElementCache &c) : species(sp), A(spin(sp), lmax), R{sp, 0, {}}, cache(c) {}
    double energy(StateOne const &s) {
        auto it = energies.find(s);
        if (it != energies.end()) return it->second;
        return energies[s] = QuantumDefect(species, s.getN(), s.getL(), s.getJ()).energy;
    }
    int at(StateOne const &s) const {
        for (size_t c = 0; c < A.c.size(); ++c)
            if (A.c[c].l == s.getL() && A.c[c].j == s.getJ() && A.c[c].m == s.getM()) return c;
        fprintf(stderr, "state out of range\n"), exit(2);
    }
    struct El {
        StateOne v;
        int q;
        double d; // <v| r C^1_q |s> in um
    };
    std::map<std::pair<StateOne, int>, std::vector<El>> memo;
    std::vector<El> const &elements(StateOne const &s, int n) {
        auto key = std::make_pair(s, n);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        std::vector<El> r;
        int a = at(s);
        for (size_t c = 0; c < A.c.size(); ++c) {
            if (A.c[c].l >= n) continue;
            int q = std::lround(A.c[c].m - s.getM());
            if (std::abs(q) > 1) continue;
            double ang = A.C.at({1, q})[c][a];
            if (std::abs(ang) < 1e-14) continue;
            double x = ang * R(1, n, A.c[c], s.getN(), A.c[a]) * au2um;
            r.push_back({StateOne(species, n, A.c[c].l, A.c[c].j, A.c[c].m), q, x});
        }
        return memo[key] = r;
    }
};
struct Pool {
    std::string name;
    std::string a, b;
    std::vector<StateTwo> states;
};
static StateTwo pair(std::string a, std::string b, int n0, int l0, float j0, float m0, int n1, int l1, float j1, float m1) {
    return StateTwo({{a, b}}, {{n0, n1}}, {{l0, l1}}, {{j0, j1}}, {{m0, m1}});
}
using Row = std::map<StateTwo, std::complex<double>>; // <v|V|state>
struct Oracle {
    One &a, &b;
    CM K; // coefficients of the dipole-dipole interaction
    std::map<std::pair<StateTwo, std::array<int, 4>>, Row> memo;
    Oracle(One &a, One &b, double angle) : a(a), b(b), K(Kernel({{std::sin(angle), 0, std::cos(angle)}}, NOWHERE, 1).A.at({1, 1})) {}
    double energy(StateTwo const &s) { return a.energy(s.getFirstState()) + b.energy(s.getSecondState()); }
    Row const &row(StateTwo const &s, std::array<int, 4> w) {
        auto key = std::make_pair(s, w);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        Row r;
        for (int n0 = w[0]; n0 <= w[1]; ++n0)
            for (int n1 = w[2]; n1 <= w[3]; ++n1)
                for (auto &x : a.elements(s.getFirstState(), n0))
                    for (auto &y : b.elements(s.getSecondState(), n1)) {
                        auto c = coulombs_constant * elementary_charge * elementary_charge * K(1 + x.q, 1 + y.q) * x.d * y.d;
                        if (std::abs(c) > 0) r[StateTwo(x.v, y.v)] = c;
                    }
        return memo[key] = r;
    }
    static std::array<int, 4> window(StateTwo const &s, StateTwo const &t, int dn) {
        return {{std::min(s.getN(0), t.getN(0)) - dn, std::max(s.getN(0), t.getN(0)) + dn, std::min(s.getN(1), t.getN(1)) - dn, std::max(s.getN(1), t.getN(1)) + dn}};
    }
    // second-order coupling; size is the largest contribution, ok is false if a virtual state is degenerate
    double c6(StateTwo const &s, StateTwo const &t, std::set<StateTwo> const &without, int dn, double &size, bool &ok) {
        auto w = window(s, t, dn);
        auto &x = row(s, w), &y = row(t, w);
        double r = 0;
        for (auto &e : x) {
            auto it = y.find(e.first);
            if (it == y.end() || without.count(e.first)) continue;
            double p = energy(s) - energy(e.first), q = energy(t) - energy(e.first);
            auto v = std::conj(e.second) * it->second;
            if (std::abs(v) < 1e-26 * big(x) * big(y)) continue; // rounding errors of couplings that vanish
            if (std::abs(p) < 1e-3 || std::abs(q) < 1e-3) ok = false;
            double c = v.real() * .5 * (1 / p + 1 / q);
            size = std::max(size, std::abs(c));
            r += c;
        }
        return r;
    }
    static double big(Row const &r) {
        double m = 0;
        for (auto &e : r) m = std::max(m, std::abs(e.second));
        return m;
    }
    double c3(StateTwo const &s, StateTwo const &t) {
        auto &x = row(t, window(s, t, 0));
        auto it = x.find(s);
        return it == x.end() ? 0 : it->second.real();
    }
};
static bool near(double a, double b, double scale) { return std::abs(a - b) <= 2e-5 * scale + 1e-30; }

int main() {
    MatrixElementCache cache;
    std::vector<Pool> pools;
    {
        Pool p{"Rb Rb", "Rb", "Rb", {}};
        p.states = {pair("Rb", "Rb", 30, 0, .5, .5, 30, 0, .5, .5),    pair("Rb", "Rb", 30, 0, .5, .5, 30, 0, .5, -.5),  pair("Rb", "Rb", 30, 0, .5, -.5, 30, 0, .5, .5),
                    pair("Rb", "Rb", 30, 2, 1.5, .5, 30, 0, .5, .5),   pair("Rb", "Rb", 30, 0, .5, .5, 30, 2, 2.5, -1.5), pair("Rb", "Rb", 30, 2, 1.5, 1.5, 30, 2, 2.5, .5),
                    pair("Rb", "Rb", 30, 0, .5, .5, 30, 1, .5, .5),    pair("Rb", "Rb", 30, 1, .5, .5, 30, 0, .5, .5),   pair("Rb", "Rb", 31, 1, 1.5, -1.5, 30, 1, .5, .5),
                    pair("Rb", "Rb", 30, 1, 1.5, .5, 31, 3, 2.5, -.5), pair("Rb", "Rb", 31, 0, .5, .5, 30, 0, .5, -.5),  pair("Rb", "Rb", 30, 3, 3.5, 3.5, 30, 3, 2.5, -2.5)};
        pools.push_back(p);
    }
    {
        Pool p{"Rb Cs", "Rb", "Cs", {}};
        p.states = {pair("Rb", "Cs", 30, 0, .5, .5, 32, 0, .5, .5), pair("Rb", "Cs", 30, 0, .5, -.5, 32, 0, .5, .5), pair("Rb", "Cs", 30, 2, 2.5, .5, 32, 0, .5, -.5),
                    pair("Rb", "Cs", 30, 1, 1.5, .5, 32, 1, .5, .5), pair("Rb", "Cs", 30, 0, .5, -.5, 33, 2, 1.5, 1.5)};
        pools.push_back(p);
    }
    {
        Pool p{"Sr1 Sr1", "Sr1", "Sr1", {}};
        p.states = {pair("Sr1", "Sr1", 40, 0, 0, 0, 40, 0, 0, 0), pair("Sr1", "Sr1", 40, 1, 1, 0, 40, 1, 1, 1), pair("Sr1", "Sr1", 40, 2, 2, 1, 40, 0, 0, 0),
                    pair("Sr1", "Sr1", 40, 0, 0, 0, 40, 1, 1, -1), pair("Sr1", "Sr1", 40, 1, 1, -1, 40, 0, 0, 0)};
        pools.push_back(p);
    }
    {
        Pool p{"Sr3 Sr3", "Sr3", "Sr3", {}};
        p.states = {pair("Sr3", "Sr3", 40, 0, 1, 0, 40, 0, 1, 1), pair("Sr3", "Sr3", 40, 1, 1, 0, 40, 1, 1, 1),  pair("Sr3", "Sr3", 40, 1, 0, 0, 40, 1, 2, -1), pair("Sr3", "Sr3", 40, 2, 3, 1, 40, 0, 1, 0),
                    pair("Sr3", "Sr3", 40, 2, 2, 0, 40, 2, 2, 1), pair("Sr3", "Sr3", 40, 2, 1, 0, 40, 0, 1, 0), pair("Sr3", "Sr3", 40, 1, 2, 2, 40, 1, 1, -1)};
        pools.push_back(p);
    }
    {
        Pool p{"Sr1 Sr3", "Sr1", "Sr3", {}};
        p.states = {pair("Sr1", "Sr3", 40, 0, 0, 0, 40, 0, 1, 1), pair("Sr1", "Sr3", 40, 1, 1, 0, 40, 1, 1, 1), pair("Sr1", "Sr3", 40, 0, 0, 0, 40, 2, 2, -1), pair("Sr1", "Sr3", 40, 2, 2, 1, 40, 2, 2, -1)};
        pools.push_back(p);
    }
    {
        Pool p{"Li high l", "Li", "Li", {}};
        p.states = {pair("Li", "Li", 5, 4, 4.5, 4.5, 5, 4, 4.5, .5), pair("Li", "Li", 5, 4, 3.5, .5, 5, 2, 2.5, .5), pair("Li", "Li", 5, 3, 3.5, 1.5, 5, 3, 2.5, -.5)};
        pools.push_back(p);
    }
    {
        Pool p{"Li low n", "Li", "Li", {}};
        p.states = {pair("Li", "Li", 2, 1, 1.5, 1.5, 2, 1, .5, .5), pair("Li", "Li", 3, 2, 2.5, .5, 2, 1, 1.5, -.5), pair("Li", "Li", 3, 2, 1.5, .5, 3, 0, .5, -.5), pair("Li", "Li", 2, 0, .5, .5, 2, 0, .5, .5)};
        pools.push_back(p);
    }
    std::vector<double> angles{0, .3, M_PI / 2, -.4, M_PI};
    if (mc::thorough()) angles = {0, 1e-3, .3, .9553166181245093, 1.1, M_PI / 2, 2, -.4, -1.2, M_PI, 2 * M_PI, 7};
    std::map<std::string, std::unique_ptr<One>> ones;
    for (auto &p : pools)
        for (auto &sp : {p.a, p.b})
            if (!ones.count(sp)) ones[sp].reset(new One(sp, p.name == "Li high l" ? 5 : 4, cache));
    int const np = pools.size(), na = angles.size(), nd = 5;
    mc::parallel(np * na * nd, [&](int job) {
        auto &p = pools[job / na / nd];
        double angle = angles[job / nd % na];
        int dn = job % nd;
        if (dn > 2 && p.name.compare(0, 2, "Li") != 0) return;
        MatrixElementCache c;
        PerturbativeInteraction with_angle(angle, c), no_angle(c);
        Oracle o(*ones[p.a], *ones[p.b], angle);
        std::string base = mc::cat(p.name, " angle ", angle, " deltaN ", dn);
        int n = p.states.size();
        std::vector<PerturbativeInteraction *> calcs{&with_angle};
        if (angle == 0) calcs.push_back(&no_angle);
        for (auto *calc : calcs) {
            // one state
            for (int i = 0; i < n; ++i) {
                if (!mc::enter(mc::cat(base, " state ", i))) continue;
                auto &s = p.states[i];
                double size = 0;
                bool ok = true;
                double want = o.c6(s, s, {}, dn, size, ok);
                mc::R().states++;
                if (!ok) {
                    mc::count("resonant states and sets left out");
                    continue;
                }
                double got = calc->getC6(s, dn);
                mc::R().evaluations++;
                mc::outcome(mc::cat(base, i));
                if (!near(got, want, size)) mc::violation("coefficient of one state", mc::cat(s, ": ", got, ", expected ", want));
                auto m = calc->getC6(std::vector<StateTwo>{s}, dn);
                if (m.rows() != 1 || m.cols() != 1 || !near(m(0, 0), want, size)) mc::violation("coefficient of a set with one state", mc::cat(s, ": ", m, ", expected ", want));
            }
            // ordered sets
            std::vector<int> set;
            std::function<void()> sets = [&] {
                if (set.size() >= 2) {
                    std::string label = base + " set";
                    for (int i : set) label += mc::cat(" ", i);
                    if (mc::enter(label)) {
                        std::vector<StateTwo> st;
                        for (int i : set) st.push_back(p.states[i]);
                        std::set<StateTwo> without(st.begin(), st.end());
                        auto &r = mc::R();
                        r.states++;
                        int k = st.size();
                        Eigen::MatrixXd want(k, k), size = Eigen::MatrixXd::Zero(k, k);
                        bool ok = true;
                        for (int i = 0; i < k; ++i)
                            for (int j = 0; j < k; ++j) want(i, j) = o.c6(st[i], st[j], without, dn, size(i, j), ok);
                        if (ok) {
                            Eigen::MatrixXd got = calc->getC6(st, dn);
                            r.evaluations++, r.transitions++;
                            mc::outcome(label);
                            if (got.rows() != k || got.cols() != k) mc::violation("size of the matrix", "");
                            else
                                for (int i = 0; i < k; ++i)
                                    for (int j = 0; j < k; ++j)
                                        if (!near(got(i, j), want(i, j), std::max(size(i, j), 1e-6 * size.maxCoeff())))
                                            mc::violation("second-order matrix", mc::cat(st[i], " and ", st[j], " (set of ", k, "): ", got(i, j), ", expected ", want(i, j)));
                        } else mc::count("resonant states and sets left out");
                        if (dn == 0) {
                            Eigen::MatrixXd c3 = calc->getC3(st), e = calc->getEnergy(st);
                            r.evaluations += 2;
                            double scale = 0;
                            for (int i = 0; i < k; ++i) scale = std::max(scale, Oracle::big(o.row(st[i], Oracle::window(st[i], st[i], 1))));
                            for (int i = 0; i < k; ++i)
                                for (int j = 0; j < k; ++j) {
                                    double w = i == j ? 0 : o.c3(st[i], st[j]);
                                    if (!near(c3(i, j), w, std::max(std::abs(w), 1e-6 * scale))) mc::violation("first-order matrix", mc::cat(st[i], " and ", st[j], ": ", c3(i, j), ", expected ", w));
                                    double f = i == j ? o.energy(st[i]) : 0;
                                    if (std::abs(e(i, j) - f) > 1e-9 * std::abs(f)) mc::violation("energy matrix", mc::cat(st[i], " and ", st[j], ": ", e(i, j), ", expected ", f));
                                }
                        }
                    }
                }
                if ((int)set.size() == ((dn == 1 && angle != M_PI / 2 && angle != -.4) || mc::thorough() ? 3 : 2)) return;
                for (int i = 0; i < n; ++i) {
                    if (std::find(set.begin(), set.end(), i) != set.end()) continue;
                    set.push_back(i);
                    sets();
                    set.pop_back();
                }
            };
            sets();
        }
    });
    // all sequences of calls on one object, compared bit for bit with an object of its own
    mc::parallel(np * na, [&](int job) {
        auto &p = pools[job / na];
        double angle = angles[job % na];
        std::vector<std::function<Eigen::MatrixXd(PerturbativeInteraction &)>> calls;
        for (int i : {0, 1})
            for (int dn : {0, 1}) calls.push_back([&, i, dn](PerturbativeInteraction &c) { return Eigen::MatrixXd::Constant(1, 1, c.getC6(p.states[i], dn)); });
        std::vector<StateTwo> x{p.states[0], p.states[1]}, y{p.states[2], p.states[0]};
        for (auto &s : {x, y}) {
            calls.push_back([s](PerturbativeInteraction &c) { return Eigen::MatrixXd(c.getC6(s, 1)); });
            calls.push_back([s](PerturbativeInteraction &c) { return Eigen::MatrixXd(c.getC3(s)); });
            calls.push_back([s](PerturbativeInteraction &c) { return Eigen::MatrixXd(c.getEnergy(s)); });
        }
        std::vector<Eigen::MatrixXd> alone;
        for (auto &f : calls) {
            MatrixElementCache c;
            PerturbativeInteraction pi(angle, c);
            alone.push_back(f(pi));
        }
        int n = calls.size(), depth = mc::tier(2, 3);
        std::vector<int> h;
        std::function<void()> go = [&] {
            for (int i = 0; i < n; ++i) {
                h.push_back(i);
                if ((int)h.size() < depth) go();
                else {
                    std::string label = mc::cat(p.name, " angle ", angle, " calls");
                    for (int k : h) label += mc::cat(" ", k);
                    if (mc::enter(label)) {
                        MatrixElementCache c;
                        PerturbativeInteraction pi(angle, c);
                        mc::R().traces++, mc::R().states += depth, mc::R().transitions += depth;
                        for (int k : h) {
                            auto g = calls[k](pi);
                            mc::R().evaluations++;
                            bool same = g.rows() == alone[k].rows() && g.cols() == alone[k].cols();
                            for (int a = 0; same && a < g.rows(); ++a)
                                for (int b = 0; b < g.cols(); ++b) same = same && (g(a, b) == alone[k](a, b) || (std::isnan(g(a, b)) && std::isnan(alone[k](a, b))));
                            if (!same) mc::violation("depends on earlier calls", mc::cat("call ", k));
                        }
                    }
                }
                h.pop_back();
            }
        };
        if (job % na < mc::tier(2, 3)) go();
    });
    // the limit of large distances of a pair system in the same basis
    struct Sys {
        std::string sp;
        int n, lmax;
        std::vector<StateTwo> set;
    };
    std::vector<Sys> systems{
        {"Rb", 30, 1, {pair("Rb", "Rb", 30, 0, .5, .5, 30, 0, .5, .5), pair("Rb", "Rb", 30, 0, .5, .5, 30, 0, .5, -.5), pair("Rb", "Rb", 30, 0, .5, -.5, 30, 0, .5, .5), pair("Rb", "Rb", 30, 0, .5, -.5, 30, 0, .5, -.5)}},
        {"Rb", 30, 1, {pair("Rb", "Rb", 30, 0, .5, .5, 30, 0, .5, -.5)}},
        {"Sr3", 40, 1, {pair("Sr3", "Sr3", 40, 0, 1, 0, 40, 0, 1, 1), pair("Sr3", "Sr3", 40, 0, 1, 1, 40, 0, 1, 0)}},
        {"Sr1", 40, 2, {pair("Sr1", "Sr1", 40, 0, 0, 0, 40, 0, 0, 0), pair("Sr1", "Sr1", 40, 1, 1, 0, 40, 1, 1, 1), pair("Sr1", "Sr1", 40, 1, 1, 1, 40, 1, 1, 0)}},
        {"Rb", 30, 2, {pair("Rb", "Rb", 30, 1, .5, .5, 30, 1, 1.5, .5), pair("Rb", "Rb", 30, 1, 1.5, .5, 30, 1, .5, .5)}},
    };
    mc::parallel(systems.size() * na, [&](int job) {
        auto &s = systems[job / na];
        double angle = angles[job % na];
        if (!mc::enter(mc::cat("pair system ", job / na, " angle ", angle))) return;
        mc::R().states++;
        MatrixElementCache c;
        SystemOne<double> one(s.sp, c);
        one.restrictN(s.n, s.n), one.restrictL(0, s.lmax);
        SystemTwo<double> two(one, one, c);
        double const R = 20;
        two.setDistance(R), two.setAngle(angle);
        Eigen::MatrixXd H = Eigen::MatrixXd(two.getHamiltonian());
        auto st = two.getStates();
        CM V = Eigen::MatrixXd(two.getBasisvectors()).cast<std::complex<double>>();
        CM h = V * H.cast<std::complex<double>>() * V.adjoint();
        std::map<StateTwo, int> idx;
        for (size_t i = 0; i < st.size(); ++i) idx[st[i]] = i;
        std::set<int> in;
        for (auto &x : s.set) in.insert(idx.at(x));
        PerturbativeInteraction calc(angle, c);
        Eigen::MatrixXd c6 = calc.getC6(s.set, 0), c3 = calc.getC3(s.set), e = calc.getEnergy(s.set);
        mc::R().evaluations++, mc::R().traces++;
        int k = s.set.size();
        double s6 = 0, s3 = 0;
        Eigen::MatrixXd w6(k, k), w3(k, k);
        for (int a = 0; a < k; ++a)
            for (int b = 0; b < k; ++b) {
                int i = idx.at(s.set[a]), j = idx.at(s.set[b]);
                double r = 0;
                for (int v = 0; v < (int)st.size(); ++v)
                    if (!in.count(v)) {
                        double t = (h(i, v) * h(v, j)).real();
                        if (std::abs(t) < 1e-20) continue;
                        t *= .5 * (1 / (h(i, i) - h(v, v)).real() + 1 / (h(j, j) - h(v, v)).real());
                        r += t, s6 = std::max(s6, std::abs(t));
                    }
                w6(a, b) = r, w3(a, b) = a == b ? 0 : h(i, j).real();
                s3 = std::max(s3, std::abs(w3(a, b)));
            }
        for (int a = 0; a < k; ++a)
            for (int b = 0; b < k; ++b) {
                if (std::abs(c6(a, b) / std::pow(R, 6) - w6(a, b)) > 1e-4 * s6) mc::violation("not the limit of the pair system, second order", mc::cat(s.set[a], " and ", s.set[b], ": ", c6(a, b), ", expected ", w6(a, b) * std::pow(R, 6)));
                if (std::abs(c3(a, b) / std::pow(R, 3) - w3(a, b)) > 1e-6 * s3 + 1e-18) mc::violation("not the limit of the pair system, first order", mc::cat(s.set[a], " and ", s.set[b], ": ", c3(a, b), ", expected ", w3(a, b) * std::pow(R, 3)));
                if (a == b && std::abs(e(a, a) - H.trace() * 0 - h(idx.at(s.set[a]), idx.at(s.set[a])).real()) > 1e-7) mc::violation("not the limit of the pair system, energy", "");
            }
    });
    mc::sample("Rb Rb angle 0.3 deltaN 1 set 0 3 6");
    mc::sample("Sr3 Sr3 angle 0 deltaN 2 state 5");
    return mc::finish();
}
