// Y07: effective Hamiltonians (Schrieffer-Wolff transformation), forgetting the mixing of states and diagonalising with a
// threshold, after every history of a perturbed and an unperturbed system and for every choice of vectors, against the
// direct rotation from the polar decomposition of the projected vectors.
#include "systwo.hpp"
#include <numeric>
using cd = std::complex<double>;

template <class Sys, class Ref, class Par>
struct Effective {
    using S = typename Sys::Scalar;
    struct Setting {
        std::string name;
        std::function<void(Sys &)> call;
        std::function<void(Par &)> model;
    };
    struct Pre { // what happened to the perturbed system before
        std::string name;
        std::function<void(Sys &, Setting const &)> f;
    };
    Ref &ref;
    Par root;
    std::function<Sys()> make, part; // part: the same with fewer states
    std::vector<Setting> settings, more; // more: only for what is done to a single system
    std::vector<std::vector<size_t>> subsets;
    int few; // every few-th subset after the longer histories
    long skipped = 0, transformed = 0;
    double scale(CM const &O) { return std::max(1e-3, spread(O)) + 1e-9 * O.cwiseAbs().maxCoeff(); }
    bool near(CM const &a, CM const &b, double tol) { return a.rows() == b.rows() && a.cols() == b.cols() && (!a.size() || (a - b).cwiseAbs().maxCoeff() <= tol); }
    std::vector<Pre> histories() {
        return {{"set", [](Sys &s, Setting const &x) { x.call(s); }},
                {"set, diagonalize", [](Sys &s, Setting const &x) { x.call(s), s.diagonalize(); }},
                {"built, set", [](Sys &s, Setting const &x) { s.buildHamiltonian(), x.call(s); }},
                {"set, canonicalize", [](Sys &s, Setting const &x) { x.call(s), s.canonicalize(); }},
                {"another setting, diagonalize, set", [this](Sys &s, Setting const &x) { settings[1].call(s), s.diagonalize(), x.call(s); }},
                {"set, diagonalize, canonicalize, copy", [](Sys &s, Setting const &x) {
                     x.call(s), s.diagonalize(), s.canonicalize();
                     Sys c(s);
                     s.diagonalize();
                     s = c;
                 }}};
    }
    CM operator_of(Seen<S> const &v) { return v.B * v.H * v.B.adjoint(); }
    // what the transformation has to give: vectors and Hamiltonian; false if it is not determined
    bool expect(Seen<S> const &V, CM const &B0, CM &W, CM &H) {
        int k = B0.cols();
        CM ov = V.B.adjoint() * B0;
        Eigen::VectorXd o = ov.cwiseAbs2().rowwise().sum();
        std::vector<int> at(o.size());
        std::iota(at.begin(), at.end(), 0);
        std::sort(at.begin(), at.end(), [&](int a, int b) { return o[a] > o[b]; });
        if (k < o.size() && o[at[k - 1]] - o[at[k]] < 1e-6) return false;
        CM P = CM::Zero(V.B.rows(), V.B.rows());
        for (int i = 0; i < k; ++i) P += V.B.col(at[i]) * V.B.col(at[i]).adjoint();
        CM X = P * B0;
        Eigen::SelfAdjointEigenSolver<CM> e(X.adjoint() * X);
        if (e.eigenvalues()[0] < 0.01) return false; // (almost) orthogonal to the eigenvectors
        W = X * e.eigenvectors() * e.eigenvalues().cwiseSqrt().cwiseInverse().cast<cd>().asDiagonal() * e.eigenvectors().adjoint();
        H = W.adjoint() * operator_of(V) * W;
        return true;
    }
    void compare(Sys &s, CM const &W, CM const &H, double sc, std::string const &when) {
        auto v = look<S>(s, ref);
        mc::R().evaluations++;
        if (!v.bad.empty()) return mc::violation("system is inconsistent", when + v.bad);
        if (!near(v.H, v.H.adjoint(), 1e-8 * sc)) mc::violation("effective Hamiltonian is not Hermitian", when);
        CM G = v.B.adjoint() * v.B;
        if (!near(G, CM::Identity(G.rows(), G.cols()), 1e-7)) mc::violation("basis vectors are not orthonormal", when);
        if (!near(v.B, W, 1e-6)) return mc::violation("basis vectors are not the closest to the unperturbed ones", mc::cat(when, v.B.cols(), " vectors, off by ", v.B.cols() == W.cols() ? (v.B - W).cwiseAbs().maxCoeff() : -1));
        if (!near(v.H, H, 1e-5 * sc)) mc::violation("effective Hamiltonian is wrong", mc::cat(when, "off by ", (v.H - H).cwiseAbs().maxCoeff(), " of ", sc));
    }
    void transformation(std::string const &name) {
        int h = -1;
        for (auto &pre : histories()) {
            ++h;
            for (size_t x = 0; x < settings.size(); ++x)
                for (int u = 0; u < 4; ++u) { // unperturbed: bare; built before; diagonalised with another setting; with fewer states
                    if (u == 1 && h > 0) continue;
                    if (u == 2 && x == 2) continue;
                    if (u == 3 && h > 1) continue;
                    // common to all subsets
                    Sys a = make(), b = u == 3 ? part() : make();
                    std::string label = mc::cat(name, " ; ", pre.name, " ", settings[x].name, " ; ", u == 0 ? "bare" : u == 1 ? "built" : u == 2 ? "other eigenvectors" : "fewer states");
                    if (mc::R().has_only && mc::R().only.compare(0, label.size(), label) != 0) continue;
                    pre.f(a, settings[x]);
                    Par p = root;
                    if (pre.name[0] == 'a') settings[1].model(p);
                    settings[x].model(p);
                    if (u == 1) b.buildHamiltonian();
                    if (u == 2) settings[2].call(b), b.diagonalize();
                    Sys d(a);
                    d.diagonalize();
                    auto V = look<S>(d, ref);
                    if (!V.bad.empty() || !near(operator_of(V), ref.H(p), 2e-6 * scale(ref.H(p)))) {
                        mc::enter(label), mc::violation("perturbed system is not the one set up", V.bad + mc::cat(" off by ", (operator_of(V) - ref.H(p)).cwiseAbs().maxCoeff(), " of ", scale(ref.H(p))));
                        continue;
                    }
                    double sc = scale(operator_of(V));
                    for (size_t w = 0; w < subsets.size(); ++w) {
                        if ((h > 1 || u == 2) && w % few) continue;
                        if (*std::max_element(subsets[w].begin(), subsets[w].end()) >= size_t(b.getBasisvectors().cols())) continue;
                        std::string chosen;
                        for (auto i : subsets[w]) chosen += mc::cat(chosen.empty() ? "" : ",", i);
                        if (!mc::enter(label + " ; vectors " + chosen)) continue;
                        mc::R().states++, mc::R().transitions++, mc::R().traces++;
                        Sys s(a), t(b);
                        t.constrainBasisvectors(subsets[w]);
                        auto T = look<S>(t, ref);
                        CM W, H;
                        if (!expect(V, T.B, W, H)) {
                            ++skipped;
                            continue;
                        }
                        ++transformed;
                        std::string what;
                        if (refused([&] { s.applySchriefferWolffTransformation(t); }, &what)) {
                            mc::violation("transformation fails", what);
                            continue;
                        }
                        compare(s, W, H, sc, "");
                        mc::outcome(mc::cat(W.cols(), " ", std::llround(H.norm() * 1e6)));
                        auto after = look<S>(t, ref);
                        if (!near(after.B, T.B, 0) || !near(after.H, T.H, 0)) mc::violation("transformation changes the unperturbed system");
                        if (w % few) continue;
                        // what may follow
                        mc::R().transitions += 4;
                        Sys c(s);
                        c.buildHamiltonian();
                        compare(c, W, H, sc, "built again: ");
                        c = s;
                        if (refused([&] { c.applySchriefferWolffTransformation(t); }, &what))
                            mc::violation("second transformation fails", what);
                        else
                            compare(c, W, H, sc, "transformed twice: ");
                        c = s;
                        c.diagonalize();
                        auto E = look<S>(c, ref);
                        if (!near(operator_of(E), W * H * W.adjoint(), 1e-6 * sc)) mc::violation("eigenvectors of the effective Hamiltonian are wrong");
                        c = s;
                        auto &other = settings[x == 1 ? 0 : 1];
                        if (!refused([&] { other.call(c); })) { // possible if the Hamiltonian was diagonal
                            Par q = p;
                            other.model(q);
                            CM Q = W * W.adjoint();
                            auto n = look<S>(c, ref);
                            if (!near(operator_of(n), Q * ref.H(q) * Q, 2e-6 * scale(ref.H(q)))) mc::violation("parameter changed after the transformation gives another operator");
                        } else
                            compare(c, W, H, sc, "after a refused setting: ");
                    }
                }
        }
    }
    // what has to be refused, leaving both systems as operators as they were
    void refusals(std::string const &name) {
        for (size_t x = 0; x < settings.size(); ++x) {
            struct Bad {
                std::string name;
                std::function<void(Sys &, Sys &)> f;
                bool orthonormal;
            };
            std::vector<Bad> bad = {{"unperturbed Hamiltonian is not diagonal", [&](Sys &, Sys &t) { settings[0].call(t); }, true},
                                    {"unperturbed basis is not orthonormal", [](Sys &, Sys &t) { t.diagonalize(), t.constrainBasisvectors({0, 2}), t.canonicalize(); }, false},
                                    {"perturbed basis is not orthonormal", [](Sys &s, Sys &) { s.constrainBasisvectors({0, 2}), s.canonicalize(); }, false},
                                    {"states are labels", [](Sys &s, Sys &) { s.diagonalize(), s.unitarize(); }, true},
                                    {"unperturbed states are labels", [&](Sys &, Sys &t) { settings[2].call(t), t.diagonalize(), t.unitarize(); }, true},
                                    {"states missing in the perturbed system", [&](Sys &s, Sys &) { s = part(), settings[x].call(s); }, true},
                                    {"fewer perturbed than unperturbed vectors", [](Sys &s, Sys &) { s.diagonalize(), s.constrainBasisvectors({1}); }, true}};
            for (auto &k : bad) {
                if (!mc::enter(mc::cat(name, " ; refused: ", k.name, " ; ", settings[x].name))) continue;
                mc::R().states++, mc::R().transitions++, mc::R().traces++, mc::R().evaluations++;
                Sys s = make(), t = make();
                settings[x].call(s);
                k.f(s, t);
                Sys s0(s), t0(t);
                if (!refused([&] { s.applySchriefferWolffTransformation(t); })) {
                    mc::violation("impossible transformation is accepted");
                    continue;
                }
                CM h = Eigen::MatrixXcd(Eigen::Matrix<S, -1, -1>(s.getHamiltonian()).template cast<cd>()), b = Eigen::MatrixXcd(Eigen::Matrix<S, -1, -1>(s.getBasisvectors()).template cast<cd>());
                CM h0 = Eigen::MatrixXcd(Eigen::Matrix<S, -1, -1>(s0.getHamiltonian()).template cast<cd>()), b0 = Eigen::MatrixXcd(Eigen::Matrix<S, -1, -1>(s0.getBasisvectors()).template cast<cd>());
                if (k.orthonormal && !near(b * h * b.adjoint(), b0 * h0 * b0.adjoint(), 1e-8 * scale(b0 * h0 * b0.adjoint()) + 1e-9)) mc::violation("refused transformation changes the perturbed system");
                h = Eigen::MatrixXcd(Eigen::Matrix<S, -1, -1>(t.getHamiltonian()).template cast<cd>()), h0 = Eigen::MatrixXcd(Eigen::Matrix<S, -1, -1>(t0.getHamiltonian()).template cast<cd>());
                if (!near(h, h0, 0)) mc::violation("refused transformation changes the unperturbed system");
            }
        }
    }
    void others(std::string const &name) {
        for (auto &pre : histories())
            for (size_t i = 0; i < settings.size() + more.size(); ++i) {
                auto &x = i < settings.size() ? settings[i] : more[i - settings.size()];
                Par p = root;
                if (pre.name[0] == 'a') settings[1].model(p);
                x.model(p);
                Sys a = make();
                pre.f(a, x);
                Sys d(a);
                d.diagonalize();
                auto V = look<S>(d, ref);
                CM O = operator_of(V);
                double sc = scale(O);
                std::string label = mc::cat(name, " ; ", pre.name, " ", x.name);
                for (double threshold : {1e-12, 1e-4, .01, .05, .2, .5}) {
                    if (!mc::enter(mc::cat(label, " ; diagonalize with threshold ", threshold))) continue;
                    mc::R().states++, mc::R().transitions++, mc::R().traces++, mc::R().evaluations++;
                    Sys s(a);
                    bool diagonal = pre.name == "set, diagonalize"; // nothing left to do
                    s.diagonalize(threshold);
                    auto v = look<S>(s, ref);
                    if (!v.bad.empty() || v.B.cols() != V.B.cols()) {
                        mc::violation("system is inconsistent", v.bad);
                        continue;
                    }
                    if (!near(v.H, V.H, 1e-10 * sc)) mc::violation("energies depend on the threshold");
                    bool touched = false;
                    for (int i = 0; i < V.B.rows(); ++i)
                        for (int k = 0; k < V.B.cols(); ++k) {
                            double c = std::abs(V.B(i, k));
                            if (std::abs(c - threshold) < 1e-9) continue;
                            bool kept = v.B(i, k) != 0.;
                            cd want = c > threshold ? V.B(i, k) : cd(0);
                            touched |= c < threshold && !kept && c > 1e-9;
                            if (std::abs(v.B(i, k) - want) > 1e-9 && !(std::abs(v.B(i, k) - V.B(i, k)) < 1e-12 && (diagonal || already(a)))) mc::violation("coefficient after diagonalising with a threshold", mc::cat(i, ",", k, ": ", v.B(i, k), " instead of ", want));
                        }
                    // forgotten coefficients do not come back, nor are they missed by another setting
                    Par q = p;
                    auto &other = &x == &settings[1] ? settings[0] : settings[1];
                    other.model(q);
                    if (refused([&] { other.call(s); })) mc::violation("setting refused after diagonalising with a threshold");
                    else if (!near(operator_of(look<S>(s, ref)), ref.H(q), 2e-6 * scale(ref.H(q)))) mc::violation("setting after diagonalising with a threshold gives another operator");
                    mc::outcome(mc::cat(touched, std::llround(v.B.norm() * 1e6)));
                }
                if (mc::enter(label + " ; forget mixing")) {
                    mc::R().states++, mc::R().transitions++, mc::R().traces++, mc::R().evaluations++;
                    Sys s(a);
                    bool possible = true, clear = true;
                    CM D = CM::Zero(V.B.rows(), V.B.cols());
                    for (int k = 0; k < V.B.cols(); ++k) {
                        int at = 0;
                        double m = V.B.col(k).cwiseAbs().maxCoeff(&at);
                        clear &= std::abs(m - std::sqrt(.5)) > 1e-9;
                        possible &= m > std::sqrt(.5);
                        D(at, k) = 1;
                    }
                    if (clear) {
                        bool no = refused([&] { s.forgetStatemixing(); });
                        if (no == possible) mc::violation(no ? "forgetting the mixing is refused" : "forgetting the mixing is accepted although states are mixed strongly");
                        auto v = look<S>(s, ref);
                        if (!near(v.H, V.H, 1e-10 * sc)) mc::violation("energies change when the mixing is forgotten");
                        if (!near(v.B, no ? V.B : D, 1e-9)) mc::violation("basis vectors after forgetting the mixing");
                        Par q = p;
                        auto &other = &x == &settings[1] ? settings[0] : settings[1];
                        other.model(q);
                        if (refused([&] { other.call(s); })) mc::violation("setting refused after forgetting the mixing");
                        else if (!near(operator_of(look<S>(s, ref)), ref.H(q), 2e-6 * scale(ref.H(q)))) mc::violation("setting after forgetting the mixing gives another operator");
                        mc::outcome(mc::cat("forget", no, std::llround(v.H.norm() * 1e3)));
                    }
                }
                if (mc::enter(label + " ; energy window")) { // needs a library that is not there: refused
                    mc::R().states++, mc::R().transitions++, mc::R().traces++, mc::R().evaluations++;
                    Sys s(a);
                    auto before = look<S>(s, ref);
                    if (refused([&] { s.diagonalize(-1e9, 1e9); })) {
                        auto v = look<S>(s, ref);
                        if (!near(v.H, before.H, 0) || !near(v.B, before.B, 0)) mc::violation("refused diagonalisation changes the system");
                    }
                }
            }
    }
    bool already(Sys const &a) { // the Hamiltonian is diagonal before the diagonalisation
        Sys s(a);
        auto v = look<S>(s, ref);
        return spread(v.H) <= 1e-12;
    }
    void go(std::string const &name, int part) {
        if (part == 0) transformation(name);
        if (part == 1) refusals(name), others(name);
        mc::count("transformations compared", transformed);
        mc::count("transformations left out because the vectors to choose are not determined", skipped);
    }
};
std::vector<std::vector<size_t>> choose(int n, int most) {
    std::vector<std::vector<size_t>> r;
    for (int m = 1; m < (1 << n); ++m) {
        if (__builtin_popcount(m) > most && __builtin_popcount(m) != n) continue;
        std::vector<size_t> v;
        for (int i = 0; i < n; ++i)
            if (m >> i & 1) v.push_back(i);
        if (v.size() > 1 && m % 3 == 0) std::swap(v[0], v.back()); // in another order
        r.push_back(v);
    }
    return r;
}

int main() {
    MatrixElementCache cache;
    auto base = [](auto &s, float jmax) { s.restrictN(20, 20), s.restrictL(0, 1), s.restrictJ(.5, jmax); };
    auto states = [&](std::string const &sp, float jmax) {
        SystemOne<cd> s(sp, cache);
        base(s, jmax);
        return s.getStates();
    };
    OneRef one("Rb", states("Rb", 1.5), cache, 2), pa("Rb", states("Rb", .5), cache, 2);
    OneRef cs("Cs", states("Cs", .5), cache, 2);
    PairRef two(pa, pa), unlike(pa, cs);
    auto go_one = [&](auto tag, std::string name, int slice, int part) {
        using S = decltype(tag);
        using Sys = SystemOne<S>;
        Effective<Sys, OneRef, Params> t{one, Params(), {}, {}, {}, {}, {}, 1};
        t.make = [&] {
            Sys s("Rb", cache);
            base(s, 1.5);
            return s;
        };
        t.part = [&] {
            Sys s("Rb", cache);
            base(s, 1.5), s.restrictJ(1.5, 1.5);
            return s;
        };
        bool real = std::is_same<S, double>::value;
        auto E = [&](C3 v) { t.settings.push_back({mc::cat("E=", v[0], ",", v[1], ",", v[2]), [=](Sys &s) { s.setEfield(v); }, [=](Params &p) { p.E = v; }}); };
        auto B = [&](C3 v) { t.settings.push_back({mc::cat("B=", v[0], ",", v[1], ",", v[2]), [=](Sys &s) { s.setBfield(v); }, [=](Params &p) { p.B = v; }}); };
        E({{70, real ? 0. : 20., 40}}), E({{0, 0, 300}}), B({{5e3, 0, 1e4}}), B({{0, 0, 2e4}}), E({{1500, 0, 900}});
        if (!real) B({{3e3, -6e3, 100}});
        int first = t.settings.size();
        for (int i = 0; i < mc::tier(12, 100); ++i) E({{20. + 35 * i, real ? 0. : 10. * i, 40. * (i % 7)}}), B({{1e3 * i, real ? 0. : -700. * i, 500 + 2e3 * (i % 5)}});
        t.more.assign(t.settings.begin() + first, t.settings.end()), t.settings.resize(first);
        auto all = choose(one.F.size(), 8);
        for (size_t i = slice; i < all.size(); i += 8) t.subsets.push_back(all[i]);
        t.few = mc::tier(3, 1);
        t.go(name, part);
    };
    auto go_two = [&](auto tag, PairRef &ref, std::string name, int slice, int part) {
        using S = decltype(tag);
        using Sys = SystemTwo<S>;
        Effective<Sys, PairRef, PairParams> t{ref, PairParams(), {}, {}, {}, {}, {}, 1};
        std::string other = &ref == &two ? "Rb" : "Cs";
        t.make = [&, other] {
            SystemOne<S> a("Rb", cache), b(other, cache);
            base(a, .5), base(b, .5);
            return Sys(a, b, cache);
        };
        t.part = [&, other] {
            SystemOne<S> a("Rb", cache), b(other, cache);
            base(a, .5), base(b, .5), b.restrictL(1, 1);
            return Sys(a, b, cache);
        };
        bool real = std::is_same<S, double>::value;
        auto R = [&](C3 v) {
            double l = norm(v);
            t.settings.push_back({mc::cat("R=", v[0], ",", v[1], ",", v[2]), [=](Sys &s) { s.setDistanceVector(v); }, [=](PairParams &p) { p.len = l, p.dir = {{v[0] / l, v[1] / l, v[2] / l}}; }});
        };
        R({{.5, real ? 0. : -.3, .4}}), R({{0, 0, .35}}), R({{.6, 0, .3}}), R({{0, 0, 3}});
        int first = t.settings.size();
        for (int i = 0; i < mc::tier(8, 60); ++i) R({{.05 * (i % 5), real ? 0. : .03 * i, .3 + .02 * i}});
        t.more.assign(t.settings.begin() + first, t.settings.end()), t.settings.resize(first);
        auto all = choose(ref.F.size(), mc::tier(3, 4));
        for (size_t i = slice; i < all.size(); i += 8) t.subsets.push_back(all[i]);
        t.few = mc::tier(5, 1);
        t.go(name, part);
    };
    mc::parallel(4 * 8 + 4, [&](int job) {
        int cfg = job < 32 ? job / 8 : job - 32, slice = job < 32 ? job % 8 : 0, part = job >= 32;
        if (cfg == 0) go_one(0., "real", slice, part);
        if (cfg == 1) go_one(cd(), "complex", slice, part);
        if (cfg == 2) go_two(0., unlike, "pair real", slice, part);
        if (cfg == 3) go_two(cd(), two, "pair complex", slice, part);
    });
    return mc::finish();
}
