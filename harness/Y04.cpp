// Y04: all sequences of transformations of one system up to a depth. The model is kept on the space of states: the
// projector on the space spanned by the basis vectors and the operator represented by the Hamiltonian matrix. Rotations
// are exp(i gamma Jz) exp(i beta Jy) exp(i alpha Jz) from ladder operators, checked against rotated fields.
#include "systwo.hpp"
using cd = std::complex<double>;

CM expi(CM const &h, double t) { // exp(i t h)
    Eigen::SelfAdjointEigenSolver<CM> s(h);
    Eigen::VectorXcd d = (s.eigenvalues() * t).unaryExpr([](double x) { return std::polar(1., x); });
    return s.eigenvectors() * d.asDiagonal() * s.eigenvectors().adjoint();
}
using A3 = std::array<double, 3>;
CM rotator(OneRef const &r, A3 const &a) {
    int N = r.F.size();
    CM jz = CM::Zero(N, N), jp = jz;
    for (int i = 0; i < N; ++i) {
        auto &f = r.F[i];
        double j = f.getJ(), m = f.getM();
        jz(i, i) = m;
        auto it = r.index.find(StateOne(f.getSpecies(), f.getN(), f.getL(), f.getJ(), m + 1));
        if (it != r.index.end()) jp(it->second, i) = std::sqrt(j * (j + 1) - m * (m + 1));
    }
    CM jy = (jp - jp.adjoint()) / cd(0, 2);
    return expi(jz, a[2]) * expi(jy, a[1]) * expi(jz, a[0]);
}
Eigen::Matrix3d matrix(A3 const &a) {
    auto z = [](double t) { Eigen::Matrix3d m; m << std::cos(t), -std::sin(t), 0, std::sin(t), std::cos(t), 0, 0, 0, 1; return m; };
    Eigen::Matrix3d y;
    y << std::cos(a[1]), 0, std::sin(a[1]), 0, 1, 0, -std::sin(a[1]), 0, std::cos(a[1]);
    return z(a[0]) * y * z(a[2]);
}

template <class Sys, class Par, class State>
struct Twin {
    Sys s;
    Par p;
    CM Q, O, Qu;        // space, operator, space before the interaction was built
    CM bare;            // operator without interaction
    bool contained = false, dirty = false, selected = false, diagonal = false, slanted = false, twisted = false;
    std::map<State, int> labels; // states after unitarize()
};

template <class Sys, class Ref, class Par>
struct Transform {
    using Scalar = typename Sys::Scalar;
    using State = typename std::decay<decltype(std::declval<Ref>().F[0])>::type;
    using N = Twin<Sys, Par, State>;
    Ref &ref;
    bool saving, real = std::is_same<Scalar, double>::value;
    CM bare, zero;                            // Hamiltonian that belongs to the basis, and the same with couplings
    Par root;
    std::function<CM(A3 const &)> rotation;   // on the states
    std::function<Sys()> partner;             // without parameters
    CM Qp;                                    // its space
    std::vector<std::pair<std::string, std::pair<std::function<void(Sys &)>, std::function<void(Par &)>>>> settings;
    std::vector<std::pair<std::string, std::function<void(Sys &)>>> others; // parameters the systems have to agree in
    std::vector<std::pair<std::string, std::function<bool(N &)>>> letters;
    std::vector<std::vector<State>> wanted;
    double TOL = 2e-6;
    std::map<std::string, A3> angles;
    std::map<std::string, CM> rot;
    explicit Transform(Ref &r, bool saving) : ref(r), saving(saving) {}
    CM expected(N const &n) { return n.bare + ref.H(n.p) - zero; }
    void built(N &n) {
        if (!n.dirty) return;
        if (n.contained) n.Q = n.Qu;
        n.Qu = n.Q;
        n.O = n.Q * expected(n) * n.Q;
        n.contained = true, n.dirty = false, n.diagonal = false, n.twisted = false;
    }
    struct View {
        CM B, H;
        std::string bad;
    };
    struct Names {
        std::vector<State> F;
        std::map<State, int> index;
    };
    View view(N &n) {
        Seen<Scalar> v;
        if (n.labels.empty())
            v = look<Scalar>(n.s, ref);
        else {
            Names names;
            names.index = n.labels;
            names.F.resize(n.labels.size(), n.labels.begin()->first);
            for (auto &x : n.labels) names.F[x.second] = x.first;
            v = look<Scalar>(n.s, names);
        }
        return {v.B, v.H, v.bad};
    }
    bool same(CM const &a, CM const &b, double tol) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= tol); }
    double scale(N const &n) { return std::max(1e-3, std::max(spread(bare), n.labels.empty() ? spread(ref.H(n.p)) : spread(n.O))); }
    double rounding(N const &n) { return 1e-13 * n.O.cwiseAbs().maxCoeff() * n.O.rows(); }
    void add(std::string name, std::function<bool(N &)> f) { letters.push_back({name, f}); }
    void alphabet() {
        for (auto &x : settings) {
            auto call = x.second.first;
            auto model = x.second.second;
            add(x.first, [=](N &n) {
                std::string what;
                bool no = refused([&] { call(n.s); }, &what);
                if (no && n.labels.empty() && !(n.contained && (saving || n.selected))) mc::violation("parameter change refused", what);
                if (!no && !n.labels.empty()) mc::violation("parameter change accepted although the states are gone");
                if (!no) model(n.p), n.dirty = true;
                return n.labels.empty() || no;
            });
        }
        add("hamiltonian", [=](N &n) { return n.s.buildHamiltonian(), built(n), true; });
        add("diagonalize", [=](N &n) {
            built(n);
            if (n.slanted) return false;
            n.s.diagonalize();
            n.diagonal = n.twisted = true;
            return true;
        });
        add("canonicalize", [=](N &n) {
            built(n);
            n.s.canonicalize();
            if (!same(n.Q, CM::Identity(n.Q.rows(), n.Q.cols()), 1e-9)) n.slanted = true;
            n.diagonal = false, n.twisted = true;
            return true;
        });
        add("unitarize", [=](N &n) {
            built(n);
            if (n.slanted) return false;
            auto v = view(n);
            if (!v.bad.empty()) return true;
            Sys c(n.s);
            c.unitarize();
            n.s.unitarize();
            auto st = n.s.getStates(), other = c.getStates();
            if (st != other) mc::violation("equal systems get different labels");
            n.labels.clear();
            for (size_t i = 0; i < st.size(); ++i) n.labels[st[i]] = i;
            n.O = v.H;
            n.Q = n.Qu = CM::Identity(v.H.rows(), v.H.cols());
            n.selected = true;
            return true;
        });
        for (auto &a : angles) {
            auto name = a.first;
            auto x = a.second;
            add("rotate " + name, [=](N &n) {
                built(n);
                std::string what;
                bool no = refused([&] { n.s.rotate(x[0], x[1], x[2]); }, &what);
                if (!n.labels.empty()) { // labels cannot be rotated
                    if (!no) mc::violation("states without quantum numbers are rotated");
                    return no;
                }
                if (no) return mc::violation("rotation refused", what), false;
                auto &U = rot.at(name);
                n.Q = U * n.Q * U.adjoint(), n.O = U * n.O * U.adjoint(), n.Qu = U * n.Qu * U.adjoint();
                n.bare = U * n.bare * U.adjoint();
                return true;
            });
        }
        add("constrain", [=](N &n) {
            built(n);
            auto v = view(n);
            if (!v.bad.empty()) return true;
            std::vector<size_t> idx;
            std::vector<int> cols;
            for (int i = v.B.cols() - 1; i >= 0; i -= 2) idx.push_back(i), cols.push_back(i);
            if (n.slanted || cols.size() < 2) return false;
            n.s.constrainBasisvectors(idx);
            CM b(v.B.rows(), cols.size()), h(cols.size(), cols.size());
            for (size_t i = 0; i < cols.size(); ++i) {
                b.col(i) = v.B.col(cols[i]);
                for (size_t k = 0; k < cols.size(); ++k) h(i, k) = v.H(cols[i], cols[k]);
            }
            n.Q = b * b.adjoint(), n.O = b * h * b.adjoint();
            n.Qu = n.Q;
            n.selected = true;
            return true;
        });
        for (bool match : {true, false})
            add(match ? "add" : "add unbuilt", [=](N &n) {
                if (!n.labels.empty() || n.slanted) return false;
                Sys o = partner();
                bool set = match ? n.dirty || n.contained : false, build = match && n.contained && !n.dirty;
                CM Op = Qp * CM(bare + ref.H(n.p) - zero) * Qp;
                if (set)
                    for (auto &x : settings)
                        configure(o, n.p);
                if (build) o.buildHamiltonian();
                bool contained = n.contained && !n.dirty; // a pending change resets the basis first
                bool no_params = !(root < n.p) && !(n.p < root);
                bool fits = contained == build && n.dirty == (set && !build) && (n.Q * Qp).cwiseAbs().maxCoeff() < 1e-9 && (n.Qu * Qp).cwiseAbs().maxCoeff() < 1e-9 && (set || no_params);
                if (n.dirty && n.contained) n.Q = n.Qu, n.O = n.Q * n.bare * n.Q, n.contained = false, n.diagonal = n.twisted = false;
                std::string what;
                auto keep = [&] { Sys y(o); return look<Scalar>(y, ref); }();
                bool no = refused([&] { n.s.add(o); }, &what);
                if (no && fits && !(contained && n.selected && !saving)) mc::violation("fitting systems are not merged", what);
                if (!no && !fits) mc::violation("systems that do not fit are merged");
                auto now = [&] { Sys y(o); return look<Scalar>(y, ref); }();
                if (!same(keep.B, now.B, 0) || !same(keep.H, now.H, 0)) mc::violation("merging changes the system added");
                if (no) return true;
                if (!build) Op = Qp * bare * Qp;
                n.Q += Qp, n.O += Op, n.Qu += Qp, n.bare += Qp * bare * Qp;
                n.diagonal = false;
                return true;
            });
        add("copy", [=](N &n) {
            Sys c(n.s);
            n.s.canonicalize();
            n.s = c;
            return true;
        });
    }
    std::function<void(Sys &, Par const &)> configure;
    void check(N const &orig, int depth) {
        N n(orig);
        auto &r = mc::R();
        r.evaluations++;
        bool pending = n.dirty;
        // the basis can be asked for before the Hamiltonian
        built(n);
        (void)pending;
        auto v = view(n);
        if (!v.bad.empty()) return mc::violation("system is inconsistent", v.bad);
        double tol = TOL * scale(n) + rounding(n);
        CM G = v.B.adjoint() * v.B;
        if (!n.slanted && !same(G, CM::Identity(G.rows(), G.cols()), 1e-9)) mc::violation("basis vectors are not orthonormal");
        if (!same(v.B * v.B.adjoint(), n.Q, 1e-9)) mc::violation("basis vectors do not span the expected space", mc::cat(v.B.cols(), " vectors, dimension ", n.Q.trace().real()));
        if (!same(v.B * v.H * v.B.adjoint(), n.O, tol)) {
            auto got = spectrum(v.H);
            mc::violation("Hamiltonian does not represent the expected operator", mc::cat("off by ", v.B.rows() == n.O.rows() ? (v.B * v.H * v.B.adjoint() - n.O).cwiseAbs().maxCoeff() : -1, " scale ", scale(n)));
        }
        if (n.diagonal && v.H.size() && spread(v.H) > 1e-9 * std::max(1., std::abs(v.H(0, 0)))) mc::violation("Hamiltonian is not diagonal after diagonalize");
        mc::outcome(mc::cat(v.B.cols(), " ", std::llround(v.H.trace().real()), " ", std::llround(spread(v.H) * 1e4), " ", std::llround(std::abs(v.B.sum()) * 1e4)));
        // overlaps
        if (n.labels.empty()) {
            for (size_t w = 0; w < wanted.size(); ++w)
                for (int a = -1; a < (int)rot.size(); ++a) {
                    std::vector<int> rows;
                    for (auto &g : wanted[w])
                        for (size_t i = 0; i < ref.F.size(); ++i)
                            if (g == ref.F[i] || (is_true(g.isGeneralized()) && (ref.F[i] ^ g))) rows.push_back(i);
                    std::string name = a < 0 ? "" : std::next(rot.begin(), a)->first;
                    Eigen::VectorXd want = Eigen::VectorXd::Zero(v.B.cols());
                    bool inside = true;
                    auto have = n.s.getStates();
                    std::set<State> states(have.begin(), have.end());
                    for (int i : rows) {
                        CM e = CM::Zero(ref.F.size(), 1);
                        if (!states.count(ref.F[i])) { // not in the list of states
                            inside = false;
                            continue;
                        }
                        e(i, 0) = 1;
                        if (a >= 0) e = rot.at(name) * e;
                        want += (v.B.adjoint() * e).cwiseAbs2();
                    }
                    if (a >= 0 && !inside) continue;
                    if (a >= 0 && states.size() < ref.F.size() && !closed(states)) continue;
                    auto x = a < 0 ? A3{} : angles.at(name);
                    Eigen::VectorXd got = a < 0 ? n.s.getOverlap(wanted[w]) : n.s.getOverlap(wanted[w], x[0], x[1], x[2]);
                    mc::R().evaluations++;
                    if (got.size() != want.size() || (got.size() && (got - want).cwiseAbs().maxCoeff() > 1e-9)) mc::violation("overlap is wrong", mc::cat("set ", w, " ", name, ": off by ", got.size() == want.size() ? (got - want).cwiseAbs().maxCoeff() : -1));
                    if (got.size() && (got.minCoeff() < 0 || (!n.slanted && got.maxCoeff() > rows.size() + 1e-9))) mc::violation("overlap out of range");
                    if (same(n.Q, CM::Identity(n.Q.rows(), n.Q.cols()), 1e-9) && std::abs(got.sum() - rows.size()) > 1e-9) mc::violation("overlaps do not sum to one");
                }
            if (depth <= 2) queries(n, v);
        }
        if (depth <= 2 && n.labels.empty() && !n.slanted && (n.Q * Qp).cwiseAbs().maxCoeff() < 1e-9) {
            for (auto &x : others) { // systems that differ in one parameter
                N c(n);
                Sys o = partner();
                bool set = c.dirty || c.contained;
                if (set) configure(o, c.p);
                bool build = c.contained && !c.dirty;
                std::string what;
                if (refused([&] { x.second(o); if (build) o.buildHamiltonian(); })) continue;
                if (!refused([&] { c.s.add(o); }, &what)) mc::violation("systems of different parameters are merged", x.first);
                auto w = view(c);
                if (!w.bad.empty() || !same(w.B, v.B, 1e-12) || !same(w.H, v.H, 0)) mc::violation("refused merging changes the system", x.first + ": " + w.bad);
            }
        }
    }
    std::function<bool(std::set<State> const &)> closed;
    bool is_true(bool b) { return b; }
    bool is_true(std::array<bool, 2> const &b) { return b[0] && b[1]; }
    // main states, indices and connections follow from the coefficients
    void queries(N &n, View const &v) {
        auto main = n.s.getMainStates();
        auto st = n.s.getStates();
        if ((int)main.size() != v.B.cols()) return mc::violation("number of main states");
        for (int c = 0; c < v.B.cols(); ++c)
            if (!(std::abs(v.B(ref.index.at(main[c]), c)) >= v.B.col(c).cwiseAbs().maxCoeff() - 1e-12)) mc::violation("main state is not the one with the largest coefficient", mc::cat("vector ", c));
        auto idx = n.s.getStateIndex(st);
        for (size_t i = 0; i < st.size(); ++i)
            if (idx[i] != i || n.s.getStateIndex(st[i]) != i) mc::violation("index of a state", st[i].str());
        for (size_t i = 0; i < st.size(); ++i) {
            auto row = v.B.row(ref.index.at(st[i])).cwiseAbs();
            size_t k = 0;
            std::string what;
            if (refused([&] { k = n.s.getBasisvectorIndex(st[i]); }, &what)) {
                if (row.maxCoeff() > 1e-7) mc::violation("basis vector of a state is not found", st[i].str() + " " + what);
                continue;
            }
            if (k == size_t(-1) && row.maxCoeff() < 1e-7) continue; // there is none
            if (k >= (size_t)v.B.cols() || row(k) < row.maxCoeff() - 1e-9) mc::violation("basis vector of a state is not the one with the largest coefficient", st[i].str());
        }
        std::vector<size_t> many;
        if (!refused([&] { many = n.s.getBasisvectorIndex(st); })) {
            std::set<size_t> distinct(many.begin(), many.end());
            if (many.size() != st.size() || distinct.size() != many.size() || *distinct.rbegin() >= (size_t)v.B.cols()) mc::violation("states do not get different basis vectors", mc::cat(st.size(), " states, ", v.B.cols(), " vectors, ", distinct.size(), " indices"));
        }
        // connections with the undiagonalised system of the same states
        N o(n);
        o.s.canonicalize();
        auto w = look<Scalar>(o.s, ref);
        for (double threshold : {.2, .6}) {
            auto con = n.s.getConnections(o.s, threshold);
            CM ov = v.B.adjoint() * w.B;
            Eigen::MatrixXd m = ov.cwiseAbs2();
            std::set<std::pair<size_t, size_t>> got;
            for (size_t i = 0; i < con[0].size(); ++i) got.insert({con[0][i], con[1][i]});
            for (int i = 0; i < m.rows(); ++i)
                for (int k = 0; k < m.cols(); ++k) {
                    bool best = true, tie = false;
                    for (int x = 0; x < m.rows(); ++x)
                        if (x != i) best &= m(x, k) <= m(i, k), tie |= std::abs(m(x, k) - m(i, k)) < 1e-9;
                    for (int x = 0; x < m.cols(); ++x)
                        if (x != k) best &= m(i, x) <= m(i, k), tie |= std::abs(m(i, x) - m(i, k)) < 1e-9;
                    if (tie || std::abs(m(i, k) - threshold) < 1e-9) continue;
                    bool want = best && m(i, k) > threshold;
                    if (want != (got.count({i, k}) > 0)) mc::violation("connections between two systems", mc::cat(i, "-", k, " overlap ", m(i, k)));
                }
        }
    }
    void walk(N const &n, std::string const &label, int depth, int level = 1, int first = -1) {
        for (size_t i = 0; i < letters.size(); ++i) {
            if (first >= 0 && (int)i != first) continue;
            std::string l = label + " ; " + letters[i].first;
            auto &r = mc::R();
            if (r.has_only && r.only.compare(0, l.size(), l) != 0) continue;
            r.label = l;
            if (r.cur) snprintf(r.cur, 8000, "%s", l.c_str());
            r.states++, r.transitions++;
            N c(n);
            auto before = r.violations.size();
            std::string what;
            bool go = false;
            if (refused([&] { go = letters[i].second(c); }, &what)) mc::violation("operation fails", what), go = false;
            if (go && refused([&] { check(c, level); }, &what)) mc::violation("system cannot be evaluated", what);
            if (go && before == r.violations.size() && depth > 1)
                walk(c, l, depth - 1, level + 1);
            else
                r.traces++;
        }
    }
};

double const A_ = .7;
std::map<std::string, A3> angles_of(bool real) {
    std::map<std::string, A3> r{{"y", {{0, A_, 0}}}, {"y back", {{0, -A_, 0}}}};
    if (!real) r["zyz"] = {{.4, -1.3, 2.2}}, r["zyz back"] = {{-2.2, 1.3, -.4}};
    return r;
}

int main() {
    MatrixElementCache cache;
    // one atom: n = 20, partner n = 21
    auto base = [&](auto &s, int n, int l = 1) { s.restrictN(n, n), s.restrictL(0, l); };
    auto list = [&](std::string sp, std::vector<int> ns, int l) {
        std::vector<StateOne> st;
        for (int n : ns) {
            SystemOne<double> s(sp, cache);
            base(s, n, l);
            for (auto &x : s.getStates()) st.push_back(x);
        }
        return OneRef(sp, st, cache, 2);
    };
    OneRef one = list("Rb", {20, 21}, 1);
    OneRef pa = list("Rb", {20}, 1), pb = list("Cs", {21, 22}, 0);
    PairRef two(pa, pb);
    for (auto sp : {"Rb", "Cs"}) {
        SystemOne<cd> warm(sp, cache);
        warm.restrictN(20, 22), warm.restrictL(0, 1);
        warm.setEfield({{1, 1, 1}}), warm.setBfield({{1, 1, 1}}), warm.setIonCharge(1), warm.setRydIonOrder(2), warm.setRydIonDistance(1);
        warm.buildHamiltonian();
        for (int k = 0; k <= 3; ++k) cache.precalculateMultipole(warm.getStates(), k);
    }
    { // the oracle itself: turning the axes is the same as turning the fields back
        A3 a{{.4, -1.3, 2.2}};
        Params p, q;
        p.E = {{40, -70, 50}}, p.B = {{1e4, 2e4, -3e4}};
        auto m = matrix(a);
        for (auto x : {&Params::E, &Params::B}) {
            Eigen::Vector3d v((p.*x)[0], (p.*x)[1], (p.*x)[2]);
            v = m.transpose() * v;
            q.*x = {{v[0], v[1], v[2]}};
        }
        auto U = rotator(one, a);
        if ((U * one.H(p) * U.adjoint() - one.H(q)).cwiseAbs().maxCoeff() > 1e-9) return fprintf(stderr, "oracle: rotations do not fit\n"), 2;
    }
    int depth = mc::tier(4, 5);
    auto go_one = [&](auto tag, bool saving, std::string name, int letter) {
        using S = decltype(tag);
        using Sys = SystemOne<S>;
        Transform<Sys, OneRef, Params> t(one, saving);
        auto make = [&cache, saving, base](int n) {
            Sys s = saving ? Sys("Rb", cache, true) : Sys("Rb", cache);
            base(s, n);
            return s;
        };
        t.bare = t.zero = one.H(Params());
        t.partner = [=] { return make(21); };
        int N = one.F.size();
        t.Qp = CM::Zero(N, N);
        for (int i = 0; i < N; ++i) t.Qp(i, i) = one.F[i].getN() == 21;
        t.angles = angles_of(t.real);
        for (auto &a : t.angles) t.rot[a.first] = rotator(one, a.second);
        C3 e{{70, 0, 90}}, b{{1e4, 0, 2e4}};
        if (!t.real) e[1] = -50, b[1] = 2e4;
        t.settings = {{"field E", {[=](Sys &s) { s.setEfield(e); }, [=](Params &p) { p.E = e; }}},
                      {"field B", {[=](Sys &s) { s.setBfield(b); }, [=](Params &p) { p.B = b; }}}};
        t.configure = [](Sys &s, Params const &p) {
            s.setEfield(p.E), s.setBfield(p.B);
        };
        t.others = {{"E", [](Sys &s) { s.setEfield({{1, 0, 3}}); }}, {"B", [](Sys &s) { s.setBfield({{1, 0, 3}}); }}, {"diamagnetism", [](Sys &s) { s.enableDiamagnetism(false); }},
                    {"ion", [](Sys &s) { s.setIonCharge(1), s.setRydIonOrder(1), s.setRydIonDistance(.5); }}, {"ion charge", [](Sys &s) { s.setIonCharge(2); }}, {"ion order", [](Sys &s) { s.setRydIonOrder(2); }},
                    {"ion distance", [](Sys &s) { s.setRydIonDistance(.5); }}};
        t.wanted = {{StateOne("Rb", 20, 0, .5, .5)}, {StateOne("Rb", 20, 1, 1.5, -.5), StateOne("Rb", 20, 1, .5, .5)}, {StateOne("Rb", 20, 1, ARB, .5)}, {StateOne("Rb", 21, 1, 1.5, 1.5)}, {StateOne("Rb", 20, 1, 1.5, ARB)}};
        t.closed = [](std::set<StateOne> const &s) {
            for (auto &x : s)
                for (float m = -x.getJ(); m <= x.getJ(); ++m)
                    if (!s.count(StateOne(x.getSpecies(), x.getN(), x.getL(), x.getJ(), m))) return false;
            return true;
        };
        t.alphabet();
        if (letter >= (int)t.letters.size()) return;
        typename decltype(t)::N n{make(20), {}, {}, {}, {}, {}};
        n.Q = n.Qu = CM::Identity(N, N) - t.Qp;
        n.O = n.bare = n.Q * t.bare;
        if (letter == 0 && mc::enter(name)) t.check(n, 0);
        t.walk(n, name, depth, 1, letter);
    };
    auto go_two = [&](auto tag, bool saving, bool dressed, std::string name, int letter) {
        using S = decltype(tag);
        using Sys = SystemTwo<S>;
        Transform<Sys, PairRef, PairParams> t(two, saving);
        PairParams root;
        if (dressed) {
            root.one.E = {{60, 0, 90}}, root.one.B = {{3e3, 0, -1e4}};
            if (!t.real) root.one.E[1] = 30;
        }
        auto make = [&cache, saving, base, root](int n) {
            SystemOne<S> x("Rb", cache), y("Cs", cache);
            base(x, 20), base(y, n, 0);
            for (auto s : {&x, &y}) {
                if (norm(root.one.E) > 0) s->setEfield(root.one.E);
                if (norm(root.one.B) > 0) s->setBfield(root.one.B);
            }
            return saving ? Sys(x, y, cache, true) : Sys(x, y, cache);
        };
        t.bare = t.zero = two.H(root);
        t.root = root;
        t.partner = [=] { return make(22); };
        int N = two.F.size();
        t.Qp = CM::Zero(N, N);
        for (int i = 0; i < N; ++i) t.Qp(i, i) = two.F[i].getN(1) == 22;
        t.bare = t.Qp * t.bare * t.Qp + (CM::Identity(N, N) - t.Qp) * t.bare * (CM::Identity(N, N) - t.Qp);
        t.angles = angles_of(t.real);
        for (auto &a : t.angles) t.rot[a.first] = kron(rotator(pa, a.second), rotator(pb, a.second));
        C3 v{{.5, 0, -.7}};
        t.settings = {{"distance", {[=](Sys &s) { s.setDistance(.9); }, [=](PairParams &p) { p.len = .9; }}},
                      {"angle", {[=](Sys &s) { s.setAngle(1.1); }, [=](PairParams &p) { p.dir = {{std::sin(1.1), 0, std::cos(1.1)}}; }}}};
        t.configure = [](Sys &s, PairParams const &p) {
            if (p.len != NOWHERE) s.setDistance(p.len);
            if (p.dir[0] != 0) s.setAngle(1.1);
        };
        t.others = {{"distance", [](Sys &s) { s.setDistance(.77); }}, {"angle", [](Sys &s) { s.setAngle(.3); }}, {"order", [](Sys &s) { s.setOrder(4); }}, {"tensor", [](Sys &s) { s.enableGreenTensor(true); }},
                    {"plate", [](Sys &s) { s.setDistance(.9), s.setSurfaceDistance(.9); }}};
        t.wanted = {{two.F[0]}, {two.F[3], two.F[5]}, {StateTwo({{"Rb", "Cs"}}, {{20, 21}}, {{1, 0}}, {{1.5, .5}}, {{ARB, ARB}})}};
        t.closed = [](std::set<StateTwo> const &s) {
            for (auto &x : s)
                for (float m = -x.getJ(0); m <= x.getJ(0); ++m)
                    for (float k = -x.getJ(1); k <= x.getJ(1); ++k)
                        if (!s.count(StateTwo({{"Rb", "Cs"}}, x.getN(), x.getL(), x.getJ(), {{m, k}}))) return false;
            return true;
        };
        t.alphabet();
        if (letter >= (int)t.letters.size()) return;
        typename decltype(t)::N n{make(21), root, {}, {}, {}, {}};
        n.Q = n.Qu = CM::Identity(N, N) - t.Qp;
        n.O = n.bare = n.Q * t.bare * n.Q;
        if (letter == 0 && mc::enter(name)) t.check(n, 0);
        t.walk(n, name, depth - 1, 1, letter);
    };
    // axes instead of angles: every pair of orthogonal axes with small whole components
    auto axes = [&] {
        SystemOne<cd> s("Rb", cache);
        base(s, 20);
        s.setEfield({{70, 20, 90}});
        s.diagonalize();
        std::vector<C3> v;
        int k = mc::tier(2, 4);
        for (int x = -k; x <= k; ++x)
            for (int y = -k; y <= k; ++y)
                for (int z = -k; z <= k; ++z)
                    if (x || y || z) v.push_back({{double(x), double(y), double(z)}});
        auto full = look<cd>(s, one);
        std::vector<std::pair<C3, C3>> pairs;
        for (auto &z : v)
            for (auto &y : v)
                if (z[0] * y[0] + z[1] * y[1] + z[2] * y[2] == 0) pairs.push_back({z, y});
        // axes from angles, orthogonal up to rounding
        for (int a = 0; a < 12; ++a)
            for (int b = 0; b < 12; ++b)
                for (int g = 0; g < 12; ++g) {
                    auto m = matrix({{a * .5235 + .01, b * .5235 - 2, g * .5235}});
                    pairs.push_back({{{m(0, 2), m(1, 2), m(2, 2)}}, {{m(0, 1), m(1, 1), m(2, 1)}}});
                }
        for (auto &pair : pairs) {
                auto &z = pair.first, &y = pair.second;
                if (!mc::enter(mc::cat("axes z ", z[0], ",", z[1], ",", z[2], " y ", y[0], ",", y[1], ",", y[2]))) continue;
                mc::R().evaluations++;
                SystemOne<cd> t(s);
                std::string what;
                if (refused([&] { t.rotate(z, y); }, &what)) {
                    mc::violation("orthogonal axes are refused", what);
                    continue;
                }
                // the new z-axis is the old direction z: a state along z in the new frame is the state along z before
                Eigen::Vector3d ez(z[0], z[1], z[2]), ey(y[0], y[1], y[2]);
                ez.normalize(), ey.normalize();
                Eigen::Matrix3d M;
                M << ey.cross(ez), ey, ez;
                // angles from the matrix, in the way of a textbook
                double beta = std::acos(std::max(-1., std::min(1., M(2, 2)))), alpha, gamma;
                if (std::abs(M(2, 2)) < 1 - 1e-12)
                    alpha = std::atan2(M(1, 2), M(0, 2)), gamma = std::atan2(M(2, 1), -M(2, 0));
                else
                    alpha = std::atan2(-M(0, 1), M(1, 1)), gamma = 0;
                if ((matrix({{alpha, beta, gamma}}) - M).cwiseAbs().maxCoeff() > 1e-9) {
                    fprintf(stderr, "oracle: angles\n");
                    exit(2);
                }
                auto U = rotator(one, {{alpha, beta, gamma}});
                auto got = look<cd>(t, one);
                CM P = U * full.B;
                // half-integer spins: up to the sign of a full turn
                if (std::min((got.B - P).cwiseAbs().maxCoeff(), (got.B + P).cwiseAbs().maxCoeff()) > 1e-9) mc::violation("rotation to axes is wrong");
                for (auto &f : {StateOne("Rb", 20, 1, 1.5, -.5), StateOne("Rb", 20, 0, .5, .5)}) {
                    CM e = CM::Zero(one.F.size(), 1);
                    e(one.index.at(f), 0) = 1;
                    Eigen::VectorXd want = (full.B.adjoint() * U * e).cwiseAbs2(), got = s.getOverlap(f, z, y);
                    if ((want - got).cwiseAbs().maxCoeff() > 1e-9) mc::violation("overlap in the frame of given axes is wrong");
                }
                mc::outcome(mc::cat(std::llround(std::abs(got.B.sum()) * 1e6)));
            }
    };
    // rotations about y in a system of real numbers
    auto plane = [&] {
        SystemOne<double> s("Rb", cache);
        base(s, 20);
        s.setEfield({{70, 0, 90}});
        s.diagonalize();
        auto full = look<double>(s, one);
        for (int x = -3; x <= 3; ++x)
            for (int z = -3; z <= 3; ++z) {
                if (!x && !z) continue;
                if (!mc::enter(mc::cat("axes in the plane ", x, ",", z))) continue;
                mc::R().evaluations++;
                auto t = s;
                std::string what;
                C3 az{{double(x), 0, double(z)}}, ay{{0, 1, 0}};
                if (refused([&] { t.rotate(az, ay); }, &what)) {
                    mc::violation("rotation about y is refused", what);
                    continue;
                }
                auto U = rotator(one, {{0, std::atan2(x, z), 0}});
                auto got = look<double>(t, one);
                CM P = U * full.B;
                if (std::min((got.B - P).cwiseAbs().maxCoeff(), (got.B + P).cwiseAbs().maxCoeff()) > 1e-9) mc::violation("rotation about y is wrong");
            }
    };
    int n = 20;
    mc::parallel(8 * n + 1, [&](int job) {
        int cfg = job / n, l = job % n;
        if (cfg == 0) go_one(0., false, "real", l);
        if (cfg == 1) go_one(0., true, "real saving", l);
        if (cfg == 2) go_one(cd(), false, "complex", l);
        if (cfg == 3) go_one(cd(), true, "complex saving", l);
        if (cfg == 4) go_two(0., false, false, "pair real", l);
        if (cfg == 5) go_two(cd(), false, false, "pair complex", l);
        if (cfg == 6) go_two(cd(), true, false, "pair complex saving", l);
        if (cfg == 7) go_two(cd(), false, true, "pair complex fields", l);
        if (cfg == 8) axes(), plane();
    });
    mc::info("depth", depth);
    return mc::finish();
}
