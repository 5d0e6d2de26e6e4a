// Y06: all sequences of setting, adding to and reading entries of the Hamiltonian between states, and of changing the
// basis it is expressed in, for one-atom and pair systems, against the dense matrix of entries.
#include "systwo.hpp"

using cd = std::complex<double>;
template <class S>
S scalar(cd v);
template <>
double scalar<double>(cd v) { return v.real(); }
template <>
cd scalar<cd>(cd v) { return v; }

template <class Sys, class State>
struct Edit {
    using S = typename Sys::Scalar;
    struct N {
        Sys s;
        CM G; // entries between the states
    };
    struct L {
        std::string name;
        std::function<void(N &)> f;
    };
    std::vector<State> F;
    std::vector<L> letters;
    CM full(Sys &s, bool &ok) { // B H B^dagger in the order of F
        CM h(Eigen::Matrix<S, -1, -1>(s.getHamiltonian()).template cast<cd>()), b(Eigen::Matrix<S, -1, -1>(s.getBasisvectors()).template cast<cd>());
        auto st = s.getStates();
        ok = st == F && b.rows() == (int)F.size() && b.cols() == b.rows() && h.rows() == b.cols();
        return ok ? CM(b * h * b.adjoint()) : CM();
    }
    Edit(Sys &root, bool few) : F(root.getStates()) {
        bool real = std::is_same<S, double>::value;
        std::vector<cd> values = {{3.5, real ? 0 : -1.25}, {-.5, real ? 0 : 2}};
        int n = F.size();
        for (int r = 0; r < n; ++r)
            for (int c = 0; c < n; ++c) {
                if (few && (r * n + c) % 3 == 1 && r != c) continue;
                for (size_t k = 0; k < values.size(); ++k) {
                    cd v = r == c ? cd(values[k].real()) : values[k];
                    if (k == 0)
                        letters.push_back({mc::cat("set ", r, ",", c), [=](N &x) {
                                               x.s.setHamiltonianEntry(F[r], F[c], scalar<S>(v));
                                               x.G(r, c) = v, x.G(c, r) = std::conj(v);
                                           }});
                    else
                        letters.push_back({mc::cat("add ", r, ",", c), [=](N &x) {
                                               x.s.addHamiltonianEntry(F[r], F[c], scalar<S>(v));
                                               x.G(r, c) += v;
                                               if (r != c) x.G(c, r) += std::conj(v);
                                           }});
                }
                if (r != c && c == r + 1)
                    letters.push_back({mc::cat("clear ", r, ",", c), [=](N &x) {
                                           x.s.setHamiltonianEntry(F[r], F[c], 0);
                                           x.G(r, c) = x.G(c, r) = 0;
                                       }});
            }
        letters.push_back({"build", [](N &x) { x.s.buildHamiltonian(); }});
        letters.push_back({"diagonalize", [](N &x) { x.s.diagonalize(); }});
        letters.push_back({"canonicalize", [](N &x) { x.s.canonicalize(); }});
        letters.push_back({"copy", [](N &x) {
                               Sys c(x.s);
                               x.s.setHamiltonianEntry(x.s.getStates()[0], x.s.getStates()[1], 17);
                               x.s = c;
                           }});
    }
    void check(N const &orig) {
        mc::R().evaluations++;
        N n(orig);
        int N_ = F.size();
        double scale = std::max(1e-3, spread(n.G));
        double tol = 1e-10 * scale + 1e-13 * n.G.cwiseAbs().maxCoeff();
        bool ok = true;
        for (int r = 0; r < N_; ++r)
            for (int c = 0; c < N_; ++c) {
                cd v = n.s.getHamiltonianEntry(F[r], F[c]);
                if (std::abs(v - n.G(r, c)) > tol && ok) ok = false, mc::violation("entry read back is wrong", mc::cat(r, ",", c, ": ", v, " instead of ", n.G(r, c)));
            }
        bool fits = true;
        CM g = full(n.s, fits);
        if (!fits) return mc::violation("states or basis have changed", "");
        if ((g - n.G).cwiseAbs().maxCoeff() > tol) mc::violation("Hamiltonian has not the entries set", mc::cat("off by ", (g - n.G).cwiseAbs().maxCoeff()));
        CM h(Eigen::Matrix<S, -1, -1>(n.s.getHamiltonian()).template cast<cd>());
        if ((h - h.adjoint()).cwiseAbs().maxCoeff() > tol) mc::violation("Hamiltonian is not Hermitian", "");
        mc::outcome(mc::cat(std::llround(g.norm() * 1e3), " ", std::llround((h - CM(h.diagonal().asDiagonal())).norm() * 1e3)));
    }
    void walk(N const &n, std::string const &label, int depth, int first = -1) {
        for (size_t i = 0; i < letters.size(); ++i) {
            if (first >= 0 && (int)i != first) continue;
            std::string l = label + " ; " + letters[i].name;
            auto &r = mc::R();
            if (r.has_only && r.only.compare(0, l.size(), l) != 0) continue;
            r.label = l;
            if (r.cur) snprintf(r.cur, 8000, "%s", l.c_str());
            r.states++, r.transitions++;
            N c(n);
            auto before = r.violations.size();
            std::string what;
            if (refused([&] { letters[i].f(c), check(c); }, &what)) mc::violation("operation fails", what);
            if (before == r.violations.size() && depth > 1) walk(c, l, depth - 1); else r.traces++;
        }
    }
    void go(Sys const &root, std::string const &name, int depth, int letter) {
        if (letter >= (int)letters.size()) return;
        N n{root, {}};
        bool ok;
        n.G = full(n.s, ok);
        if (letter == 0 && mc::enter(name)) {
            if (!ok) return mc::violation("system is inconsistent", "");
            check(n);
        }
        n.s = root;
        walk(n, name, depth, letter);
    }
};

int main() {
    MatrixElementCache cache;
    auto init = [&](auto &s, float jmax, bool xfield) {
        s.restrictN(20, 20), s.restrictL(0, 1), s.restrictJ(.5, jmax);
        if (jmax > 1) s.restrictM(.5, 1.5);
        s.setEfield({{xfield ? 150. : 0., 0, 200}});
        s.setBfield({{0, 0, 1e4}});
    };
    int depth = mc::tier(3, 3), deep = mc::tier(2, 3);
    mc::parallel(6 * 64, [&](int job) {
        int cfg = job / 64, l = job % 64;
        auto one = [&](auto tag, std::string name) {
            using Sys = SystemOne<decltype(tag)>;
            Sys s("Rb", cache);
            init(s, .5, true);
            Sys probe(s);
            if (name.find("mixed") != std::string::npos) {
                s.diagonalize();
                probe = s;
            }
            Edit<Sys, StateOne> e(probe, false);
            e.go(s, name, depth, l);
        };
        auto two = [&](auto tag, std::string name) {
            using S = decltype(tag);
            SystemOne<S> a("Rb", cache), b("Rb", cache);
            init(a, .5, true), init(b, .5, false);
            a.restrictM(.5, .5), b.restrictM(-.5, -.5);
            SystemTwo<S> s(a, b, cache);
            s.setDistanceVector({{1, 0, .5}});
            SystemTwo<S> probe(s);
            Edit<SystemTwo<S>, StateTwo> e(probe, true);
            e.go(s, name, deep, l);
        };
        if (cfg == 0) one(0., "real");
        if (cfg == 1) one(cd(), "complex");
        if (cfg == 2) one(0., "real mixed");
        if (cfg == 3) one(cd(), "complex mixed");
        if (cfg == 4) two(0., "real pair");
        if (cfg == 5) two(cd(), "complex pair");
    });
    mc::info("depth", depth);
    return mc::finish();
}
