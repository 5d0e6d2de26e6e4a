// All histories of one real system object (one-atom or pair), each node continued on a copy of its parent, compared
// after every step with a dense model: the Hamiltonian of the present parameters on all states, the states kept by the
// restrictions, and (after dressed vectors were selected) the projector onto the selected space.
#ifndef VERIF_HISTORY_HPP
#define VERIF_HISTORY_HPP
#include "sysone.hpp"

template <class Sys, class Par>
struct History {
    Sys s;
    Par p;
    std::set<int> kept;    // states allowed by the restrictions
    CM Q;                  // projector onto the space kept (set once vectors were selected)
    bool selected = false; // dressed vectors were selected: later changes may be refused
    bool contained = false, dirty = false, diagonal = false, mixed = false;
    bool off = false;      // the interaction cannot be built with the present parameters
};

template <class Sys, class Ref, class Par>
struct Run {
    using N = History<Sys, Par>;
    using Scalar = typename Sys::Scalar;
    using State = typename std::decay<decltype(std::declval<Ref>().F[0])>::type;
    Ref &ref;
    bool saving;
    double TOL = 2e-6;
    bool dressed = false; // the undiagonalised basis is mixed already (pairs of dressed atoms)
    struct L {
        std::string name;
        std::function<bool(N &)> f; // false: the branch ends without a claim
    };
    std::vector<L> letters;
    std::set<std::string> core;
    bool is_real = std::is_same<Scalar, double>::value;
    // a combination of parameters that has to be refused when the Hamiltonian is built
    std::function<bool(N const &)> unbuildable = [](N const &) { return false; };
    // a combination that may be refused (no claim)
    std::function<bool(N const &)> unclear = [](N const &) { return false; };
    Run(Ref &r, bool saving) : ref(r), saving(saving) {}

    // a parameter change: refused only when it cannot be honoured
    bool change(N &n, std::function<void()> const &call, std::function<void(Par &)> const &model, bool impossible = false) {
        std::string what;
        bool no = refused(call, &what);
        bool may = n.contained && (saving || n.selected);
        if (impossible && !no) mc::violation("impossible setting accepted");
        if (no && !may && !impossible) mc::violation("parameter change refused", what);
        if (!no && !impossible) {
            model(n.p);
            n.dirty = true;
        }
        return true;
    }
    void built(N &n) { // the model's view of a completed build
        if (n.dirty) n.contained = true, n.dirty = false, n.diagonal = false, n.mixed = false;
    }
    void add(std::string name, std::function<bool(N &)> f) { letters.push_back({name, f}); }
    void parameter(std::string name, std::function<void(Sys &)> call, std::function<void(Par &)> model, std::function<bool(Par const &)> impossible = nullptr) {
        add(name, [=](N &n) { return change(n, [&] { call(n.s); }, model, impossible && impossible(n.p)); });
    }
    // a build that has to fail if the parameters exclude each other, and to succeed otherwise
    bool build(N &n, std::function<void()> const &call) {
        if (unclear(n)) return false;
        if (!unbuildable(n)) {
            call();
            built(n);
            return true;
        }
        if (n.dirty && !refused(call)) mc::violation("parameters that exclude each other are accepted");
        return false;
    }
    void restriction(std::string name, std::function<void(Sys &)> call, std::function<bool(State const &)> keep) {
        add(name, [=](N &n) {
            if (n.selected || (n.mixed && !n.dirty)) return false; // cutting states out of mixed vectors: no claim
            if (n.dirty) n.mixed = n.diagonal = false;             // a pending change resets the basis
            call(n.s);
            for (auto i = n.kept.begin(); i != n.kept.end();) i = keep(ref.F[*i]) ? std::next(i) : n.kept.erase(i);
            return !n.kept.empty();
        });
    }
    void common(double lo, double hi, std::function<double(int)> energy) {
        add("interaction", [=](N &n) { 
            if (unclear(n)) return false;
            if (!unbuildable(n)) return n.s.buildInteraction(), true;
            (void)refused([&] { n.s.buildInteraction(); });
            return true;
        });
        add("hamiltonian", [=](N &n) { return build(n, [&] { n.s.buildHamiltonian(); }); });
        add("diagonalize", [=](N &n) {
            if (!build(n, [&] { n.s.diagonalize(); })) return false;
            n.diagonal = n.mixed = true;
            return true;
        });
        add("canonicalize", [=](N &n) {
            if (!build(n, [&] { n.s.canonicalize(); })) return false;
            n.diagonal = false, n.mixed = true;
            return !n.selected;
        });
        if (lo < hi)
            add("restrict energy", [=](N &n) {
                if (n.selected && !(n.diagonal && !n.dirty)) return false;
                if (!n.diagonal || n.dirty) {
                    if (n.dirty) n.mixed = n.diagonal = false;
                    if (n.mixed || dressed) return false;
                    n.s.restrictEnergy(lo, hi);
                    for (auto i = n.kept.begin(); i != n.kept.end();) {
                        double e = energy(*i);
                        i = e > lo && e < hi ? std::next(i) : n.kept.erase(i);
                    }
                    return !n.kept.empty();
                }
                // dressed vectors are selected by their energy
                n.s.setMinimalNorm(0);
                auto before = look<Scalar>(n.s, ref);
                std::vector<int> cols;
                for (int i = 0; i < before.H.rows(); ++i)
                    if (before.H(i, i).real() > lo && before.H(i, i).real() < hi) cols.push_back(i);
                if (cols.empty()) return false;
                n.s.restrictEnergy(lo, hi);
                n.s.buildBasis();
                return select(n, before, cols);
            });
        add("constrain", [=](N &n) {
            if (unclear(n) || unbuildable(n)) return false;
            auto before = look<Scalar>(n.s, ref);
            built(n);
            std::vector<int> cols;
            std::vector<size_t> idx;
            for (int i = before.B.cols() - 1; i >= 0; i -= 2) cols.push_back(i), idx.push_back(i);
            if (cols.empty()) return false;
            n.s.constrainBasisvectors(idx);
            return select(n, before, cols);
        });
        add("copy", [=](N &n) {
            if (unclear(n) || unbuildable(n)) return false;
            Sys c(n.s);
            n.s.buildHamiltonian(); // the copy does not follow its original
            n.s = c;
            return true;
        });
    }
    bool select(N &n, Seen<Scalar> const &before, std::vector<int> const &cols) {
        n.Q = CM::Zero(ref.F.size(), ref.F.size());
        for (int c : cols) n.Q += before.B.col(c) * before.B.col(c).adjoint();
        n.selected = true;
        n.mixed = true;
        return true;
    }
    void check(N const &orig, std::string const &label) {
        N n(orig);
        auto &r = mc::R();
        r.evaluations++;
        if (unclear(n)) return;
        if (unbuildable(n)) {
            if (n.dirty && !refused([&] { n.s.buildHamiltonian(); })) mc::violation("parameters that exclude each other are accepted");
            return;
        }
        auto v = look<Scalar>(n.s, ref);
        built(n);
        if (!v.bad.empty()) return mc::violation("system is inconsistent", v.bad);
        auto &h = ref.H(n.p);
        double scale = std::max(spread(h), 1e-3);
        int N_ = ref.F.size();
        CM Q = CM::Zero(N_, N_);
        if (n.selected)
            Q = n.Q;
        else
            for (int i : n.kept) Q(i, i) = 1;
        CM I = v.B.adjoint() * v.B;
        if ((I - CM::Identity(I.rows(), I.cols())).cwiseAbs().maxCoeff() > 1e-9) mc::violation("basis vectors are not orthonormal", label);
        if ((v.B * v.B.adjoint() - Q).cwiseAbs().maxCoeff() > 1e-9)
            mc::violation("basis is not the one of the present restrictions", mc::cat(v.rows.size(), " states, ", v.B.cols(), " vectors, ", Q.trace().real(), " expected"));
        if ((v.H - v.H.adjoint()).cwiseAbs().maxCoeff() > 1e-9 * std::max(1., scale)) mc::violation("Hamiltonian is not Hermitian", "");
        CM want = v.B.adjoint() * h * v.B;
        double d = (v.H - want).cwiseAbs().maxCoeff(), rounding = 1e-14 * h.diagonal().cwiseAbs().maxCoeff() * h.rows();
        if (!(d <= TOL * scale + rounding)) {
            Eigen::Index a, b;
            (v.H - want).cwiseAbs().maxCoeff(&a, &b);
            mc::violation("Hamiltonian is not the one of the present parameters", mc::cat("entry ", a, ",", b, ": ", v.H(a, b), " instead of ", want(a, b), " scale ", scale));
        }
        if (n.diagonal && spread(v.H) > 1e-9 * std::max(1., std::abs(v.H(0, 0)))) mc::violation("Hamiltonian is not diagonal after diagonalize", "");
        if (!n.mixed && !n.selected && !dressed)
            for (int c = 0; c < v.B.cols(); ++c)
                if (std::abs(v.B.col(c).cwiseAbs().maxCoeff() - 1) > 1e-9) {
                    mc::violation("basis vectors of an undiagonalised system are mixed", "");
                    break;
                }
        double sum = v.H.trace().real();
        mc::outcome(mc::cat(std::llround(sum), " ", v.H.rows(), " ", std::llround(v.H.norm() * 100), " ", std::llround(spread(v.H) * 1e5)));
    }
    void walk(N const &n, std::string const &label, int depth, int first = -1) {
        for (size_t i = 0; i < letters.size(); ++i) {
            if (first >= 0 && (int)i != first) continue;
            if (!core.empty() && !core.count(letters[i].name)) continue;
            std::string l = label + " ; " + letters[i].name;
            auto &r = mc::R();
            if (r.has_only && r.only.compare(0, l.size(), l) != 0) continue;
            r.label = l;
            if (r.cur) snprintf(r.cur, 8000, "%s", l.c_str());
            r.states++, r.transitions++;
            N c(n);
            auto before = r.violations.size();
            std::string what;
            bool go = false;
            if (refused([&] { go = letters[i].f(c); }, &what)) mc::violation("operation fails", what), go = false;
            if (go && refused([&] { check(c, l); }, &what)) mc::violation("Hamiltonian cannot be obtained", what);
            if (go && before == r.violations.size() && depth > 1)
                walk(c, l, depth - 1);
            else
                r.traces++;
        }
    }
};
#endif
