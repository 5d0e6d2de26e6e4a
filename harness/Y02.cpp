// Y02: pair systems. (a) all configurations of distance vector, order, Green tensor, plate and fields on their own, (b) all
// sequences of changing them, building, diagonalising, restricting and copying, against the Coulomb interaction of the
// present parameters expanded numerically.
#include "history.hpp"
#include "systwo.hpp"

using Hist = Run<SystemTwo<double>, PairRef, PairParams>;
template <class Sys>
void rules(Run<Sys, PairRef, PairParams> &run) {
    auto &ref = run.ref;
    bool real = run.is_real;
    using N = History<Sys, PairParams>;
    run.unbuildable = [&ref, real](N const &n) {
        auto &p = n.p;
        if (p.len == NOWHERE) return false;
        auto v = p.v();
        bool on = p.gt || p.sticky;
        if (!on && (v[1] != 0 || (v[0] != 0 && p.order > 3))) return true;
        if (on && p.order > 4) return true;
        if (p.plate() && (v[1] != 0 || p.surf < std::abs(v[2]) / 2)) return true;
        if (!real || v[1] == 0) return false;
        auto &h = ref.H(p);
        double d = 1e-9 * spread(h);
        for (int i : n.kept)
            for (int k : n.kept)
                if (std::abs(h(i, k).imag()) > d) return true;
        return false;
    };
    run.unclear = [](N const &n) {
        auto &p = n.p; // the Green tensor was switched on by an earlier setting, not by the user
        return p.len != NOWHERE && p.sticky && !p.gt && p.order > 4;
    };
}
template <class Sys>
void letters(Run<Sys, PairRef, PairParams> &run) {
    rules(run);
    for (double d : {.8, 1.1})
        run.parameter(mc::cat("distance ", d), [=](Sys &s) { s.setDistance(d); }, [=](PairParams &p) { p.len = d; });
    for (double a : {0., 1.1})
        run.parameter(mc::cat("angle ", a), [=](Sys &s) { s.setAngle(a); }, [=](PairParams &p) { p.dir = {{std::sin(a), 0, std::cos(a)}}; });
    auto vec = [&](std::string name, C3 v) {
        run.parameter(name, [=](Sys &s) { s.setDistanceVector(v); }, [=](PairParams &p) {
            p.len = norm(v);
            for (int i = 0; i < 3; ++i) p.dir[i] = v[i] / p.len;
            if (v[1] != 0) p.sticky = true;
        });
    };
    vec("vector -z", {{0, 0, -.9}});
    vec("vector xz", {{.5, 0, -.7}});
    vec("vector xyz", {{-.4, .6, .5}});
    for (unsigned o : {3u, 4u, 5u})
        run.parameter(mc::cat("order ", o), [=](Sys &s) { s.setOrder(o); }, [=](PairParams &p) { p.order = o; });
    for (bool on : {true, false})
        run.parameter(on ? "tensor on" : "tensor off", [=](Sys &s) { s.enableGreenTensor(on); }, [=](PairParams &p) { p.gt = on, p.sticky = false; },
                      [=](PairParams const &p) { return !on && p.plate(); });
    for (double d : {.8, NOWHERE})
        run.parameter(d == NOWHERE ? "no plate" : "plate", [=](Sys &s) { s.setSurfaceDistance(d); }, [=](PairParams &p) {
            p.surf = d;
            if (d != NOWHERE) p.sticky = true;
        });
    auto &ref = run.ref;
    double lo = ref.e0.minCoeff(), hi = ref.e0.maxCoeff();
    run.common(lo + .1 * (hi - lo), lo + .8 * (hi - lo), [&ref](int i) { return ref.e0[i]; });
    if (run.dressed) return;
    run.restriction("restrict l", [](Sys &s) { s.restrictL(std::set<int>{1}); }, [](StateTwo const &x) { return x.getL(0) == 1 && x.getL(1) == 1; });
    run.restriction("restrict m", [](Sys &s) { s.restrictM(-.5, .5); }, [](StateTwo const &x) { return std::abs(x.getM(0)) == .5 && std::abs(x.getM(1)) == .5; });
}

int main() {
    MatrixElementCache cache;
    auto init = [&](auto &s, bool small) {
        if (s.getSpecies() == "Rb") s.restrictN(20, 20); else s.restrictN(21, 21);
        if (small) s.restrictL(0, 1); else s.restrictL(0, 2);
        s.restrictJ(.5, 1.5);
        if (small) s.restrictM(-.5, 1.5);
    };
    auto reference = [&](std::string sp, bool small) {
        SystemOne<double> all(sp, cache);
        init(all, small);
        return OneRef(sp, all.getStates(), cache, 2);
    };
    OneRef a0 = reference("Rb", true), b0 = reference("Cs", true), a1 = reference("Rb", false), b1 = reference("Cs", false);
    PairRef small(a0, b0), big(a1, b1);
    { // all matrix elements needed, computed once
        SystemOne<std::complex<double>> x("Rb", cache), y("Cs", cache);
        init(x, false), init(y, false);
        x.setEfield({{1, 1, 1}}), x.setBfield({{1, 1, 1}}), y.setEfield({{1, 1, 1}}), y.setBfield({{1, 1, 1}});
        for (auto s : {&x, &y}) {
            s->buildHamiltonian();
            for (int k = 0; k <= 3; ++k) cache.precalculateMultipole(s->getStates(), k);
        }
    }
    Params fields;
    fields.E = {{60, 0, 90}}, fields.B = {{3e3, 0, -1e4}};
    auto root = [&](auto tag, bool saving, bool dressed, bool is_small) {
        using S = decltype(tag);
        SystemOne<S> x("Rb", cache), y("Cs", cache);
        init(x, is_small), init(y, is_small);
        History<SystemTwo<S>, PairParams> n{SystemTwo<S>(x, y, cache), {}, {}, {}};
        if (dressed) {
            n.p.one = fields;
            x.setEfield(fields.E), x.setBfield(fields.B), y.setEfield(fields.E), y.setBfield(fields.B);
        }
        n.s = saving ? SystemTwo<S>(x, y, cache, true) : SystemTwo<S>(x, y, cache);
        auto &ref = is_small ? small : big;
        for (size_t i = 0; i < ref.F.size(); ++i) n.kept.insert(i);
        n.dirty = true;
        return n;
    };
    int depth = mc::tier(3, 4), deep = mc::tier(4, 5);
    std::set<std::string> core{"distance 0.80000000000000004", "vector -z", "vector xz", "vector xyz", "order 4", "tensor off", "no plate", "interaction", "hamiltonian", "diagonalize",
                               "restrict m", "constrain", "copy"};
    Hist probe(small, false);
    letters(probe);
    int n = probe.letters.size();
    auto go = [&](auto tag, bool saving, bool dressed, std::string name, int letter, bool plate = false) {
        using S = decltype(tag);
        Run<SystemTwo<S>, PairRef, PairParams> run(small, saving);
        run.dressed = dressed;
        letters(run);
        if (letter >= (int)run.letters.size()) return;
        auto r = root(tag, saving, dressed, true);
        if (plate) { // the smaller alphabet, deeper, from a pair beside a plate
            run.core = core;
            if (!core.count(run.letters[letter].name)) return;
            r.p.len = .8, r.p.order = 4, r.p.sticky = true, r.p.surf = .8;
            r.s.setDistance(.8), r.s.setOrder(4), r.s.setSurfaceDistance(.8);
        }
        if (letter == 0 && mc::enter(name)) run.check(r, name);
        run.walk(r, name, plate ? deep : dressed ? depth - 1 : depth, letter);
    };
    auto single = [&](auto tag, bool dressed, int v) {
        using S = decltype(tag);
        using Sys = SystemTwo<S>;
        std::vector<C3> vs{{{0, 0, .9}}, {{0, 0, -.9}}, {{.9, 0, 0}}, {{-.9, 0, 0}}, {{0, .9, 0}}, {{0, -.9, 0}}, {{.5, 0, .7}}, {{-.5, 0, .7}}, {{.5, 0, -.7}},
                           {{0, .6, .7}}, {{.5, .6, 0}}, {{.4, .5, .6}}, {{-.4, .5, .6}}, {{.4, -.5, .6}}, {{.4, .5, -.6}}};
        if (v >= (int)vs.size()) return;
        Run<Sys, PairRef, PairParams> run(big, false);
        run.dressed = dressed;
        rules(run);
        auto r = root(tag, false, dressed, false);
        for (unsigned o : {3u, 4u, 5u})
            for (bool gt : {false, true})
                for (double d : {NOWHERE, .6, 2.}) {
                    auto label = mc::cat(run.is_real ? "real" : "complex", dressed ? " fields" : "", " vector ", vs[v][0], ",", vs[v][1], ",", vs[v][2], " order ", o,
                                         gt ? " tensor" : "", d == NOWHERE ? std::string() : mc::cat(" plate ", d));
                    if (!mc::enter(label)) continue;
                    auto x = r;
                    x.s.setDistanceVector(vs[v]), x.s.setOrder(o);
                    if (gt) x.s.enableGreenTensor(true);
                    if (d != NOWHERE) x.s.setSurfaceDistance(d);
                    x.p.len = norm(vs[v]), x.p.order = o, x.p.gt = gt, x.p.surf = d;
                    x.p.sticky = vs[v][1] != 0 || d != NOWHERE;
                    for (int i = 0; i < 3; ++i) x.p.dir[i] = vs[v][i] / x.p.len;
                    std::string what;
                    if (refused([&] { run.check(x, label); }, &what)) mc::violation("Hamiltonian cannot be obtained", what);
                }
    };
    mc::parallel(10 * n, [&](int job) {
        int cfg = job / n, l = job % n;
        if (cfg == 0) go(0., false, false, "real", l);
        if (cfg == 1) go(0., true, false, "real saving", l);
        if (cfg == 2) go(std::complex<double>(), false, false, "complex", l);
        if (cfg == 3) go(std::complex<double>(), false, true, "complex fields", l);
        if (cfg == 4) single(0., false, l);
        if (cfg == 5) single(0., true, l);
        if (cfg == 6) single(std::complex<double>(), false, l);
        if (cfg == 8) go(0., false, false, "real plate", l, true);
        if (cfg == 9) go(std::complex<double>(), false, false, "complex plate", l, true);
        if (cfg == 7) single(std::complex<double>(), true, l);
    });
    mc::info("letters", n);
    mc::info("depth", depth);
    return mc::finish();
}
