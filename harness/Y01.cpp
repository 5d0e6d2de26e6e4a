// Y01: all sequences of setting fields, ion and diamagnetism, building, diagonalising, restricting and copying, against
// the Hamiltonian of the present parameters computed directly on the kept states.
#include "history.hpp"

template <class Sys>
void letters(Run<Sys, OneRef, Params> &run) {
    bool real = run.is_real;
    auto efield = [&](std::string name, C3 v) {
        run.parameter(name, [=](Sys &s) { s.setEfield(v); }, [=](Params &p) { p.E = v; }, [=](Params const &) { return real && v[1] != 0; });
    };
    auto bfield = [&](std::string name, C3 v) {
        run.parameter(name, [=](Sys &s) { s.setBfield(v); }, [=](Params &p) { p.B = v; }, [=](Params const &) { return real && v[1] != 0; });
    };
    efield("E=0", {{0, 0, 0}});
    efield("E=z", {{0, 0, 150}});
    efield("E=xz", {{120, 0, -90}});
    efield("E=xyz", {{-80, 110, 60}});
    bfield("B=0", {{0, 0, 0}});
    bfield("B=z", {{0, 0, 2e4}});
    bfield("B=x", {{1.5e4, 0, 0}});
    bfield("B=xyz", {{1e4, -2e4, 1.3e4}});
    for (bool on : {false, true})
        run.parameter(on ? "dia on" : "dia off", [=](Sys &s) { s.enableDiamagnetism(on); }, [=](Params &p) { p.dia = on; });
    for (int q : {0, 1, -2})
        run.parameter(mc::cat("charge ", q), [=](Sys &s) { s.setIonCharge(q); }, [=](Params &p) { p.charge = q; });
    for (unsigned o : {1u, 3u})
        run.parameter(mc::cat("order ", o), [=](Sys &s) { s.setRydIonOrder(o); }, [=](Params &p) { p.order = o; });
    for (double d : {.3, .5})
        run.parameter(mc::cat("distance ", d), [=](Sys &s) { s.setRydIonDistance(d); }, [=](Params &p) { p.dist = d; });
    auto &ref = run.ref;
    run.common(-12000, -10100, [&ref](int i) { return ref.F[i].getEnergy(); });
    run.restriction("restrict n", [](Sys &s) { s.restrictN(20, 20); }, [](StateOne const &x) { return x.getN() == 20; });
    run.restriction("restrict l", [](Sys &s) { s.restrictL(std::set<int>{0, 1}); }, [](StateOne const &x) { return x.getL() <= 1; });
    run.restriction("restrict j", [](Sys &s) { s.restrictJ(.5, .5); }, [](StateOne const &x) { return x.getJ() == .5; });
    run.restriction("restrict m", [](Sys &s) { s.restrictM(-.5, .5); }, [](StateOne const &x) { return std::abs(x.getM()) == .5; });
}

int main() {
    MatrixElementCache cache;
    auto init = [&](auto &s) {
        s.restrictN(20, 21);
        s.restrictL(0, 2);
        s.restrictJ(.5, 1.5);
    };
    SystemOne<double> all("Rb", cache);
    init(all);
    OneRef ref("Rb", all.getStates(), cache, 2);
    // all matrix elements needed, computed once
    SystemOne<std::complex<double>> warm("Rb", cache);
    init(warm);
    warm.setEfield({{1, 1, 1}}), warm.setBfield({{1, 1, 1}}), warm.setIonCharge(1), warm.setRydIonOrder(3), warm.setRydIonDistance(1);
    warm.buildHamiltonian();
    int depth = mc::tier(3, 4), deep = mc::tier(4, 5);
    std::set<std::string> core{"E=0", "E=xz", "B=xyz", "B=x", "dia off", "charge 1", "order 1", "interaction", "hamiltonian", "diagonalize", "canonicalize",
                               "restrict m", "restrict energy", "constrain", "copy"};
    Run<SystemOne<double>, OneRef, Params> probe(ref, false);
    letters(probe);
    int n = probe.letters.size();
    auto go = [&](auto tag, bool saving, std::string name, int letter, bool ion) {
        using S = decltype(tag);
        Run<SystemOne<S>, OneRef, Params> run(ref, saving);
        letters(run);
        History<SystemOne<S>, Params> root{saving ? SystemOne<S>("Rb", cache, true) : SystemOne<S>("Rb", cache), {}, {}, {}};
        init(root.s);
        if (ion) { // the smaller alphabet, deeper, from a system beside an ion
            run.core = core;
            if (!core.count(run.letters[letter].name)) return;
            root.p.charge = -1, root.p.order = 3, root.p.dist = .3, root.p.E = {{0, 0, 150}};
            root.s.setIonCharge(-1), root.s.setRydIonOrder(3), root.s.setRydIonDistance(.3), root.s.setEfield({{0, 0, 150}});
            root.dirty = true;
        }
        for (size_t i = 0; i < ref.F.size(); ++i) root.kept.insert(i);
        if (letter == 0 && mc::enter(name)) run.check(root, name);
        run.walk(root, name, ion ? deep : depth, letter);
    };
    mc::parallel(8 * n, [&](int job) {
        int cfg = job / n, l = job % n;
        bool ion = cfg < 4;
        std::string x = ion ? " ion" : "";
        if (cfg % 4 == 0) go(0., false, "real" + x, l, ion);
        if (cfg % 4 == 1) go(0., true, "real saving" + x, l, ion);
        if (cfg % 4 == 2) go(std::complex<double>(), false, "complex" + x, l, ion);
        if (cfg % 4 == 3) go(std::complex<double>(), true, "complex saving" + x, l, ion);
    });
    mc::info("letters", n);
    mc::info("depth", depth);
    return mc::finish();
}
