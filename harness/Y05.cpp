// Y05: every history of a system up to a depth is followed by storing and reloading; the reloaded system has to look the
// same and to answer every further history up to a depth like the original, which storing must not change. Reloading is
// done as by the Python interface: into a fresh system on a cache of its own.
#include "systwo.hpp"
#include "SystemTwo.hpp"
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <sstream>
using cd = std::complex<double>;

template <class Sys>
struct Look {
    std::string bad;
    std::vector<std::string> states;
    CM P, O, B, H;
    double scale = 0;
};
template <class Sys>
Look<Sys> see(Sys const &orig) { // never touches the system itself
    using S = typename Sys::Scalar;
    Sys s(orig);
    Look<Sys> r;
    if (refused([&] {
            r.H = CM(Eigen::Matrix<S, -1, -1>(s.getHamiltonian()).template cast<cd>());
            r.B = CM(Eigen::Matrix<S, -1, -1>(s.getBasisvectors()).template cast<cd>());
            for (auto &x : s.getStates()) {
                std::ostringstream o;
                o << x;
                r.states.push_back(o.str());
            }
        }, &r.bad))
        return r;
    if (r.bad.empty() && (r.B.rows() != (int)r.states.size() || r.B.cols() != r.H.rows())) {
        r.bad = "sizes do not fit";
        return r;
    }
    r.P = r.B * r.B.adjoint(), r.O = r.B * r.H * r.B.adjoint();
    r.scale = r.H.size() ? r.H.cwiseAbs().maxCoeff() : 0;
    return r;
}
template <class Sys>
std::string differ(Look<Sys> const &a, Look<Sys> const &b, double rel) {
    if (a.bad != b.bad) return "one cannot be evaluated: '" + a.bad + "' / '" + b.bad + "'";
    if (!a.bad.empty()) return "";
    if (a.states != b.states) return mc::cat("states: ", a.states.size(), " and ", b.states.size());
    if (a.B.cols() != b.B.cols()) return mc::cat("number of vectors: ", a.B.cols(), " and ", b.B.cols());
    if (a.P.size() == 0) return "";
    double p = (a.P - b.P).cwiseAbs().maxCoeff(), o = (a.O - b.O).cwiseAbs().maxCoeff();
    if (!(p <= 1e-7)) return mc::cat("spaces differ by ", p);
    if (!(o <= rel * a.scale + 1e-12)) return mc::cat("Hamiltonians differ by ", o, " of ", a.scale);
    return "";
}

template <class Sys>
struct Loaded {
    std::shared_ptr<MatrixElementCache> cache;
    std::shared_ptr<Sys> s;
};
template <class S>
Loaded<SystemOne<S>> blank(SystemOne<S> const *) {
    Loaded<SystemOne<S>> r{std::make_shared<MatrixElementCache>(), nullptr};
    r.s = std::make_shared<SystemOne<S>>("", *r.cache);
    return r;
}
template <class S>
Loaded<SystemTwo<S>> blank(SystemTwo<S> const *) {
    Loaded<SystemTwo<S>> r{std::make_shared<MatrixElementCache>(), nullptr};
    SystemOne<S> a("", *r.cache), b("", *r.cache);
    r.s = std::make_shared<SystemTwo<S>>(a, b, *r.cache);
    return r;
}
template <class Sys, class In, class Out>
Loaded<Sys> reload(Sys &s) {
    std::stringstream ss;
    {
        Out ar(ss);
        ar << cereal::make_nvp("system", s);
    }
    auto r = blank((Sys *)nullptr);
    {
        In ar(ss);
        ar >> cereal::make_nvp("system", *r.s);
    }
    return r;
}

template <class Sys>
struct Life {
    std::string name;
    std::vector<std::pair<std::string, std::function<void(Sys &)>>> letters;
    int prefix, suffix;
    double rel;
    void compare(Sys const &s, Sys const &r, std::string const &where, std::string const &when) {
        auto &m = mc::R();
        m.evaluations++;
        auto a = see(s), b = see(r);
        auto d = differ(a, b, rel);
        if (!d.empty()) mc::violation(when, where + d);
        mc::outcome(mc::cat(a.states.size(), " ", a.B.cols(), " ", a.bad, " ", a.O.size() ? std::llround(a.O.trace().real() * 100) : 0, " ", a.O.size() ? std::llround(std::abs(a.O.sum()) * 100) : 0));
    }
    void further(Sys const &s, Sys const &r, std::string const &where, int depth) {
        for (auto &l : letters) {
            Sys x(s), y(r);
            std::string wx, wy;
            mc::R().transitions++;
            if (getenv("MC_TRACE")) fprintf(stderr, "%s%s\n", where.c_str(), l.first.c_str());
            bool nx = refused([&] { l.second(x); }, &wx), ny = refused([&] { l.second(y); }, &wy);
            std::string w = where + l.first + " ; ";
            auto before = mc::R().violations.size();
            if (nx != ny || wx != wy)
                mc::violation("reloaded system reacts differently", w + "'" + wx + "' / '" + wy + "'");
            else
                compare(x, y, w, "reloaded system develops differently");
            if (before == mc::R().violations.size() && depth > 1) further(x, y, w, depth - 1);
        }
    }
    void here(Sys const &s, int level) {
        Sys keep(s), work(s);
        for (int format = 0; format < (level <= 1 ? 2 : 1); ++format) {
            Loaded<Sys> r;
            std::string what;
            if (refused([&] { r = format ? reload<Sys, cereal::JSONInputArchive, cereal::JSONOutputArchive>(work) : reload<Sys, cereal::BinaryInputArchive, cereal::BinaryOutputArchive>(work); }, &what)) {
                mc::violation("system cannot be stored and reloaded", what);
                return;
            }
            std::string f = format ? "JSON: " : "";
            compare(keep, work, f, "storing changes the system");
            compare(keep, *r.s, f, "reloaded system differs");
            further(keep, *r.s, f, std::max(1, std::min(suffix, prefix - level)));
            // again, from the reloaded one
            if (level <= 2 && !refused([&] { reload<Sys, cereal::BinaryInputArchive, cereal::BinaryOutputArchive>(*r.s); })) {
                auto t = reload<Sys, cereal::BinaryInputArchive, cereal::BinaryOutputArchive>(*r.s);
                compare(keep, *t.s, f, "system reloaded twice differs");
            }
        }
    }
    void walk(Sys const &s, std::string const &label, int depth, int level = 1, int first = -1) {
        for (size_t i = 0; i < letters.size(); ++i) {
            if (first >= 0 && (int)i != first) continue;
            std::string l = label + " ; " + letters[i].first;
            auto &r = mc::R();
            if (r.has_only && r.only.compare(0, l.size(), l) != 0) continue;
            r.label = l;
            if (r.cur) snprintf(r.cur, 8000, "%s", l.c_str());
            r.states++;
            Sys c(s);
            auto before = r.violations.size();
            bool no = refused([&] { letters[i].second(c); });
            here(c, level);
            if (!no && before == r.violations.size() && depth > 1)
                walk(c, l, depth - 1, level + 1);
            else
                r.traces++;
        }
    }
};

template <class Sys>
void common(Life<Sys> &f, bool real) {
    auto add = [&](std::string n, std::function<void(Sys &)> g) { f.letters.push_back({n, g}); };
    add("hamiltonian", [](Sys &s) { s.buildHamiltonian(); });
    add("interaction", [](Sys &s) { s.buildInteraction(); });
    add("basis", [](Sys &s) { s.buildBasis(); });
    add("diagonalize", [](Sys &s) { s.diagonalize(); });
    add("canonicalize", [](Sys &s) { s.canonicalize(); });
    add("unitarize", [](Sys &s) { s.unitarize(); });
    if (real)
        add("rotate", [](Sys &s) { s.rotate(0, .7, 0); });
    else
        add("rotate", [](Sys &s) { s.rotate(.3, .7, 1.2); });
    add("restrict m", [](Sys &s) { s.restrictM(-.5, .5); });
    add("energy", [](Sys &s) {
        Sys c(s);
        auto h = c.getHamiltonian();
        double a = 0;
        for (int i = 0; i < h.rows(); ++i) a = std::max(a, -std::real(h.coeff(i, i)));
        s.restrictEnergy(-a * 1.1, -a * .5);
    });
}

int main() {
    MatrixElementCache cache;
    int more = mc::tier(0, 1);
    auto go_one = [&](auto tag, bool saving, std::string name, int letter) {
        using S = decltype(tag);
        using Sys = SystemOne<S>;
        bool real = std::is_same<S, double>::value;
        Life<Sys> f;
        f.name = name, f.prefix = 3, f.suffix = 2 + more, f.rel = 1e-11;
        common(f, real);
        auto add = [&](std::string n, std::function<void(Sys &)> g) { f.letters.push_back({n, g}); };
        C3 e{{70, real ? 0. : 30., 90}}, b{{1e4, real ? 0. : -2e4, 2e4}};
        add("E", [=](Sys &s) { s.setEfield(e); });
        add("B", [=](Sys &s) { s.setBfield(b); });
        add("no diamagnetism", [](Sys &s) { s.enableDiamagnetism(false); });
        add("ion charge", [](Sys &s) { s.setIonCharge(1); });
        add("ion order", [](Sys &s) { s.setRydIonOrder(2); });
        add("ion distance", [](Sys &s) { s.setRydIonDistance(.7); });
        add("ion", [](Sys &s) { s.setIonCharge(1), s.setRydIonOrder(2), s.setRydIonDistance(.8); });
        add("even", [](Sys &s) { s.setConservedParityUnderReflection(EVEN); });
        add("momentum", [](Sys &s) { s.setConservedMomentaUnderRotation({.5f}); });
        add("norm", [](Sys &s) { s.setMinimalNorm(.6); });
        add("constrain", [](Sys &s) { s.constrainBasisvectors({1, 0, 2}); });
        add("state", [](Sys &s) { s.addStates(StateOne("Rb", 21, 0, .5f, .5f)); });
        add("artificial state", [](Sys &s) { s.addStates(StateOne("G")); });
        add("entry", [](Sys &s) { s.setHamiltonianEntry(StateOne("Rb", 20, 1, .5f, .5f), StateOne("Rb", 20, 0, .5f, .5f), 3); });
        if (letter >= (int)f.letters.size()) return;
        Sys s = saving ? Sys("Rb", cache, true) : Sys("Rb", cache);
        s.restrictN(20, 20), s.restrictL(0, 1);
        if (letter == 0 && mc::enter(name)) f.here(s, 0);
        f.walk(s, name, f.prefix, 1, letter);
    };
    auto go_two = [&](auto tag, bool saving, bool mirror, std::string name, int letter) {
        using S = decltype(tag);
        using Sys = SystemTwo<S>;
        bool real = std::is_same<S, double>::value;
        Life<Sys> f;
        f.name = name, f.prefix = 2 + more, f.suffix = 2 , f.rel = 1e-11;
        common(f, real);
        auto add = [&](std::string n, std::function<void(Sys &)> g) { f.letters.push_back({n, g}); };
        add("distance", [](Sys &s) { s.setDistance(.9); });
        add("vector", [](Sys &s) { s.setDistanceVector({{.4, 0, .7}}); });
        add("angle", [](Sys &s) { s.setAngle(1.1); });
        add("order", [](Sys &s) { s.setOrder(4); });
        add("tensor", [](Sys &s) { s.enableGreenTensor(true); });
        add("plate", [](Sys &s) { s.setSurfaceDistance(.6); });
        add("permutation", [](Sys &s) { s.setConservedParityUnderPermutation(ODD); });
        add("inversion", [](Sys &s) { s.setConservedParityUnderInversion(EVEN); });
        if (mirror) add("reflection", [](Sys &s) { s.setConservedParityUnderReflection(EVEN); });
        if (!mirror) add("momentum", [](Sys &s) { s.setConservedMomentaUnderRotation({1}); });
        add("norm", [](Sys &s) { s.setMinimalNorm(.6); });
        add("pairs", [](Sys &s) { s.setOneAtomBasisvectors({{{0, 0}}, {{0, 1}}, {{1, 1}}, {{1, 0}}, {{2, 2}}}); });
        add("constrain", [](Sys &s) { s.constrainBasisvectors({1, 0, 2}); });
        add("artificial state", [](Sys &s) { s.addStates(StateTwo(StateOne("G"), StateOne("R"))); });
        add("entry", [](Sys &s) {
            StateOne a("Rb", 20, 0, .5f, .5f), b("Rb", 20, 1, .5f, .5f);
            s.setHamiltonianEntry(StateTwo(a, b), StateTwo(a, a), 3);
        });
        if (letter >= (int)f.letters.size()) return;
        SystemOne<S> a("Rb", cache);
        a.restrictN(20, 20), a.restrictL(0, 1), a.restrictJ(.5, .5);
        if (mirror) a.setConservedParityUnderReflection(ODD); // pairs of a parity are built from atoms of a parity
        a.setEfield({{0, 0, 90}});
        Sys s = saving ? Sys(a, a, cache, true) : Sys(a, a, cache);
        if (letter == 0 && mc::enter(name)) f.here(s, 0);
        f.walk(s, name, f.prefix, 1, letter);
    };
    int n = 26;
    mc::parallel(7 * n, [&](int job) {
        int cfg = job / n, l = job % n;
        if (cfg == 0) go_one(0., false, "real", l);
        if (cfg == 1) go_one(cd(), false, "complex", l);
        if (cfg == 2) go_one(cd(), true, "complex saving", l);
        if (cfg == 3) go_two(0., false, false, "pair real", l);
        if (cfg == 4) go_two(cd(), false, false, "pair complex", l);
        if (cfg == 6) go_two(0., false, true, "pair mirror", l);
        if (cfg == 5) go_two(cd(), true, false, "pair complex saving", l);
    });
    return mc::finish();
}
