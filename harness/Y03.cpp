// Y03: symmetry sectors of one-atom and pair systems. For every basis, field configuration and combination of conserved
// quantities all sectors are built by the real code; each is compared with the projector onto the common eigenspace of the
// symmetry operators (permutation matrices with signs, on product states), their Hamiltonians with the block of the
// independently computed full Hamiltonian, their spectra and their union (merged with add) with the full spectrum.
#include "systwo.hpp"
using cd = std::complex<double>;

struct Sector {
    parity_t refl = NA, perm = NA, inv = NA;
    bool rot = false;
    std::set<int> twom; // doubled momenta
    std::string name() const {
        auto c = [](parity_t p) { return p == NA ? "" : p == EVEN ? "+" : "-"; };
        std::string s;
        if (refl != NA) s += mc::cat(" refl", c(refl));
        if (perm != NA) s += mc::cat(" perm", c(perm));
        if (inv != NA) s += mc::cat(" inv", c(inv));
        if (rot) {
            s += " 2m";
            for (int m : twom) s += mc::cat(" ", m);
        }
        return s.empty() ? " none" : s;
    }
};
int sgn(int k) { return k % 2 ? -1 : 1; }
// reflection at the xz-plane (exp(-i pi Jy) times parity); squares to -1 for half-integer momenta
CM sigma(OneRef const &r) {
    CM s = CM::Zero(r.F.size(), r.F.size());
    for (size_t i = 0; i < r.F.size(); ++i) {
        auto &f = r.F[i];
        auto it = r.index.find(StateOne(f.getSpecies(), f.getN(), f.getL(), f.getJ(), -f.getM()));
        if (it != r.index.end()) s(it->second, i) = sgn(std::lround(f.getL() + f.getJ() - f.getM()));
    }
    return s;
}
CM half(CM const &op, cd eigenvalue) { // op^2 = eigenvalue^2
    return .5 * (CM::Identity(op.rows(), op.cols()) + op / eigenvalue);
}
cd reflected(bool integer, parity_t p) { return integer ? cd(p == EVEN ? 1 : -1) : cd(0, p == EVEN ? -1 : 1); }

// common part: sectors that belong to one family, with their expected projectors
template <class Scalar, class Sys, class Ref>
void family(Sys const &root, Ref &ref, CM const &K, CM const &Hall, std::vector<std::pair<Sector, CM>> const &sectors, std::function<void(Sys &, Sector const &)> apply, std::string const &label, bool complete) {
    CM H = K * Hall * K;
    double scale = std::max(spread(H), 1e-3), rounding = 1e-14 * H.diagonal().cwiseAbs().maxCoeff() * H.rows(), tol = 2e-6 * scale + rounding;
    bool symmetric = true;
    for (auto &x : sectors)
        if ((x.second * H - H * x.second).cwiseAbs().maxCoeff() > 1e-9 * scale + rounding) symmetric = false;
    std::vector<Seen<Scalar>> seen;
    for (int build = 0; build < 3; ++build) { // sectors merged as bases, with Hamiltonians, diagonalised
        if (build > 0 && !symmetric) break;
        std::vector<double> levels;
        std::unique_ptr<Sys> all;
        CM U = CM::Zero(ref.F.size(), ref.F.size());
        for (auto &x : sectors) {
            std::string l = mc::cat(label, x.first.name(), build == 0 ? "" : build == 1 ? " built" : " diagonal");
            if (!mc::enter(l)) continue;
            std::string what;
            Sys s(root);
            bool none = std::abs(x.second.trace()) < 1e-9;
            bool no = refused([&] {
                apply(s, x.first);
                if (build == 0) s.buildBasis();
                if (build == 1) s.buildHamiltonian();
                if (build == 2) s.diagonalize();
            }, &what);
            if (no) {
                if (!none) mc::violation("sector cannot be built", what);
                continue;
            }
            if (build == 0) {
                if (all)
                    all->add(s);
                else
                    all.reset(new Sys(s));
            }
            auto v = look<Scalar>(s, ref);
            mc::R().evaluations++, mc::R().states++, mc::R().transitions += 4, mc::R().traces++;
            if (!v.bad.empty()) {
                mc::violation("system is inconsistent", v.bad);
                continue;
            }
            U += v.B * v.B.adjoint();
            CM I = v.B.adjoint() * v.B;
            if (I.size() && (I - CM::Identity(I.rows(), I.cols())).cwiseAbs().maxCoeff() > 1e-9) mc::violation("vectors of a sector are not orthonormal", mc::cat(v.B.cols(), " vectors"));
            if ((v.B * v.B.adjoint() - x.second).cwiseAbs().maxCoeff() > 1e-9)
                mc::violation("sector is not the eigenspace of its symmetry", mc::cat(v.B.cols(), " vectors, ", x.second.trace().real(), " expected"));
            CM want = v.B.adjoint() * H * v.B;
            if (v.H.size() && !((v.H - want).cwiseAbs().maxCoeff() <= tol)) mc::violation("Hamiltonian of a sector is not the block of the full one", mc::cat("off by ", (v.H - want).cwiseAbs().maxCoeff(), " scale ", scale));
            if (build == 2 && v.H.size() && spread(v.H) > 1e-9 * std::max(1., std::abs(v.H(0, 0)))) mc::violation("sector is not diagonal after diagonalize");
            if (build == 2)
                for (int i = 0; i < v.H.rows(); ++i) levels.push_back(v.H(i, i).real());
            if (build > 0) {
                if (all)
                    all->add(s);
                else
                    all.reset(new Sys(s));
            }
            mc::outcome(mc::cat(v.B.cols(), " ", std::llround(v.H.trace().real()), " ", std::llround(spread(v.H) * 1e5)));
        }
        if (!complete || !mc::enter(mc::cat(label, " all sectors ", build)) || mc::R().has_only) continue;
        if ((U - K).cwiseAbs().maxCoeff() > 1e-9) mc::violation("sectors do not add up to the full basis");
        if (!symmetric || !all) continue;
        // the full spectrum
        std::vector<int> rows;
        for (int i = 0; i < K.rows(); ++i)
            if (K(i, i).real() > .5) rows.push_back(i);
        CM h(rows.size(), rows.size());
        for (size_t i = 0; i < rows.size(); ++i)
            for (size_t k = 0; k < rows.size(); ++k) h(i, k) = H(rows[i], rows[k]);
        auto full = spectrum(h);
        auto compare = [&](std::vector<double> got, std::string which) {
            std::sort(got.begin(), got.end());
            if ((int)got.size() != full.size()) return mc::violation("number of levels " + which, mc::cat(got.size(), " instead of ", full.size()));
            for (size_t i = 0; i < got.size(); ++i)
                if (!(std::abs(got[i] - full[i]) <= tol)) return mc::violation("levels " + which, mc::cat("level ", i, ": ", got[i], " instead of ", full[i]));
        };
        if (build == 2) compare(levels, "of the sectors");
        std::string what;
        if (refused([&] {
                all->diagonalize();
                auto v = look<Scalar>(*all, ref);
                if (!v.bad.empty()) mc::violation("merged sectors are inconsistent", v.bad);
                std::vector<double> got;
                for (int i = 0; i < v.H.rows(); ++i) got.push_back(v.H(i, i).real());
                compare(got, "of the merged sectors");
                CM I = v.B.adjoint() * v.B;
                if ((I - CM::Identity(I.rows(), I.cols())).cwiseAbs().maxCoeff() > 1e-9) mc::violation("merged sectors are not orthonormal");
                CM want = v.B.adjoint() * H * v.B;
                if (v.H.rows() == want.rows() && !((v.H - want).cwiseAbs().maxCoeff() <= tol)) mc::violation("Hamiltonian of merged sectors is not the full one");
            }, &what))
            mc::violation("sectors cannot be merged", what);
    }
}

// ---------------------------------------------------------------- one atom
struct OneBasis {
    std::string species;
    int n0, n1, l1;
    int kind; // 0 ranges, 1 states given by the user, 2 both, 3 both with given ones of both parities
};
template <class Scalar>
void range(SystemOne<Scalar> &s, OneBasis const &b) {
    s.restrictN(b.n0, b.n1), s.restrictL(0, b.l1);
}
struct OneCase {
    OneBasis b;
    bool integer;
    OneRef ref;
};
std::vector<Sector> families_one(bool integer, int which, std::vector<int> const &twom) {
    std::vector<Sector> r;
    auto refl = {EVEN, ODD};
    if (which == 0)
        for (auto p : refl) r.push_back({p, NA, NA, false, {}});
    if (which == 1)
        for (int m : twom) r.push_back({NA, NA, NA, true, {m}});
    if (which == 2) { // two halves
        Sector a, b;
        a.rot = b.rot = true;
        for (size_t i = 0; i < twom.size(); ++i) (i % 3 ? a : b).twom.insert(twom[i]);
        r = {a, b};
    }
    if (which == 3)
        for (auto p : refl)
            for (int m : twom)
                if (m >= 0) r.push_back({p, NA, NA, true, {m, -m}});
    if (which == 4) r.push_back({});
    (void)integer;
    return r;
}
template <class Scalar>
void one(OneCase &c, MatrixElementCache &cache, Params const &p, std::string const &fname) {
    bool real = std::is_same<Scalar, double>::value;
    auto &ref = c.ref;
    std::set<int> ms;
    for (auto &f : ref.F) ms.insert(std::lround(2 * f.getM()));
    std::vector<int> twom(ms.begin(), ms.end());
    CM sg = sigma(ref), K = CM::Identity(ref.F.size(), ref.F.size());
    for (int which = 0; which < 5; ++which) {
        if (real && !c.integer && (which == 0 || which == 3)) continue; // complex coefficients required
        std::vector<std::pair<Sector, CM>> sectors;
        for (auto &s : families_one(c.integer, which, twom)) {
            CM P = K;
            if (s.refl != NA) P = half(sg, reflected(c.integer, s.refl));
            if (s.rot) {
                CM D = CM::Zero(P.rows(), P.cols());
                for (size_t i = 0; i < ref.F.size(); ++i) D(i, i) = s.twom.count(std::lround(2 * ref.F[i].getM()));
                P = P * D;
            }
            sectors.push_back({s, P});
        }
        SystemOne<Scalar> root(c.b.species, cache);
        if (c.b.kind != 1)
            range(root, c.b);
        if (c.b.kind == 1) {
            // nothing but the states given
            root.restrictN(std::set<int>{c.b.n0}), root.restrictL(std::set<int>{c.b.n0 + 5});
            std::set<StateOne> st(ref.F.begin(), ref.F.end());
            root.addStates(st);
        }
        if (c.b.kind >= 2)
            for (auto &f : ref.F)
                if (f.getN() > c.b.n1) root.addStates(f);
        root.setEfield(p.E), root.setBfield(p.B), root.enableDiamagnetism(p.dia);
        if (p.charge) root.setIonCharge(p.charge), root.setRydIonOrder(p.order), root.setRydIonDistance(p.dist);
        std::function<void(SystemOne<Scalar> &, Sector const &)> apply = [](SystemOne<Scalar> &s, Sector const &x) {
            if (x.refl != NA) s.setConservedParityUnderReflection(x.refl);
            std::set<float> m;
            for (int t : x.twom) m.insert(t / 2.f);
            if (x.rot) s.setConservedMomentaUnderRotation(m);
        };
        family<Scalar, SystemOne<Scalar>, OneRef>(root, ref, K, ref.H(p), sectors, apply,
                                                  mc::cat(real ? "real " : "complex ", c.b.species, " n", c.b.n0, "-", c.b.n1, " l", c.b.l1, " kind", c.b.kind, " ", fname, " family", which, ":"), true);
    }
}

// ---------------------------------------------------------------- pairs
struct PairCase {
    std::string name;
    OneCase &a, &b;
    PairRef ref;
    std::set<StateOne> extra; // pairs of these are given by the user
    PairCase(std::string n, OneCase &a, OneCase &b) : name(n), a(a), b(b), ref(a.ref, b.ref) {
        for (auto &f : a.ref.F)
            if (a.b.kind >= 2 && f.getN() > a.b.n1) extra.insert(f), name = n + " and given states";
    }
};
template <class Scalar>
void pairs(PairCase &c, MatrixElementCache &cache, PairParams const &p, std::string const &fname, bool presym) {
    bool real = std::is_same<Scalar, double>::value, identical = &c.a == &c.b, integer = c.a.integer;
    if (real && presym && !integer) return;
    auto &ref = c.ref;
    int N = ref.F.size();
    bool field = norm(p.one.E) > 0, momentum = p.one.E[0] == 0 && p.one.E[1] == 0 && p.one.B[0] == 0 && p.one.B[1] == 0;
    auto atom = [&](OneCase &o) {
        SystemOne<Scalar> s(o.b.species, cache);
        range(s, o.b);
        s.setEfield(p.one.E), s.setBfield(p.one.B), s.enableDiamagnetism(p.one.dia);
        if (!presym && momentum && field) { // both signs of the momentum are degenerate: diagonalised one by one
            std::set<float> ms;
            for (auto &f : o.ref.F) ms.insert(f.getM());
            std::unique_ptr<SystemOne<Scalar>> all;
            for (float m : ms) {
                SystemOne<Scalar> part(s);
                part.setConservedMomentaUnderRotation(std::set<float>{m});
                part.diagonalize();
                if (all)
                    all->add(part);
                else
                    all.reset(new SystemOne<Scalar>(part));
            }
            return *all;
        }
        if (!presym) return s;
        SystemOne<Scalar> odd(s);
        s.setConservedParityUnderReflection(EVEN), odd.setConservedParityUnderReflection(ODD);
        s.diagonalize(), odd.diagonalize();
        s.add(odd);
        return s;
    };
    std::unique_ptr<SystemOne<Scalar>> px, py;
    std::string what;
    if (refused([&] { px.reset(new SystemOne<Scalar>(atom(c.a))), py.reset(new SystemOne<Scalar>(atom(c.b))); }, &what)) {
        mc::enter(mc::cat(c.name, " ", fname, " one-atom sectors"));
        mc::violation("one-atom sectors cannot be merged", what);
        return;
    }
    auto &x = *px, &y = *py;
    SystemTwo<Scalar> root(x, y, cache);
    if (p.len != NOWHERE) root.setDistanceVector(p.v()), root.setOrder(p.order);
    if (p.gt) root.enableGreenTensor(true);
    if (p.plate()) root.setSurfaceDistance(p.surf);
    CM K = CM::Identity(N, N);
    for (int i = 0; i < N; ++i) {
        bool one = c.extra.count(ref.F[i].getFirstState()), two = c.extra.count(ref.F[i].getSecondState());
        if (one != two) K(i, i) = 0;
        if (one && two) root.addStates(ref.F[i]);
    }
    CM S = CM::Zero(N, N), I = S, R = kron(sigma(c.a.ref), sigma(c.b.ref));
    if (identical)
        for (int i = 0; i < N; ++i) {
            int k = ref.index.at(StateTwo(ref.F[i].getSecondState(), ref.F[i].getFirstState()));
            S(k, i) = 1;
            I(k, i) = sgn(ref.F[i].getL(0) + ref.F[i].getL(1));
        }
    std::set<int> ms;
    for (auto &f : ref.F) ms.insert(std::lround(f.getM(0) + f.getM(1)));
    bool mirror = p.one.E[1] == 0 && p.one.B[0] == 0 && p.one.B[2] == 0;
    std::function<void(SystemTwo<Scalar> &, Sector const &)> apply = [](SystemTwo<Scalar> &s, Sector const &x) {
        if (x.refl != NA) s.setConservedParityUnderReflection(x.refl);
        if (x.rot) s.setConservedMomentaUnderRotation(x.twom); // whole momenta here
        if (x.inv != NA) s.setConservedParityUnderInversion(x.inv);
        if (x.perm != NA) s.setConservedParityUnderPermutation(x.perm);
    };
    std::vector<parity_t> both{EVEN, ODD}, none{NA};
    for (int which = 0; which < 16; ++which) {
        bool refl = which & 1, perm = which & 2, inv = which & 4, rot = which & 8;
        if (refl && (!presym || !mirror || !c.extra.empty())) continue;
        if ((perm || inv) && !identical) continue;
        if (inv && field) continue;      // one-atom vectors need a parity
        if (rot && !momentum) continue;  // and a momentum
        if (rot && presym) { // the two do not work together: one configuration only
            auto label = mc::cat(c.name, " presym ", fname, ": refl+ M 0");
            if (!refl || perm || inv || real || label != "Rb-Rb presym free z: refl+ M 0" || !mc::enter(label)) continue;
            SystemTwo<Scalar> s(root);
            apply(s, Sector{EVEN, NA, NA, true, {0}});
            auto v = look<Scalar>(s, ref);
            CM G = v.B.adjoint() * v.B;
            if ((G - CM::Identity(G.rows(), G.cols())).cwiseAbs().maxCoeff() > 1e-9) mc::violation("vectors of a sector are not orthonormal");
            continue;
        }
        std::vector<std::pair<Sector, CM>> sectors;
        for (auto r : refl ? both : none)
            for (auto q : perm ? both : none)
                for (auto i : inv ? both : none)
                    for (int m : rot ? std::vector<int>(ms.begin(), ms.end()) : std::vector<int>{0}) {
                        Sector s{r, q, i, rot, rot ? std::set<int>{m} : std::set<int>{}};
                        CM P = K;
                        if (refl) P = P * half(R, cd(r == EVEN ? 1 : -1));
                        if (perm) P = P * half(S, cd(q == EVEN ? -1 : 1));
                        if (inv) P = P * half(I, cd(i == EVEN ? -1 : 1));
                        if (rot) {
                            CM D = CM::Zero(N, N);
                            for (int k = 0; k < N; ++k) D(k, k) = s.twom.count(std::lround(ref.F[k].getM(0) + ref.F[k].getM(1)));
                            P = P * D;
                        }
                        sectors.push_back({s, P});
                    }
        family<Scalar, SystemTwo<Scalar>, PairRef>(root, ref, K, ref.H(p), sectors, apply,
                                                   mc::cat(real ? "real " : "complex ", c.name, presym ? " presym " : " ", fname, " family", which, ":"), true);
    }
}

// ---------------------------------------------------------------- sequences of settings
// the sector built is that of the settings accepted last; incompatible ones are refused without effect
template <class Sys, class Num>
void sequences(Sys const &root, std::string const &name, std::vector<Num> const &ms, std::function<CM(parity_t, std::set<Num> const &)> projector, std::function<Seen<cd>(Sys &)> look_, std::function<bool(bool refl, bool rot)> claimed) {
    struct Setting {
        std::string name;
        parity_t refl;
        std::set<Num> rot; // empty: setting of the reflection
    };
    Num arb = ARB;
    std::vector<Setting> letters{{"refl+", EVEN, {}}, {"refl-", ODD, {}}, {"refl off", NA, {}}, {"rot any", NA, {arb}}, {"rot one", NA, {ms[0]}}, {"rot both", NA, {ms[0], -ms[0]}}, {"rot most", NA, {ms[0], -ms[0], ms[1]}}, {"rot any and one", NA, {arb, ms[0]}}};
    int n = letters.size();
    for (int len = 1; len <= mc::tier(4, 5); ++len) {
        long total = std::pow(n, len) + .5;
        for (long code = 0; code < total; ++code) {
            std::string label = name;
            for (long c = code, i = 0; i < len; ++i, c /= n) label += " ; " + letters[c % n].name;
            if (!mc::enter(label)) continue;
            mc::R().evaluations++, mc::R().states++, mc::R().transitions += len, mc::R().traces++;
            Sys s(root);
            parity_t refl = NA;
            std::set<Num> rot{arb};
            bool wrong = false;
            for (long c = code, i = 0; i < len && !wrong; ++i, c /= n) {
                auto &x = letters[c % n];
                auto r = x.rot.empty() ? x.refl : refl;
                auto m = x.rot.empty() ? rot : x.rot;
                bool bad = m.count(arb) && m.size() > 1;
                if (!m.count(arb) && r != NA)
                    for (auto k : m) bad |= !m.count(-k);
                bool no = refused([&] {
                    if (x.rot.empty())
                        s.setConservedParityUnderReflection(x.refl);
                    else
                        s.setConservedMomentaUnderRotation(x.rot);
                });
                if (no != bad) mc::violation(bad ? "impossible combination accepted" : "possible combination refused", x.name), wrong = true;
                if (!no) refl = r, rot = m;
            }
            if (wrong || !claimed(refl != NA, !rot.count(arb))) continue;
            std::string what;
            if (refused([&] {
                    auto v = look_(s);
                    if (!v.bad.empty()) return mc::violation("system is inconsistent", v.bad);
                    if ((v.B * v.B.adjoint() - projector(refl, rot)).cwiseAbs().maxCoeff() > 1e-9) mc::violation("basis is not that of the settings accepted last");
                    mc::outcome(mc::cat(refl, " ", rot.size(), " ", v.B.cols()));
                    if (!refused([&] { s.setConservedParityUnderReflection(NA); }) || !refused([&] { s.setConservedMomentaUnderRotation({arb}); })) mc::violation("symmetries changed after the basis was built");
                }, &what))
                mc::violation("basis cannot be built", what);
        }
    }
}

int main() {
    MatrixElementCache cache;
    std::vector<OneBasis> bases{{"Rb", 20, 20, 1, 0}, {"Rb", 20, 21, 2, 0}, {"Rb", 20, 20, 2, 1}, {"Rb", 20, 20, 2, 2}, {"Sr1", 20, 21, 2, 0}, {"Sr3", 20, 20, 2, 0}, {"Sr1", 20, 21, 1, 0}, {"Sr3", 20, 20, 1, 0}, {"Sr3", 20, 20, 1, 1},
                                {"Cs", 21, 21, 1, 0}, {"Rb", 20, 20, 0, 2}, {"Rb", 20, 20, 1, 3}};
    std::vector<std::unique_ptr<OneCase>> ones;
    for (auto &b : bases) {
        SystemOne<double> all(b.species, cache);
        range(all, b);
        auto st = all.getStates();
        if (b.kind == 3)
            for (int l : {0, 1})
                for (float m : {-.5f, .5f}) st.push_back(StateOne(b.species, 24, l, .5, m));
        if (b.kind == 2)
            for (float j : {.5f, 1.5f})
                for (float m = -j; m <= j; ++m) st.push_back(StateOne(b.species, 24, 1, j, m));
        ones.emplace_back(new OneCase{b, b.species == "Sr1" || b.species == "Sr3", OneRef(b.species, st, cache, 2)});
        SystemOne<cd> warm(b.species, cache);
        range(warm, b);
        for (auto &f : st)
            if (f.getN() > b.n1) warm.addStates(f);
        warm.setEfield({{1, 1, 1}}), warm.setBfield({{1, 1, 1}}), warm.setIonCharge(1), warm.setRydIonOrder(2), warm.setRydIonDistance(1);
        warm.buildHamiltonian();
        for (int k = 0; k <= 3; ++k) cache.precalculateMultipole(warm.getStates(), k);
    }
    struct Field {
        std::string name;
        Params p;
    };
    auto fields = [](std::string name, C3 E, C3 B, int charge = 0) {
        Field f{name, {}};
        f.p.E = E, f.p.B = B;
        if (charge) f.p.charge = charge, f.p.order = 2, f.p.dist = .3;
        return f;
    };
    std::vector<Field> fs{fields("free", {{0, 0, 0}}, {{0, 0, 0}}),
                          fields("Ez", {{0, 0, 120}}, {{0, 0, 0}}),
                          fields("Bz", {{0, 0, 0}}, {{0, 0, 2e4}}),
                          fields("Ez Bz", {{0, 0, 90}}, {{0, 0, -1e4}}),
                          fields("Exz", {{-70, 0, 90}}, {{0, 0, 0}}),
                          fields("Exz By", {{60, 0, 80}}, {{0, 1e4, 0}}),
                          fields("By", {{0, 0, 0}}, {{0, 2e4, 0}}),
                          fields("Bxz", {{0, 0, 0}}, {{1e4, 0, 1e4}}),
                          fields("Bxyz", {{0, 0, 0}}, {{1e4, -1e4, 1e4}}),
                          fields("all", {{50, -60, 70}}, {{1e4, -1e4, 1e4}}),
                          fields("ion Ez", {{0, 0, 90}}, {{0, 0, 0}}, 1),
                          fields("ion Exz", {{50, 0, 60}}, {{0, 0, 0}}, -1)};
    std::vector<std::unique_ptr<PairCase>> ps;
    auto pair = [&](int a, int b) { ps.emplace_back(new PairCase(mc::cat(ones[a]->b.species, "-", ones[b]->b.species), *ones[a], *ones[b])); };
    pair(0, 0), pair(0, 9), pair(6, 6), pair(7, 7), pair(10, 10), pair(11, 11);
    struct Place {
        std::string name;
        C3 v;
        unsigned order;
        bool gt;
        double surf;
    };
    std::vector<Place> places{{"apart", {{0, 0, 0}}, 3, false, NOWHERE}, {"z", {{0, 0, .9}}, 3, false, NOWHERE}, {"z order 5", {{0, 0, .9}}, 5, false, NOWHERE}, {"xz", {{.5, 0, -.7}}, 3, false, NOWHERE},
                              {"xz tensor 4", {{-.5, 0, .7}}, 4, true, NOWHERE}, {"xyz", {{.4, .5, -.6}}, 3, true, NOWHERE}, {"z plate", {{0, 0, -.9}}, 4, true, .8}, {"x plate", {{.9, 0, 0}}, 3, true, .6}};
    int no = ones.size() * fs.size() * 2, np = ps.size() * fs.size() * places.size() * 4;
    bool thorough = mc::tier(0, 1);
    auto settings_one = [&] {
        auto &c = *ones[0];
        SystemOne<cd> root(c.b.species, cache);
        range(root, c.b);
        CM sg = sigma(c.ref);
        sequences<SystemOne<cd>, float>(root, "settings of one atom", {.5f, 1.5f}, [&](parity_t r, std::set<float> const &m) {
            CM P = CM::Identity(c.ref.F.size(), c.ref.F.size());
            if (r != NA) P = half(sg, reflected(false, r));
            for (size_t i = 0; i < c.ref.F.size(); ++i)
                if (!m.count(ARB) && !m.count(c.ref.F[i].getM())) P.row(i).setZero(), P.col(i).setZero();
            return P;
        }, [&](SystemOne<cd> &s) { return look<cd>(s, c.ref); }, [](bool, bool) { return true; });
    };
    auto settings_two = [&] {
        auto &c = *ps[0];
        SystemOne<cd> even(c.a.b.species, cache);
        range(even, c.a.b);
        SystemOne<cd> odd(even), plain(even);
        even.setConservedParityUnderReflection(EVEN), odd.setConservedParityUnderReflection(ODD);
        even.add(odd);
        CM R = kron(sigma(c.a.ref), sigma(c.b.ref));
        for (bool presym : {false, true}) { // momenta from momentum states, parities from states with a parity
            auto &x = presym ? even : plain;
            SystemTwo<cd> root(x, x, cache);
            sequences<SystemTwo<cd>, int>(root, mc::cat("settings of a pair", presym ? " of states with a parity" : ""), {1, 2}, [&](parity_t r, std::set<int> const &m) {
                CM P = CM::Identity(c.ref.F.size(), c.ref.F.size());
                if (r != NA) P = half(R, cd(r == EVEN ? 1 : -1));
                for (size_t i = 0; i < c.ref.F.size(); ++i)
                    if (!m.count(ARB) && !m.count(std::lround(c.ref.F[i].getM(0) + c.ref.F[i].getM(1)))) P.row(i).setZero(), P.col(i).setZero();
                return P;
            }, [&](SystemTwo<cd> &s) { return look<cd>(s, c.ref); }, [=](bool refl, bool rot) { return presym ? !rot : !refl; });
        }
    };
    mc::parallel(no + np + 2, [&](int job) {
        if (job-- == 0) return settings_one();
        if (job-- == 0) return settings_two();
        if (job < no) {
            auto &f = fs[job / 2 % fs.size()];
            auto &c = *ones[job / 2 / fs.size()];
            if (job % 2 == 0)
                one<cd>(c, cache, f.p, f.name);
            else if (f.p.E[1] == 0 && f.p.B[1] == 0)
                one<double>(c, cache, f.p, f.name);
            return;
        }
        job -= no;
        bool presym = job % 2, real = job / 2 % 2;
        auto &f = fs[job / 4 % fs.size()];
        auto &pl = places[job / 4 / fs.size() % places.size()];
        auto &c = *ps[job / 4 / fs.size() / places.size()];
        if (f.p.charge || (!c.extra.empty() && f.name != "free")) return;
        if (!thorough && c.ref.F.size() > 100 && (&f - &fs[0]) % 3) return;
        if (real && (f.p.E[1] != 0 || f.p.B[1] != 0 || pl.v[1] != 0)) return;
        bool mirror = f.p.E[1] == 0 && f.p.B[0] == 0 && f.p.B[2] == 0;
        if (presym && !mirror) return;
        PairParams p;
        p.one = f.p, p.order = pl.order, p.gt = pl.gt, p.surf = pl.surf;
        if (norm(pl.v) > 0) {
            p.len = norm(pl.v);
            for (int i = 0; i < 3; ++i) p.dir[i] = pl.v[i] / p.len;
        }
        auto name = f.name + " " + pl.name;
        if (real)
            pairs<double>(c, cache, p, name, presym);
        else
            pairs<cd>(c, cache, p, name, presym);
    });
    return mc::finish();
}
