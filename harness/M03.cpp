// M03: combination of two one-atom Hamiltonians into pair Hamiltonians: all symmetry sectors of several bases.
#include "Basisnames.hpp"
#include "hmat.hpp"
#include <numeric>
#include <Eigen/QR>

using C = std::complex<double>;
struct One {
    int n, l, j2, m2;
};
static One one(StateOneOld const &s) { return {s.n, s.l, static_cast<int>(std::lround(2 * s.j)), static_cast<int>(std::lround(2 * s.m))}; }
static int sgn(int k) { return k % 2 ? -1 : 1; }

// a one-atom problem: states, orthonormal vectors (columns), energies
template <class S>
struct Atom {
    std::vector<One> st;
    DM<S> v;
    std::vector<double> e;
    Hamiltonianmatrix<S> h() const {
        DM<S> d = DM<S>::Zero(e.size(), e.size());
        for (size_t i = 0; i < e.size(); ++i) d(i, i) = e[i];
        return Hamiltonianmatrix<S>(d.sparseView(), v.sparseView());
    }
};
static C phase(C, double a) { return std::polar(1., a); }
static double phase(double, double a) { return std::cos(a) < 0 ? -1 : 1; }

template <class S>
struct Pairs {
    std::string name;
    Atom<S> a, b;
    std::shared_ptr<BasisnamesTwo> two;
    bool same;
    bool okI, okP, okR, okM;
    size_t na, nb, N;
    DM<S> v0;               // all product vectors
    std::vector<double> e0; // their energies

    void prepare() {
        na = a.st.size();
        nb = b.st.size();
        N = na * nb;
        size_t ca = a.e.size(), cb = b.e.size();
        v0 = DM<S>(N, ca * cb);
        e0.clear();
        for (size_t i = 0; i < ca; ++i)
            for (size_t k = 0; k < cb; ++k) {
                e0.push_back(a.e[i] + b.e[k]);
                for (size_t x = 0; x < na; ++x)
                    for (size_t y = 0; y < nb; ++y) v0(x * nb + y, i * cb + k) = a.v(x, i) * b.v(y, k);
            }
    }
    size_t find(std::vector<One> const &s, One o) const {
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i].n == o.n && s[i].l == o.l && s[i].j2 == o.j2 && s[i].m2 == o.m2) return i;
        abort();
    }
    DM<S> apply(char op, DM<S> const &v) const {
        DM<S> o = DM<S>::Zero(v.rows(), v.cols());
        for (size_t x = 0; x < na; ++x)
            for (size_t y = 0; y < nb; ++y) {
                One p = a.st[x], q = b.st[y];
                size_t from = x * nb + y, to = from;
                double f = 1;
                if (op == 'P') to = y * nb + x;
                if (op == 'I') {
                    to = y * nb + x;
                    f = sgn(p.l + q.l);
                }
                if (op == 'R') {
                    One pp = p, qq = q;
                    pp.m2 *= -1;
                    qq.m2 *= -1;
                    to = find(a.st, pp) * nb + find(b.st, qq);
                    f = sgn(std::abs(p.l + q.l + (p.j2 + q.j2) / 2 + (p.m2 + q.m2) / 2));
                }
                o.row(to) += S(f) * v.row(from);
            }
        return o;
    }
    static double maxabs(DM<S> const &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }

    Hamiltonianmatrix<S> comb(Symmetry s, double dE) const { return combine(a.h(), b.h(), dE, two, s); }

    DM<S> sector(Symmetry s, std::string const &l) const {
        auto &r = mc::R();
        auto h = comb(s, -1);
        Hamiltonianmatrix<S> const &hc = h;
        DM<S> v(hc.basis()), e(hc.entries());
        ++r.states;
        ++r.transitions;
        ++r.evaluations;
        mc::outcome(mc::cat(l, v.cols()));
        if (v.rows() != static_cast<long>(N) || e.rows() != v.cols() || e.cols() != v.cols()) {
            mc::violation("wrong dimensions", text<S>(h));
            return DM<S>(N, 0);
        }
        double t = 1e-9;
        if (maxabs(v.adjoint() * v - DM<S>::Identity(v.cols(), v.cols())) > t) mc::violation("the vectors of a sector are not orthonormal", l);
        if (s.permutation != NA && maxabs(apply('P', v) + S(static_cast<int>(s.permutation)) * v) > t) mc::violation("a vector has the wrong permutation parity", l);
        if (s.inversion != NA && maxabs(apply('I', v) + S(static_cast<int>(s.inversion)) * v) > t) mc::violation("a vector has the wrong inversion parity", l);
        if (s.reflection != NA && maxabs(apply('R', v) - S(static_cast<int>(s.reflection)) * v) > t) mc::violation("a vector has the wrong reflection parity", l);
        if (s.rotation != NA)
            for (size_t x = 0; x < na; ++x)
                for (size_t y = 0; y < nb; ++y) {
                    int M = (a.st[x].m2 + b.st[y].m2) / 2;
                    if (M == s.rotation || (s.reflection != NA && M == -s.rotation)) continue;
                    if (maxabs(v.row(x * nb + y)) > t) mc::violation("a vector has the wrong total momentum", l);
                }
        DM<S> d = DM<S>::Zero(e.rows(), e.cols());
        for (long i = 0; i < e.rows(); ++i) d(i, i) = e(i, i);
        if (maxabs(e - d) > 0) mc::violation("a pair Hamiltonian is not diagonal", l);
        // H0 v = v e with H0 the sum of the two
        DM<S> c = v0.adjoint() * v, ec = c;
        for (size_t i = 0; i < e0.size(); ++i) ec.row(i) *= S(e0[i]);
        if (maxabs(ec - c * d) > 1e-8) mc::violation("an energy does not belong to its vector", l);
        if (v0.cols() < v0.rows() && maxabs(v - v0 * c) > t) mc::violation("a vector leaves the product space", l);
        // energy cutoffs
        for (double cut : {0.5, 1.0, 2.25, 3.5, 1e9}) {
            auto hk = comb(s, cut);
            Hamiltonianmatrix<S> const &k = hk;
            std::vector<long> keep;
            for (long i = 0; i < e.rows(); ++i)
                if (std::abs(e(i, i)) <= cut) keep.push_back(i);
            DM<S> vk(k.basis()), ek(k.entries());
            bool ok = vk.cols() == static_cast<long>(keep.size()) && ek.rows() == vk.cols() && vk.rows() == v.rows();
            for (size_t i = 0; ok && i < keep.size(); ++i)
                ok = maxabs(vk.col(i) - v.col(keep[i])) < t && std::abs(ek(i, i) - e(keep[i], keep[i])) < t;
            if (!ok) {
                // the order of the vectors does not matter
                ok = vk.cols() == static_cast<long>(keep.size()) && ek.rows() == vk.cols() && vk.rows() == v.rows();
                DM<S> sel(v.rows(), keep.size());
                for (size_t i = 0; i < keep.size(); ++i) sel.col(i) = v.col(keep[i]);
                if (ok) ok = maxabs(sel * sel.adjoint() - vk * vk.adjoint()) < t;
            }
            if (!ok) mc::violation("an energy cutoff keeps other pair states", mc::cat(l, " cutoff ", cut, ": ", vk.cols(), " instead of ", keep.size()));
            ++r.transitions;
        }
        return v;
    }
    void cutoff_mask() const {
        for (double cut : {-1., 0.5, 1.0, 2.25, 3.5, 1e9})
            for (int preset = 0; preset < 2; ++preset) {
                if (!mc::enter(mc::cat(name, " mask for cutoff ", cut, " preset ", preset))) continue;
                std::vector<bool> need(N, false), want;
                if (preset) need[N - 1] = need[0] = true;
                want = need;
                for (size_t c = 0; c < e0.size(); ++c)
                    if (cut < 0 || std::abs(e0[c]) <= cut)
                        for (size_t x = 0; x < N; ++x)
                            if (v0(x, c) != S(0)) want[x] = true;
                energycutoff(a.h(), b.h(), cut, need);
                if (need != want) mc::violation("an energy cutoff marks the wrong states", "");
                ++mc::R().states;
                ++mc::R().evaluations;
                ++mc::R().transitions;
            }
    }
    void run() {
        prepare();
        cutoff_mask();
        std::vector<int> Ms;
        for (auto &p : a.st)
            for (auto &q : b.st) {
                int M = (p.m2 + q.m2) / 2;
                if (std::find(Ms.begin(), Ms.end(), M) == Ms.end()) Ms.push_back(M);
            }
        std::sort(Ms.begin(), Ms.end());
        std::vector<parity_t> no = {NA}, both = {EVEN, ODD};
        for (int types = 0; types < 16; ++types) {
            bool useI = types & 1, useP = types & 2, useR = types & 4, useM = types & 8;
            if ((useI && !okI) || (useP && !okP) || (useR && !okR) || (useM && !okM)) continue;
            std::string tn = mc::cat(name, useI ? " inversion" : "", useP ? " permutation" : "", useR ? " reflection" : "", useM ? " rotation" : "");
            if (!mc::enter(tn)) continue;
            std::vector<int> rot = {NA};
            if (useM) {
                rot.clear();
                for (int M : Ms)
                    if (!useR || M >= 0) rot.push_back(M);
            }
            std::vector<DM<S>> parts;
            long total = 0;
            ++mc::R().traces;
            for (auto i : useI ? both : no)
                for (auto p : useP ? both : no)
                    for (auto f : useR ? both : no)
                        for (int M : rot) {
                            Symmetry s{i, f, p, M};
                            parts.push_back(sector(s, mc::cat("inversion ", i == NA ? 0 : i, " permutation ", p == NA ? 0 : p, " reflection ", f == NA ? 0 : f, " M ",
                                                              M == NA ? 999 : M)));
                            total += parts.back().cols();
                        }
            DM<S> w(N, total);
            long at = 0;
            for (auto &p : parts) {
                w.middleCols(at, p.cols()) = p;
                at += p.cols();
            }
            if (total != v0.cols()) mc::violation("the sectors together have a wrong dimension", mc::cat(total, " instead of ", v0.cols()));
            else if (maxabs(w.adjoint() * w - DM<S>::Identity(total, total)) > 1e-9) mc::violation("different sectors are not orthogonal", "");
            if (total > 0 && mc::R().samples.size() < 8) mc::sample(mc::cat(tn, ": ", parts.size(), " sectors, ", total, " vectors"));
        }
    }
};

static Configuration conf(std::array<int, 8> q, int dn, int dl, const char *sp2 = "Rb") {
    Configuration c;
    c["species1"] << "Rb";
    c["species2"] << sp2;
    c["n1"] << q[0];
    c["l1"] << q[1];
    c["j1"] << q[2] / 2.;
    c["m1"] << q[3] / 2.;
    c["n2"] << q[4];
    c["l2"] << q[5];
    c["j2"] << q[6] / 2.;
    c["m2"] << q[7] / 2.;
    c["deltaNSingle"] << dn;
    c["deltaLSingle"] << dl;
    c["deltaJSingle"] << -1;
    c["deltaMSingle"] << -1;
    c["missingCalc"] << "true";
    c["missingWhittaker"] << "false";
    return c;
}
static double energy(One o) { return (o.n - 2) * 1.25 + o.l * .5 - (o.j2 - 2 * o.l) * .25 - .75; }

// kinds of one-atom vectors
template <class S>
Atom<S> atom(BasisnamesOne const &b, int kind) {
    Atom<S> a;
    for (auto s : b) a.st.push_back(one(s));
    size_t n = a.st.size();
    a.v = DM<S>::Identity(n, n);
    a.e.resize(n);
    for (size_t i = 0; i < n; ++i) a.e[i] = energy(a.st[i]);
    size_t step = 5;
    while (std::gcd(step, n) != 1) ++step;
    if (kind == 1) // other order, phases
        for (size_t i = 0; i < n; ++i) {
            a.v.col(i).setZero();
            size_t k = (i * step + 3) % n;
            a.v(k, i) = phase(S(), 1.3 * i);
            a.e[i] = energy(a.st[k]);
        }
    if (kind == 2) // magnetic field: no degeneracy
        for (size_t i = 0; i < n; ++i) a.e[i] += .0625 * a.st[i].m2;
    auto mix = [&](bool parity, bool magnetic, bool refl) {
        std::vector<bool> done(n, false);
        for (size_t i = 0; i < n; ++i)
            for (size_t k = i + 1; k < n; ++k) {
                One p = a.st[i], q = a.st[k];
                if (done[i] || done[k] || p.m2 != q.m2) continue;
                if (parity && (p.l + q.l) % 2) continue;
                if (refl && p.m2 < 0) continue;
                done[i] = done[k] = true;
                S c = S(std::cos(.7)), s = phase(S(), .9) * S(std::sin(.7));
                a.v(i, i) = c;
                a.v(k, i) = s;
                a.v(i, k) = -phase(S(), -.9) * S(std::sin(.7));
                a.v(k, k) = c;
                a.e[i] -= .125;
                a.e[k] += .125;
                if (!refl) continue;
                auto r = [](One o) { return sgn(std::abs(o.l + (o.j2 - 1) / 2 + (o.m2 - 1) / 2)); };
                size_t x = 0, y = 0;
                for (size_t t = 0; t < n; ++t) {
                    One o = a.st[t];
                    if (o.n == p.n && o.l == p.l && o.j2 == p.j2 && o.m2 == -p.m2) x = t;
                    if (o.n == q.n && o.l == q.l && o.j2 == q.j2 && o.m2 == -q.m2) y = t;
                }
                done[x] = done[y] = true;
                S f = S(r(p) * r(q));
                a.v(x, x) = a.v(i, i);
                a.v(y, x) = f * a.v(k, i);
                a.v(x, y) = f * a.v(i, k);
                a.v(y, y) = a.v(k, k);
                a.e[x] = a.e[i];
                a.e[y] = a.e[k];
            }
        if (magnetic)
            for (size_t i = 0; i < n; ++i) a.e[i] += .0625 * a.st[i].m2;
    };
    if (kind == 3) mix(true, true, false);  // magnetic field along z
    if (kind == 4) mix(false, true, false); // electric and magnetic field along z
    if (kind == 5) mix(false, false, true); // electric field along z
    if (kind == 6) {                        // no symmetry at all
        DM<S> x(n, n);
        for (size_t i = 0; i < n; ++i)
            for (size_t k = 0; k < n; ++k) x(i, k) = phase(S(), i * k * 1.1) * S(std::sin(1. + 3 * i + 7 * k * k));
        Eigen::HouseholderQR<DM<S>> qr(x);
        a.v = qr.householderQ() * DM<S>::Identity(n, n);
        for (size_t i = 0; i < n; ++i) a.e[i] = std::floor(8 * std::sin(i + 1.)) / 4;
    }
    if (kind == 7) { // fewer vectors than states
        a.v = DM<S>(a.v.leftCols(n - 2));
        a.e.resize(n - 2);
    }
    return a;
}

int main() {
    struct B {
        std::string n;
        std::array<int, 8> q;
        int dn, dl;
    };
    std::vector<B> bs = {{"2S+2P", {2, 0, 1, 1, 2, 1, 1, 1}, 0, -1}, {"1S+2S+2P", {1, 0, 1, 1, 2, 1, 1, 1}, 0, -1}, {"2S", {2, 0, 1, 1, 2, 0, 1, -1}, 0, 0}, {"3S+3P+3D", {3, 0, 1, 1, 3, 2, 5, 3}, 0, 0}};
    if (mc::thorough()) bs.push_back({"3S..3D,2P", {3, 0, 1, 1, 2, 1, 3, 3}, 0, -1});
    struct J {
        B b;
        int kind;
        bool cplx, same;
    };
    std::vector<J> jobs;
    for (auto &b : bs)
        for (int k = 0; k < 8; ++k)
            for (int c = 0; c < 2; ++c)
                for (int same = 0; same < 2; ++same) jobs.push_back({b, k, c == 1, same == 1});
    std::sort(jobs.begin(), jobs.end(), [](J const &x, J const &y) { return x.b.n.size() > y.b.n.size(); });
    static const char *kinds[] = {"product states", "reordered", "magnetic shift", "mixed l+-2", "mixed in fields", "mixed in electric field", "arbitrary vectors", "fewer vectors"};
    mc::parallel(static_cast<int>(jobs.size()), [&](int i) {
        J j = jobs[i];
        auto go = [&](auto s) {
            using S = decltype(s);
            Pairs<S> p;
            p.name = mc::cat(j.b.n, " ", kinds[j.kind], j.cplx ? " complex" : " real", j.same ? " identical atoms" : " different atoms");
            p.same = j.same;
            if (j.same) {
                auto one = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromBoth(conf(j.b.q, j.b.dn, j.b.dl)));
                p.two = std::make_shared<BasisnamesTwo>(one);
                p.a = p.b = atom<S>(*one, j.kind);
            } else {
                auto c = conf(j.b.q, j.b.dn, -1, "Cs");
                auto o1 = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromFirst(c)), o2 = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromSecond(c));
                p.two = std::make_shared<BasisnamesTwo>(o1, o2);
                p.a = atom<S>(*o1, j.kind);
                p.b = atom<S>(*o2, j.kind);
                for (auto &e : p.b.e) e *= .75;
            }
            bool prod = j.kind == 0 || j.kind == 1;
            p.okM = j.kind != 6 && j.kind != 7;
            p.okR = prod || j.kind == 5;
            p.okP = j.same && j.kind != 7;
            p.okI = j.same && (j.kind <= 3);
            p.run();
        };
        if (j.cplx) go(C());
        else go(double());
    });
    return mc::finish();
}
