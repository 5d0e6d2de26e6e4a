// M04: Hamiltonianmatrix operations against dense linear algebra: all small Hermitian matrices in several bases, and
// all operation histories up to a depth in lockstep with a dense model.
#include "hmat.hpp"

template <class S>
struct M {
    DM<S> e, b;
};
using C = std::complex<double>;
static const double TOL = 1e-9, PRUNE = 2e-3; // diagonalisation drops coefficients below 5e-5 by design

template <class S>
static bool close(DM<S> const &x, DM<S> const &y, double tol) {
    if (x.rows() != y.rows() || x.cols() != y.cols()) return false;
    for (long i = 0; i < x.size(); ++i)
        if (!(std::abs(x.data()[i] - y.data()[i]) <= tol * (1 + std::abs(y.data()[i])))) return false;
    return true;
}
// eigenvalues by cyclic Jacobi rotations on the real symmetric form of a Hermitian matrix
static std::vector<double> jacobi(DM<double> a) {
    int n = static_cast<int>(a.rows());
    for (int sweep = 0; sweep < 60; ++sweep) {
        double off = 0;
        for (int p = 0; p < n; ++p)
            for (int q = p + 1; q < n; ++q) off += a(p, q) * a(p, q);
        if (off < 1e-26) break;
        for (int p = 0; p < n; ++p)
            for (int q = p + 1; q < n; ++q) {
                if (a(p, q) == 0) continue;
                double th = (a(q, q) - a(p, p)) / (2 * a(p, q)), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1));
                double c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < n; ++k) {
                    double x = a(k, p), y = a(k, q);
                    a(k, p) = c * x - s * y;
                    a(k, q) = s * x + c * y;
                }
                for (int k = 0; k < n; ++k) {
                    double x = a(p, k), y = a(q, k);
                    a(p, k) = c * x - s * y;
                    a(q, k) = s * x + c * y;
                }
            }
    }
    std::vector<double> v(n);
    for (int i = 0; i < n; ++i) v[i] = a(i, i);
    std::sort(v.begin(), v.end());
    return v;
}
static std::vector<double> eig(DM<double> const &a) { return jacobi(a); }
static std::vector<double> eig(DM<C> const &a) {
    long n = a.rows();
    DM<double> r(2 * n, 2 * n);
    r << a.real(), -a.imag(), a.imag(), a.real();
    auto v = jacobi(r);
    std::vector<double> o;
    for (size_t i = 0; i < v.size(); i += 2) o.push_back(.5 * (v[i] + v[i + 1]));
    return o;
}
template <class S>
static bool isometric(DM<S> const &b, double tol) {
    return close<S>(b.adjoint() * b, DM<S>::Identity(b.cols(), b.cols()), tol);
}
template <class S>
static bool hermitian(DM<S> const &e) { return close<S>(e, e.adjoint(), TOL); }

template <class S>
static M<S> dense(Hamiltonianmatrix<S> const &h) { return {DM<S>(h.entries()), DM<S>(h.basis())}; }

template <class S>
static void compare(Hamiltonianmatrix<S> const &h, M<S> const &m, const char *what) {
    ++mc::R().evaluations;
    M<S> d = dense<S>(h);
    double tol = TOL;
    if (!close<S>(d.e, m.e, tol)) mc::violation(mc::cat(what, " yields wrong entries"), text<S>(h));
    if (!close<S>(d.b, m.b, tol)) mc::violation(mc::cat(what, " yields a wrong basis"), text<S>(h));
    if (static_cast<long>(h.num_basisvectors()) != m.b.cols() || static_cast<long>(h.num_coordinates()) != m.b.rows())
        mc::violation(mc::cat(what, " yields a wrong dimension"), text<S>(h));
}
template <class S>
static M<S> keep_cols(M<S> const &m, std::vector<int> const &k) {
    M<S> o{DM<S>(k.size(), k.size()), DM<S>(m.b.rows(), k.size())};
    for (size_t i = 0; i < k.size(); ++i) {
        o.b.col(i) = m.b.col(k[i]);
        for (size_t j = 0; j < k.size(); ++j) o.e(i, j) = m.e(k[i], k[j]);
    }
    return o;
}
template <class S>
static void check_diagonalize(Hamiltonianmatrix<S> &h, M<S> &m) {
    auto before = m;
    h.diagonalize();
    m = dense<S>(h);
    ++mc::R().evaluations;
    if (m.e.rows() != before.e.rows() || m.b.rows() != before.b.rows() || m.b.cols() != before.b.cols()) {
        mc::violation("diagonalising changes the dimension", text<S>(h));
        return;
    }
    for (long i = 0; i < m.e.rows(); ++i)
        for (long j = 0; j < m.e.cols(); ++j)
            if (i != j && m.e(i, j) != S(0)) {
                mc::violation("diagonalising leaves off-diagonal entries", text<S>(h));
                return;
            }
    auto want = eig(before.e);
    std::vector<double> got;
    for (long i = 0; i < m.e.rows(); ++i) {
        got.push_back(std::real(m.e(i, i)));
        if (!(std::abs(std::imag(C(m.e(i, i)))) <= TOL)) mc::violation("an eigenvalue is not real", text<S>(h));
    }
    auto sorted = got;
    std::sort(sorted.begin(), sorted.end());
    double scale = 1;
    for (double x : want) scale = std::max(scale, std::abs(x));
    for (size_t i = 0; i < want.size(); ++i)
        if (!(std::abs(sorted[i] - want[i]) <= 1e-8 * scale)) {
            mc::violation("diagonalising yields wrong eigenvalues", mc::cat(sorted[i], " instead of ", want[i], " in ", text<S>(h)));
            return;
        }
    if (!isometric<S>(before.b, 1e-3)) return;
    DM<S> full = before.b * before.e * before.b.adjoint();
    if (!isometric<S>(m.b, PRUNE)) mc::violation("eigenvectors are not orthonormal", text<S>(h));
    DM<S> res = full * m.b - m.b * m.e;
    for (long i = 0; i < res.size(); ++i)
        if (!(std::abs(res.data()[i]) <= PRUNE * scale)) {
            mc::violation("a basis vector is not an eigenvector", mc::cat("residual ", std::abs(res.data()[i]), " ", text<S>(h)));
            return;
        }
}

template <class S>
struct Dense {
    using H = Hamiltonianmatrix<S>;
    struct St {
        H a, b;
        M<S> ma, mb;
    };
    using Op = std::function<void(St &)>;
    std::vector<std::pair<std::string, Op>> ops;

    static bool same_dims(St &s) { return s.ma.e.rows() == s.mb.e.rows(); }
    static void do_cols(St &s, std::vector<bool> const *mask) {
        std::vector<int> k;
        for (long c = 0; c < s.ma.b.cols(); ++c) {
            double w = 0;
            for (long r = 0; r < s.ma.b.rows(); ++r)
                if (!mask || (*mask)[r]) w += std::norm(C(s.ma.b(r, c)));
            if (w > .04 && w < .06) return; // too close to the threshold
            if (w > .05) k.push_back(static_cast<int>(c));
        }
        if (mask) s.a.removeUnnecessaryBasisvectors(*mask);
        else s.a.removeUnnecessaryBasisvectors();
        s.ma = keep_cols<S>(s.ma, k);
        compare<S>(s.a, s.ma, "removing basis vectors");
    }
    static void do_rows(St &s, unsigned bits) {
        std::vector<bool> mask;
        std::vector<int> k;
        for (long r = 0; r < s.ma.b.rows(); ++r) {
            mask.push_back(bits >> r & 1);
            if (bits >> r & 1) k.push_back(static_cast<int>(r));
        }
        s.a.removeUnnecessaryStates(mask);
        DM<S> nb(k.size(), s.ma.b.cols());
        for (size_t i = 0; i < k.size(); ++i) nb.row(i) = s.ma.b.row(k[i]);
        s.ma.b = nb;
        compare<S>(s.a, s.ma, "removing states");
    }
    static void find(St &s) {
        std::vector<bool> mask(s.ma.b.rows(), false), want;
        if (!mask.empty()) mask[0] = true;
        want = mask;
        for (long r = 0; r < s.ma.b.rows(); ++r) {
            double w = 0;
            for (long c = 0; c < s.ma.b.cols(); ++c) w += std::norm(C(s.ma.b(r, c)));
            if (w > .04 && w < .06) return;
            if (w > .05) want[r] = true;
        }
        s.a.findUnnecessaryStates(mask);
        if (mask != want) mc::violation("the needed states are determined wrongly", text<S>(s.a));
    }
    static std::vector<bool> bits(long n, unsigned b) {
        std::vector<bool> m;
        for (long r = 0; r < n; ++r) m.push_back(b >> r & 1);
        return m;
    }
    static void cutoff(St &s, double c) {
        std::vector<int> k;
        for (long i = 0; i < s.ma.e.rows(); ++i) {
            if (std::abs(std::abs(s.ma.e(i, i)) - c) < 1e-6) return;
            if (std::abs(s.ma.e(i, i)) < c) k.push_back(static_cast<int>(i));
        }
        s.a.applyCutoff(c);
        s.ma = keep_cols<S>(s.ma, k);
        compare<S>(s.a, s.ma, "applying a cutoff");
    }
    static void block(St &s, std::vector<int> k) {
        std::vector<ptrdiff_t> idx;
        for (auto &i : k) {
            if (i >= s.ma.e.rows()) return;
            idx.push_back(i);
        }
        H o = s.a.getBlock(idx);
        compare<S>(s.a, s.ma, "taking a block (original)");
        s.a = o;
        s.ma = keep_cols<S>(s.ma, k);
        compare<S>(s.a, s.ma, "taking a block");
    }
    Dense() {
        auto op = [&](std::string n, Op f) { ops.emplace_back(n, f); };
        op("a+=b", [](St &s) {
            if (!same_dims(s)) return;
            s.a += s.b;
            s.ma.e += s.mb.e;
            compare<S>(s.a, s.ma, "adding in place");
        });
        op("a-=b", [](St &s) {
            if (!same_dims(s)) return;
            s.a -= s.b;
            s.ma.e -= s.mb.e;
            compare<S>(s.a, s.ma, "subtracting in place");
        });
        op("a=b+a", [](St &s) {
            if (!same_dims(s)) return;
            H x = s.b + s.a;
            s.ma = {s.mb.e + s.ma.e, s.mb.b};
            s.a = x;
            compare<S>(s.a, s.ma, "adding");
            compare<S>(s.b, s.mb, "adding (operand)");
        });
        op("a=b-a", [](St &s) {
            if (!same_dims(s)) return;
            H x = s.b - s.a;
            s.ma = {s.mb.e - s.ma.e, s.mb.b};
            s.a = x;
            compare<S>(s.a, s.ma, "subtracting");
        });
        op("a=-2a", [](St &s) {
            s.a = S(-2) * s.a;
            s.ma.e *= S(-2);
            compare<S>(s.a, s.ma, "scaling");
        });
        op("a=a*.5", [](St &s) {
            s.a = s.a * S(.5);
            s.ma.e *= S(.5);
            compare<S>(s.a, s.ma, "scaling from the right");
        });
        op("abs", [](St &s) {
            s.a = s.a.abs();
            s.ma.e = s.ma.e.cwiseAbs().template cast<S>();
            compare<S>(s.a, s.ma, "taking absolute values");
        });
        op("into b's basis", [](St &s) {
            if (s.ma.b.rows() != s.mb.b.rows()) return;
            DM<S> t = s.ma.b.adjoint() * s.mb.b;
            s.a = s.a.changeBasis(s.b.basis());
            s.ma = {t.adjoint() * s.ma.e * t, s.mb.b};
            compare<S>(s.a, s.ma, "changing the basis");
        });
        op("cutoff 1.5", [](St &s) { cutoff(s, 1.5); });
        op("cutoff 0", [](St &s) { cutoff(s, -1); });
        op("find", [](St &s) { find(s); });
        op("vectors", [](St &s) { do_cols(s, nullptr); });
        op("vectors 101", [](St &s) {
            auto m = bits(s.ma.b.rows(), 5);
            do_cols(s, &m);
        });
        op("states 011", [](St &s) { do_rows(s, 3); });
        op("states 110", [](St &s) { do_rows(s, 14); });
        op("block 1,0", [](St &s) { block(s, {1, 0}); });
        op("block 2", [](St &s) { block(s, {2}); });
        op("block none", [](St &s) { block(s, {}); });
        op("diagonalize", [](St &s) {
            if (hermitian<S>(s.ma.e)) check_diagonalize<S>(s.a, s.ma);
        });
        op("swap", [](St &s) {
            std::swap(s.a, s.b);
            std::swap(s.ma, s.mb);
        });
    }
    std::string ty;
    int depth;
    void node(St const &s, std::string const &l, int d, int first, int last) {
        auto &r = mc::R();
        for (int i = first; i < last && r.violations.empty(); ++i) {
            std::string nl = l + (d ? " ; " : "") + ops[i].first;
            if (r.has_only && r.only.compare(0, nl.size(), nl) != 0) continue;
            mc::enter(nl);
            r.label = nl;
            St t(s);
            ++r.states;
            ++r.transitions;
            try {
                ops[i].second(t);
                compare<S>(t.b, t.mb, "an operation on another matrix");
            } catch (std::exception &e) {
                mc::violation("an operation throws", e.what());
            }
            mc::outcome(snap<S>(static_cast<H const &>(t.a)));
            if (d + 1 < depth) node(t, nl, d + 1, 0, static_cast<int>(ops.size()));
            else ++r.traces;
        }
    }
    static S ph(double a) {
        return ph(S(), a);
    }
    static double ph(double, double a) { return std::cos(a) > 0 ? 1 : -1; }
    static C ph(C, double a) { return std::polar(1., a); }
    static St start(int k) {
        St s;
        DM<S> e(3, 3), b(4, 3), f(3, 3), c(4, 3);
        e << S(1), ph(1.) * S(.5), S(0), std::conj(C(ph(1.))).real(), S(-2), ph(2.), S(0), S(0), S(3);
        e(1, 0) = conj(e(0, 1));
        e(2, 1) = conj(e(1, 2));
        f << S(2), S(0), ph(.7), S(0), S(1), S(0), S(0), S(0), S(-1);
        f(2, 0) = conj(f(0, 2));
        b.setZero();
        b(0, 0) = S(1);
        b(1, 1) = S(std::sqrt(.5));
        b(3, 1) = ph(2.5) * S(std::sqrt(.5));
        b(2, 2) = ph(1.5);
        c.setZero();
        c(3, 0) = S(1);
        c(0, 1) = S(.6);
        c(1, 1) = ph(.4) * S(.8);
        c(0, 2) = S(-.8);
        c(1, 2) = ph(.4) * S(.6);
        if (k) std::swap(b, c);
        s.a = H(e.sparseView(), b.sparseView());
        s.b = H(f.sparseView(), c.sparseView());
        s.ma = {e, b};
        s.mb = {f, c};
        return s;
    }
    static double conj(double x) { return x; }
    static C conj(C x) { return std::conj(x); }
    void run(std::string const &type, int dep) {
        ty = type;
        depth = dep;
        int n = static_cast<int>(ops.size());
        mc::parallel(2 * n, [&](int i) { node(start(i / n), mc::cat(ty, " start ", i / n, ": "), 0, i % n, i % n + 1); });
    }

    // all Hermitian matrices over a small set of values, in several bases; all masks
    void all(std::string const &type) {
        std::vector<S> offs = {S(0), S(1), S(-2)};
        if (ph(1.) != S(1)) offs = {S(0), ph(1.), ph(2.) * S(2), ph(-1.5)};
        std::vector<double> diag = {0, 1, -2};
        std::vector<DM<S>> bases;
        {
            DM<S> i = DM<S>::Identity(3, 3), p(3, 3), q(4, 3), w(3, 3);
            p.setZero();
            p(0, 1) = p(1, 2) = p(2, 0) = S(1);
            q.setZero();
            q(0, 0) = S(1);
            q(1, 1) = S(std::sqrt(.5));
            q(3, 1) = ph(2.5) * S(std::sqrt(.5));
            q(2, 2) = ph(1.5);
            double s2 = std::sqrt(.5), s3 = std::sqrt(1. / 3), s6 = std::sqrt(1. / 6);
            w << S(s3), S(s2), S(s6), S(s3), S(-s2), S(s6), S(s3), S(0), S(-2 * s6);
            for (int c = 0; c < 3; ++c) w.col(c) *= ph(c + .3);
            bases = {i, p, q, w};
        }
        size_t no = offs.size();
        mc::parallel(static_cast<int>(bases.size() * 27), [&](int job) {
            size_t bi = job / 27, dg = job % 27;
            for (size_t o = 0; o < no * no * no; ++o) {
                DM<S> e(3, 3);
                for (int i = 0; i < 3; ++i) e(i, i) = S(diag[dg / (i == 0 ? 1 : i == 1 ? 3 : 9) % 3]);
                e(0, 1) = offs[o % no];
                e(0, 2) = offs[o / no % no];
                e(1, 2) = offs[o / no / no];
                e(1, 0) = conj(e(0, 1));
                e(2, 0) = conj(e(0, 2));
                e(2, 1) = conj(e(1, 2));
                for (int n = 1; n <= 3; ++n) {
                    if (n < 3 && (bi == 3 && n == 1)) continue;
                    if (!mc::enter(mc::cat(type, " matrix ", dg, "/", o, " size ", n, " basis ", bi))) continue;
                    auto &r = mc::R();
                    ++r.states;
                    ++r.traces;
                    DM<S> en = e.topLeftCorner(n, n), bn = bases[bi].leftCols(n);
                    M<S> m{en, bn};
                    H h(en.sparseView(), bn.sparseView());
                    mc::outcome(snap<S>(static_cast<H const &>(h)));
                    try {
                        {
                            H x(h);
                            M<S> y(m);
                            check_diagonalize<S>(x, y);
                            check_diagonalize<S>(x, y);
                            r.transitions += 2;
                        }
                        for (size_t bj = 0; bj < bases.size(); ++bj) {
                            if (bases[bj].rows() != bn.rows()) continue;
                            SpM<S> nb = bases[bj].sparseView();
                            H x = h.changeBasis(nb);
                            DM<S> t = bn.adjoint() * bases[bj];
                            compare<S>(x, M<S>{t.adjoint() * en * t, bases[bj]}, "changing the basis");
                            if (n == bn.rows()) {
                                SpM<S> back = bn.sparseView();
                                compare<S>(x.changeBasis(back), m, "changing the basis to and fro");
                            }
                            ++r.transitions;
                        }
                        for (double c : {.5, 1.5, 3.}) {
                            St s{h, h, m, m};
                            cutoff(s, c);
                            ++r.transitions;
                        }
                        if (o % 5) continue;
                        for (unsigned b = 0; b < (1u << bn.rows()); ++b) {
                            St s{h, h, m, m}, t{h, h, m, m};
                            auto mask = bits(bn.rows(), b);
                            do_cols(s, &mask);
                            find(s);
                            do_rows(t, b);
                            do_cols(t, nullptr);
                            find(t);
                            r.transitions += 5;
                        }
                        std::vector<std::vector<int>> blocks = {{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {2, 1, 0}, {1, 2, 0}};
                        for (auto &k : blocks) {
                            St s{h, h, m, m};
                            block(s, k);
                            ++r.transitions;
                        }
                    } catch (std::exception &ex) {
                        mc::violation("an operation throws", ex.what());
                    }
                }
            }
        });
    }
};

int main() {
    int d = mc::tier(4, 5);
    mc::info("history_depth", d);
    Dense<double>().all("real");
    Dense<C>().all("complex");
    Dense<double>().run("history real", d);
    Dense<C>().run("history complex", d);
    return mc::finish();
}
