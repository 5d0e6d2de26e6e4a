// W01: every (species, n, l, j) up to a bound under both integration methods against an independent
// fine-grained integration; all pairs of states and powers; hydrogen; all histories up to a depth.
#include "QuantumDefect.hpp"
#include "Wavefunction.hpp"
#include "dbfiles.hpp"
#include "mc.hpp"
using Xy = Eigen::MatrixX<double>;
static const char *MN[2] = {"numerov", "whittaker"};
static Xy compute(int m, QuantumDefect const &q) { return m ? Whittaker(q).integrate() : Numerov(q).integrate(); }
static double integral(int m, QuantumDefect const &a, int p, QuantumDefect const &b) {
    return m ? IntegrateRadialElement<Whittaker>(a, p, b) : IntegrateRadialElement<Numerov>(a, p, b);
}
static double spin(std::string const &sp) { return isdigit(sp.back()) ? ((sp.back() - '0') - 1) / 2. : .5; }
// the valence electron's states: n from the ground configuration upwards
static bool physical(QuantumDefect const &q) {
    static const std::map<std::string, std::vector<int>> lowest{{"Li", {2, 2, 3}}, {"Na", {3, 3, 3}}, {"K", {4, 4, 3}}, {"Rb", {5, 5, 4}},
                                                                {"Cs", {6, 6, 5}}, {"Sr1", {6, 6, 7}}, {"Sr3", {7, 7, 8}}};
    auto &v = lowest.at(q.species);
    return q.n > q.l && q.nstar < q.n + .01 && q.nstar > q.l + .01 && (q.l > 2 || q.n >= v[q.l]);
}

// X'' = g X in x = sqrt(r), where r R = sqrt(x) X
struct Pot {
    QuantumDefect const &q;
    bool coulomb;
    long double g(long double x) const {
        long double r = x * x, V, E;
        if (coulomb) {
            V = -1 / r;
            E = -1 / (2 * (long double)q.nstar * q.nstar);
        } else {
            long double z = 1 + (q.Z - 1) * expl(-q.a1 * r) - r * (q.a3 + q.a4 * r) * expl(-q.a2 * r);
            long double t = r / q.rc, t6 = t * t * t * t * t * t;
            V = -z / r - q.ac / (2 * r * r * r * r) * -expm1l(-t6);
            if (q.l < 4) {
                long double s = spin(q.species), a = 7.2973525664e-3L;
                V += a * a / (4 * r * r * r) * ((long double)q.j * (q.j + 1) - q.l * (q.l + 1) - s * (s + 1));
            }
            E = q.energy / 6579683.920729L;
        }
        return (2 * q.l + .5L) * (2 * q.l + 1.5L) / r + 8 * r * (V - E);
    }
};
// inward integration (RK4, several steps per grid interval) through the grid points x[n-1] .. x[0]
static std::vector<long double> inward(Pot const &P, double x0, int n, long double xs, long double X, long double D) {
    const int sub = 4;
    std::vector<long double> out(n);
    long double x = xs;
    auto go = [&](long double to, int steps) {
        long double h = (to - x) / steps;
        for (int k = 0; k < steps; ++k) {
            long double g0 = P.g(x), g1 = P.g(x + h / 2), g2 = P.g(x + h);
            long double k1 = D, l1 = g0 * X, k2 = D + h / 2 * l1, l2 = g1 * (X + h / 2 * k1), k3 = D + h / 2 * l2,
                        l3 = g1 * (X + h / 2 * k2), k4 = D + h * l3, l4 = g2 * (X + h * k3);
            X += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
            D += h / 6 * (l1 + 2 * l2 + 2 * l3 + l4);
            x += h;
        }
        x = to;
    };
    for (int i = n - 1; i >= 0; --i) {
        long double t = (long double)x0 + .01L * i;
        go(t, std::max(sub, int((x - t) / .01L * sub)));
        out[i] = X;
    }
    return out;
}
static std::string label(int m, QuantumDefect const &q) { return mc::cat(MN[m], " ", q.species, " n=", q.n, " l=", q.l, " j=", q.j); }

static double worst[2];
static void one(int m, QuantumDefect const &q, double tol) {
    if (!mc::enter("state " + label(m, q))) return;
    mc::R().states++;
    Xy xy = compute(m, q);
    int n = xy.rows();
    if (n < 10 || xy.cols() != 2) return mc::violation("grid is empty");
    double x0 = xy(0, 0), xmax = std::sqrt(2. * q.n * (q.n + 15));
    for (int i = 0; i < n; ++i) {
        if (!(std::abs(xy(i, 0) - (x0 + .01 * i)) < 1e-9) || !std::isfinite(xy(i, 1)))
            return mc::violation("grid or value is wrong", mc::cat("point ", i, ": ", xy(i, 0), " ", xy(i, 1)));
    }
    if (!(x0 >= 1) || x0 != std::floor(x0) || std::abs(xy(n - 1, 0) - xmax) > .0101)
        mc::violation("grid has wrong ends", mc::cat(x0, " .. ", xy(n - 1, 0)));
    // inner end: not beyond the classical turning point
    double rc = (double)q.n * q.n - q.n * std::sqrt((double)q.n * q.n - q.l * (q.l + 1.));
    if (x0 * x0 > std::max(2.08, rc) + 1e-9) mc::violation("grid starts beyond the classical turning point", mc::cat(x0));
    long double norm = 0;
    for (int i = 0; i < n; ++i) norm += 2 * .01L * xy(i, 1) * xy(i, 1) * xy(i, 0) * (m ? 1 : xy(i, 0));
    std::vector<long double> ref;
    if (m == 0) {
        if (!(std::abs((double)norm - 1) < 1e-9)) mc::violation("not normalised", mc::cat((double)norm));
        Pot P{q, false};
        long double xe = xy(n - 1, 0);
        ref = inward(P, x0, n, xe, 1e-10L, -1e-10L * sqrtl(std::max(P.g(xe), 0.L)));
        long double N = 0;
        for (int i = 0; i < n; ++i) N += 2 * .01L * ref[i] * ref[i] * xy(i, 0) * xy(i, 0);
        N = ((q.n - q.l) % 2 ? 1 : -1) / sqrtl(N);
        for (auto &v : ref) v *= N;
    } else {
        Pot P{q, true};
        long double xs = 2 * xmax, nu = q.nstar, z = 2 * xs * xs / nu, sum = 0, term = 1, d = 0;
        // u = exp(-z/2) z^nu sum_k (l+1-nu)_k (-l-nu)_k / k! (-1/z)^k, and its derivative
        for (int k = 0; k < 400; ++k) {
            sum += term;
            d += term * (nu - k) / z;
            long double f = (q.l + 1 - nu + k) * (-q.l - nu + k) / (k + 1) / -z;
            if (fabsl(f) >= 1 && k > nu) break;
            term *= f;
            if (fabsl(term) < 1e-22L * fabsl(sum)) break;
        }
        long double pre = expl(-z / 2 + nu * logl(z) - (lgammal(nu + q.l + 1) + lgammal(nu - q.l)) / 2 - logl(nu));
        long double u = pre * sum, du = pre * (-sum / 2 + d) * 4 * xs / nu; // du/dx
        long double X = u / sqrtl(xs), D = du / sqrtl(xs) - u / (2 * xs * sqrtl(xs));
        ref = inward(P, x0, n, xs, X, D);
        for (int i = 0; i < n; ++i) ref[i] *= sqrtl(xy(i, 0)) * ((q.n - q.l) % 2 ? 1 : -1);
    }
    // inside the inner turning point the (unique) decaying solution is lost in rounding errors
    double scale = 0, dev = 0, turn = m ? q.nstar * q.nstar - q.nstar * std::sqrt(std::max(0., q.nstar * q.nstar - q.l * (q.l + 1.))) : 0;
    for (int i = 0; i < n; ++i) {
        if (xy(i, 0) * xy(i, 0) < turn) continue;
        scale = std::max(scale, (double)fabsl(ref[i]));
        dev = std::max(dev, (double)fabsl(ref[i] - xy(i, 1)));
    }
    if (!(dev <= tol * scale)) mc::violation("wave function is wrong", mc::cat("deviation ", dev, " of ", scale));
    worst[m] = std::max(worst[m], dev / scale);
    mc::R().evaluations += 4;
    mc::outcome("state " + label(m, q));
}

// hydrogen's radial integrals <n l| r^p |n' l'> from the exact polynomials
static std::vector<long double> poly(int n, int l) { // r R = sum_k c_k r^(l+1+k) exp(-r/n)
    std::vector<long double> c(n - l);
    long double N = sqrtl(powl(2.L / n, 3) / (2.L * n) * expl(lgammal(n - l) - lgammal(n + l + 1)));
    for (int k = 0; k < n - l; ++k) {
        // associated Laguerre L_{n-l-1}^{2l+1}
        long double b = expl(lgammal(n + l + 1) - lgammal(n - l - k) - lgammal(2 * l + 2 + k) - lgammal(k + 1));
        c[k] = (k % 2 ? -1 : 1) * N * b * powl(2.L / n, l + k);
    }
    return c;
}
static double exact(int n, int l, int p, int n2, int l2) {
    auto a = poly(n, l), b = poly(n2, l2);
    long double s = 0, al = 1.L / n + 1.L / n2;
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t k = 0; k < b.size(); ++k) {
            int e = l + l2 + 2 + p + i + k;
            s += a[i] * b[k] * expl(lgammal(e + 1) - (e + 1) * logl(al));
        }
    return s;
}

int main() {
    const char *tmp = getenv("MC_TMP");
    std::string dir = tmp ? tmp : "/tmp";
    std::vector<std::string> species{"Li", "Na", "K", "Rb", "Cs", "Sr1", "Sr3"};
    // 1. all states
    struct Job {
        std::string sp;
        int l;
    };
    std::vector<Job> jobs;
    int lmax = mc::tier(12, 60);
    for (int l = 0; l <= lmax; ++l)
        for (auto &s : species) jobs.push_back({s, l});
    mc::parallel(jobs.size(), [&](int i) {
        auto &J = jobs[i];
        double s = spin(J.sp);
        for (int n = J.l + 1; n <= mc::tier(J.l < 4 ? 45 : 22, 130); ++n)
            for (double j = std::abs(J.l - s); j <= J.l + s; ++j) {
                QuantumDefect q(J.sp, n, J.l, j);
                if (!physical(q)) continue;
                one(0, q, 2e-3);
                one(1, q, 2e-4);
            }
        for (int n : {97, 98, 99, 118, 119, 120, 150, 200}) {
            double j = J.l + s;
            QuantumDefect q(J.sp, n, J.l, j);
            if (n <= J.l || J.l > 10) continue;
            one(0, q, 2e-3);
            one(1, q, 2e-4);
        }
        if (getenv("W01_WORST")) fprintf(stderr, "%s %d %g %g\n", J.sp.c_str(), J.l, worst[0], worst[1]);
        worst[0] = worst[1] = 0;
    });
    // 2. all pairs of states, all powers
    mc::parallel(species.size() * 2, [&](int i) {
        auto sp = species[i / 2];
        int m = i % 2;
        double s = spin(sp);
        struct St {
            QuantumDefect q;
            Xy xy;
        };
        std::vector<St> st;
        std::vector<int> ns = mc::thorough() ? std::vector<int>{4, 5, 6, 7, 8, 9, 10, 12, 15, 18, 23, 30, 41, 60, 80}
                                             : std::vector<int>{5, 6, 9, 23};
        for (int n : ns)
            for (int l : mc::thorough() ? std::vector<int>{0, 1, 2, 3, 4, 7, 11, 22, 39} : std::vector<int>{0, 1, 2, 5, 20})
                for (double j = std::abs(l - s); j <= l + s; ++j) {
                    if (l >= n) continue;
                    QuantumDefect q(sp, n, l, j);
                    if (!physical(q) || (l > 4 && j < l)) continue;
                    st.push_back({q, compute(m, q)});
                }
        for (auto &a : st)
            for (auto &b : st) {
                if (&a > &b) continue;
                for (int p : {-1, 0, 1, 2, 3}) {
                    if (!mc::enter(mc::cat("pair ", label(m, a.q), " r^", p, " ", label(m, b.q)))) continue;
                    mc::R().states++;
                    double ab = integral(m, a.q, p, b.q), ba = integral(m, b.q, p, a.q);
                    long double sum = 0, abssum = 0, last = 0;
                    int off = std::lround((a.xy(0, 0) - b.xy(0, 0)) * 100);
                    for (int k = 0; k < a.xy.rows(); ++k) {
                        int k2 = k + off;
                        if (k2 < 0 || k2 >= b.xy.rows()) continue;
                        long double t = 2 * .01L * a.xy(k, 1) * b.xy(k2, 1) * powl(a.xy(k, 0), m ? 2 * p + 1 : 2 * p + 2);
                        sum += t;
                        abssum += fabsl(t);
                        last = fabsl(t);
                    }
                    double tol = 1e-6 * (double)abssum + 1.01 * (double)last; // the outermost point may count or not
                    if (!(std::abs(ab - ba) <= 1e-11 * (double)abssum)) mc::violation("not symmetric", mc::cat(ab, " vs ", ba));
                    if (!(std::abs(ab - (double)sum) <= tol)) mc::violation("wrong integral", mc::cat(ab, " instead of ", (double)sum));
                    if (&a == &b && p % 2 == 0 && !(ab > 0)) mc::violation("not positive", mc::cat(ab));
                    mc::R().evaluations += 3;
                    mc::outcome(mc::cat(m, ab));
                }
            }
    });
    // 3. all pairs of grids
    {
        QuantumDefect q0("Rb", 5, 0, .5);
        std::vector<Eigen::VectorXd> grid;
        std::vector<std::string> name;
        std::set<std::pair<double, int>> seen;
        for (int n = 2; n <= mc::tier(60, 120); ++n)
            for (int l = 0; l < n; l += (n <= 40 && l < 12 ? 1 : 3)) {
                QuantumDefect q("Rb", n, l, l + .5);
                Xy xy = Numerov(q).integrate();
                if (!seen.insert({xy(0, 0), xy.rows()}).second) continue;
                grid.push_back(xy.col(0));
                name.push_back(mc::cat("n=", n, " l=", l));
            }
        mc::info("distinct grids", (long long)grid.size());
        for (size_t a = 0; a < grid.size(); ++a)
            for (size_t b = 0; b < grid.size(); ++b) {
                if (!mc::enter(mc::cat("grids ", name[a], ", ", name[b]))) continue;
                mc::R().states++;
                auto &A = grid[a];
                auto &B = grid[b];
                double lo = std::max(A(0), B(0)), hi = std::min(A(A.rows() - 1), B(B.rows() - 1));
                if (lo > hi) continue;
                try {
                    for (double t : {lo, hi}) {
                        int k = findidx(A, t);
                        if (k < 0 || k >= A.rows() || std::abs(A(k) - t) > 1e-9) mc::violation("search found a wrong point", mc::cat(t));
                    }
                } catch (std::exception &e) {
                    mc::violation("search for a common point fails", e.what());
                }
            }
    }
    // 4. hydrogen
    {
        std::string file = dir + "/hydrogen.db.sql";
        Db d;
        for (int l = 0; l < 4; ++l) {
            d.mp.push_back({"H", l, 0, 1, 1, 1, 0, 0, 1});
            for (int k = 0; k < (l ? 2 : 1); ++k) d.rr.push_back({"H", l, l ? l - .5 + k : .5, 0, 0, 0, 0, 0, 109737.31568525});
        }
        std::string dbf = dir + "/hydrogen.db";
        unlink(dbf.c_str());
        write_file(dbf, db_sql(d));
        int nmax = mc::tier(14, 22);
        mc::parallel(nmax * 2, [&](int job) {
            int m = job % 2, n = job / 2 + 1;
            for (int l = 0; l < n; ++l)
                for (int n2 = n; n2 <= nmax; ++n2)
                    for (int l2 = 0; l2 < n2; ++l2) {
                        QuantumDefect a("H", n, l, l + .5, dbf), b("H", n2, l2, l2 + .5, dbf);
                        // the part within one Bohr radius is not on the grid
                        if (n < 5 && l < 3) continue;
                        if (l2 < 3 && n2 < 5) continue;
                        for (int p : {1, 2, 3}) {
                            bool diag = n == n2 && l == l2;
                            if (!diag && (std::abs(l - l2) > p || (l + l2 + p) % 2 || l + l2 < p)) continue;
                            if (!mc::enter(mc::cat("hydrogen ", MN[m], " <", n, ",", l, "|r^", p, "|", n2, ",", l2, ">"))) continue;
                            mc::R().states++;
                            double v = integral(m, a, p, b), e = exact(n, l, p, n2, l2);
                            double sg = ((n - l) % 2 ? 1 : -1) * ((n2 - l2) % 2 ? 1 : -1) *
                                (((n - l - 1) % 2) ? -1 : 1) * (((n2 - l2 - 1) % 2) ? -1 : 1); // sign conventions
                            double scale = std::sqrt(std::abs(exact(n, l, 2 * p, n, l)));
                            if (!(std::abs(v - sg * e) <= 2e-3 * scale)) mc::violation("not hydrogen's value", mc::cat(v, " instead of ", sg * e, " scale ", scale));
                            if (diag && !(std::abs(v / e - 1) < 5e-3)) mc::violation("not hydrogen's expectation value", mc::cat(v, " instead of ", e));
                            mc::R().evaluations++;
                            mc::outcome(mc::cat("H", m, v));
                        }
                    }
        });
    }
    // 5. histories
    {
        struct L {
            int m;
            std::string sp;
            int n, l, p, n2, l2;
        };
        std::vector<L> ls{{0, "Rb", 20, 0, 1, 21, 1}, {0, "Rb", 20, 1, 1, 20, 0}, {0, "Cs", 20, 0, 1, 21, 1}, {1, "Rb", 20, 0, 1, 21, 1},
                          {0, "Rb", 30, 2, 2, 30, 2}, {1, "Sr3", 15, 3, 2, 9, 1}};
        auto run = [](L const &l) {
            double s = spin(l.sp);
            QuantumDefect a(l.sp, l.n, l.l, l.l + s), b(l.sp, l.n2, l.l2, l.l2 + s);
            Xy xy = compute(l.m, a);
            uint64_t h = mc::hash(std::string((const char *)xy.data(), xy.size() * 8));
            return mc::cat(integral(l.m, a, l.p, b), " ", h);
        };
        std::vector<std::string> ref;
        for (auto &l : ls) ref.push_back(mc::isolated([&] { return run(l); }).out);
        mc::Tree t;
        t.depth = mc::tier(3, 4);
        for (auto &l : ls) t.names.push_back(mc::cat(MN[l.m], "(", l.sp, l.n, ",", l.l, ";", l.n2, ",", l.l2, ")"));
        t.step = [&](int a, std::vector<int> const &) {
            std::string r = run(ls[a]);
            if (r != ref[a]) mc::violation("result depends on history", r + " instead of " + ref[a]);
            mc::R().evaluations++;
            mc::outcome(r);
            return true;
        };
        t.prefix = "history ";
        t.run();
    }
    return mc::finish();
}
