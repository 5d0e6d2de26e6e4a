// L02: the calculation backend against the system interface, for all configurations of a grid: single atoms in electric
// and magnetic fields (also scanned), and interacting pairs with distances, orders, energy windows and symmetries.
#include "backend.hpp"
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "SystemOne.hpp"
#include "SystemTwo.hpp"
#include <array>
using C3 = std::array<double, 3>;

static std::string num(double x) { return mc::cat(x); }
static double D(Conf const &c, std::string const &k) { return std::stod(c.at(k)); }
static bool yes(Conf const &c, std::string const &k) { return c.count(k) && c.at(k) == "true"; }
static C3 field(Conf const &c, char f, double pos) {
    C3 r;
    for (int i = 0; i < 3; ++i) {
        std::string s = mc::cat(f, "xyz"[i]);
        r[i] = D(c, "min" + s) + pos * (D(c, "max" + s) - D(c, "min" + s));
    }
    return r;
}
static bool fields_vary(Conf const &c) {
    for (auto f : {"Ex", "Ey", "Ez", "Bx", "By", "Bz"})
        if (D(c, std::string("min") + f) != D(c, std::string("max") + f)) return true;
    return false;
}
static MatrixElementCache &cache() {
    static MatrixElementCache c;
    return c;
}
static StateOne initial(Conf const &c, int atom) {
    std::string a = mc::cat(atom);
    return StateOne(c.at("species" + a), D(c, "n" + a), D(c, "l" + a), D(c, "j" + a), D(c, "m" + a));
}
template <class Scalar>
SystemOne<Scalar> system_one(Conf const &c, int atom, double pos) {
    auto st = initial(c, atom);
    SystemOne<Scalar> s(st.getSpecies(), cache());
    int dn = D(c, "deltaNSingle"), dl = D(c, "deltaLSingle");
    float dj = D(c, "deltaJSingle"), dm = D(c, "deltaMSingle");
    s.restrictN(st.getN() - dn, st.getN() + dn);
    if (dl >= 0) s.restrictL(st.getL() - dl, st.getL() + dl);
    if (dj >= 0) s.restrictJ(st.getJ() - dj, st.getJ() + dj);
    bool both = yes(c, "samebasis"); // the windows of both states (equal but for m)
    float m1 = st.getM(), m2 = both ? (float)D(c, "m2") : m1;
    if (dm >= 0) s.restrictM(std::min(m1, m2) - dm, std::max(m1, m2) + dm);
    double dE = D(c, "deltaESingle"), e0 = st.getEnergy(cache());
    if (dE >= 0) s.restrictEnergy(e0 - dE, e0 + dE);
    s.setEfield(field(c, 'E', pos));
    s.setBfield(field(c, 'B', pos));
    s.enableDiamagnetism(yes(c, "diamagnetism"));
    return s;
}
template <class Scalar>
CM dense(Eigen::SparseMatrix<Scalar> const &m) {
    return CM(Eigen::Matrix<Scalar, -1, -1>(m).template cast<std::complex<double>>());
}
static double big(CM const &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
static std::string where(CM const &a, CM const &b) {
    int i, k;
    (a - b).cwiseAbs().maxCoeff(&i, &k);
    return mc::cat("entry ", i, ",", k, ": ", a(i, k).real(), "+", a(i, k).imag(), "i, expected ", b(i, k).real(), "+", b(i, k).imag(), "i");
}
static double coupling(CM const &O) { // size of the entries that couple states
    double off = 0;
    for (int i = 0; i < O.rows(); ++i)
        for (int k = 0; k < O.cols(); ++k)
            if (i != k) off = std::max(off, std::abs(O(i, k)));
    return off;
}
static std::map<std::string, std::string> json(std::string const &file) {
    std::map<std::string, std::string> r;
    std::ifstream f(file);
    std::string line;
    while (std::getline(f, line)) {
        std::vector<std::string> q;
        size_t p = 0;
        while ((p = line.find('"', p)) != std::string::npos) {
            size_t e = line.find('"', p + 1);
            if (e == std::string::npos) break;
            q.push_back(line.substr(p + 1, e - p - 1));
            p = e + 1;
        }
        if (q.size() == 2) r[q[0]] = q[1];
    }
    return r;
}
// The operator O on the range of the projector P against energies (diagonal of H) and eigenvectors V, whose entries below
// 1e-4 are dropped by the backend: the same energies up to tol, and the same space for every group of levels that is
// well separated from the others.
static std::string compare(CM const &O, CM const &P, CM const &H, CM const &V, double tol) {
    Eigen::SelfAdjointEigenSolver<CM> ep(P);
    int n = P.rows(), rank = 0;
    for (int i = 0; i < n; ++i) rank += ep.eigenvalues()[i] > .5;
    if (V.rows() != n || V.cols() != H.cols() || V.cols() != rank) return mc::cat("size: ", V.cols(), " vectors of length ", V.rows(), ", expected ", rank, " of length ", n);
    if (rank == 0) return "";
    CM U = ep.eigenvectors().rightCols(rank);
    Eigen::SelfAdjointEigenSolver<CM> eo(U.adjoint() * O * U);
    CM Y = U * eo.eigenvectors();
    std::vector<int> ord(rank);
    for (int i = 0; i < rank; ++i) ord[i] = i;
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return H(a, a).real() < H(b, b).real(); });
    tol += 1e-12 * eo.eigenvalues().cwiseAbs().maxCoeff();
    for (int i = 0; i < rank; ++i)
        if (!(std::abs(H(ord[i], ord[i]) - eo.eigenvalues()[i]) <= tol)) return mc::cat("energy ", i, ": ", H(ord[i], ord[i]).real(), ", expected ", eo.eigenvalues()[i]);
    for (int i = 0; i < rank;) {
        int k = i + 1;
        while (k < rank && eo.eigenvalues()[k] - eo.eigenvalues()[k - 1] < 500 * tol) ++k;
        CM A = CM::Zero(n, k - i);
        for (int x = i; x < k; ++x) A.col(x - i) = V.col(ord[x]);
        CM a = A * A.adjoint(), b = Y.middleCols(i, k - i) * Y.middleCols(i, k - i).adjoint();
        if (!(big(a - b) < 1e-2)) return mc::cat("states of levels ", i, " to ", k - 1, " at ", eo.eigenvalues()[i], ": projector ", where(a, b));
        mc::count("groups of levels");
        i = k;
    }
    return "";
}
static bool diagonal(CM const &H) {
    CM o = H;
    o.diagonal().setZero();
    return big(o) == 0;
}
// one stage of single-atom matrices
template <class Scalar>
void check_one(Conf const &c, Stage const &s, int atom) {
    std::string what = mc::cat("atom ", atom, ": ");
    auto fail = [&](std::string const &a, std::string const &b) { mc::violation(what + a, b); };
    int steps = fields_vary(c) ? (int)D(c, "steps") : 1;
    if (s.tot != steps || (int)s.outs.size() != steps) return fail("number of steps", mc::cat(s.tot, " announced, ", s.outs.size(), " reported, expected ", steps));
    if (s.bas != (int)s.rows.size()) return fail("number of basis states", mc::cat(s.bas, " announced, file has ", s.rows.size()));
    std::set<int> seen;
    for (auto &o : s.outs) {
        if (o.nsym != 1 || o.sym != 0 || o.nr != o.step + 1 || !seen.insert(o.step).second || o.step < 0 || o.step >= steps) return fail("numbering of the steps", mc::cat(o.nr, " ", o.step));
        double pos = steps > 1 ? o.step / (steps - 1.) : 0;
        auto sys = system_one<Scalar>(c, atom, pos);
        CM H, V;
        if (!load_out<Scalar>(o, H, V)) return fail("matrix file", o.path);
        CM want = dense<Scalar>(sys.getHamiltonian());
        CM b = dense<Scalar>(sys.getBasisvectors());
        want = (b * want * b.adjoint()).eval();
        auto states = sys.getStates();
        double e0 = initial(c, atom).getEnergy(cache());
        if (yes(c, "samebasis")) e0 = .5 * (e0 + initial(c, 2).getEnergy(cache()));
        for (int i = 0; i < want.rows(); ++i) want(i, i) -= e0;
        std::map<StateOne, int> index;
        for (size_t i = 0; i < s.rows.size(); ++i)
            index[StateOne(c.at(mc::cat("species", atom)), s.rows[i][1], s.rows[i][2], s.rows[i][3], s.rows[i][4])] = i;
        mc::R().evaluations++;
        if (index.size() != states.size()) return fail("basis", mc::cat(index.size(), " states, the system has ", states.size()));
        CM O = CM::Zero(want.rows(), want.cols());
        std::vector<int> at;
        for (auto &st : states) {
            auto it = index.find(st);
            if (it == index.end()) return fail("basis", "missing " + st.str());
            at.push_back(it->second);
        }
        for (size_t i = 0; i < at.size(); ++i)
            for (size_t k = 0; k < at.size(); ++k) O(at[i], at[k]) = want(i, k);
        if (H.rows() != O.rows() || V.rows() != O.rows() || V.cols() != O.cols()) return fail("size of the matrix", mc::cat(H.rows(), ", ", V.rows(), "x", V.cols()));
        if (!diagonal(H)) return fail("not diagonalised", mc::cat("step ", o.step));
        C3 f = field(c, 'B', pos); // the two generations of the code know the magnetic moment of the electron to seven digits
        auto err = compare(O, CM::Identity(O.rows(), O.cols()), H, V, 3e-8 * coupling(O) + 1e-9 * std::sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]));
        if (!err.empty()) return fail("another Hamiltonian", mc::cat("step ", o.step, ", ", err));
        mc::outcome(mc::cat(int(big(O) * 1e6), " ", O.rows()));
    }
}
static int parity(double x) { return std::lround(x) % 2 == 0 ? 1 : -1; }
template <class Scalar>
void check_two(Conf const &c, Stage const &s) {
    auto fail = [&](std::string const &a, std::string const &b) { mc::violation("pair: " + a, b); };
    bool vary = fields_vary(c), fieldfree = true;
    for (auto &e : c)
        if (e.first.size() == 5 && (e.first[3] == 'E' || e.first[3] == 'B') && e.second != "0") fieldfree = false;
    int steps = vary || D(c, "minR") != D(c, "maxR") ? (int)D(c, "steps") : 1;
    int n = s.rows.size();
    std::map<StateTwo, int> index;
    std::string sp2 = yes(c, "samebasis") ? c.at("species1") : c.at("species2");
    for (int i = 0; i < n; ++i) {
        auto &r = s.rows[i];
        if (r.size() != 9 || r[0] != i) return fail("basis file", mc::cat("row ", i));
        index[StateTwo({{c.at("species1"), sp2}}, {{(int)r[1], (int)r[5]}}, {{(int)r[2], (int)r[6]}}, {{(float)r[3], (float)r[7]}}, {{(float)r[4], (float)r[8]}})] = i;
    }
    StateTwo init(initial(c, 1), initial(c, 2));
    auto i0 = index.find(init);
    if (i0 == index.end()) return fail("initial state", "not in the basis");
    // symmetry operations
    CM X = CM::Zero(n, n), I = X, R = X;
    Eigen::VectorXd M(n);
    for (auto &e : index) {
        auto &r = s.rows[e.second];
        auto put = [&](CM &m, StateTwo const &t, double v) {
            auto it = index.find(t);
            if (it != index.end()) m(it->second, e.second) = v;
        };
        auto &t = e.first;
        double pl = parity(r[2] + r[6]);
        put(X, StateTwo(t.getSecondState(), t.getFirstState()), -1);
        put(I, StateTwo(t.getSecondState(), t.getFirstState()), -pl);
        put(R, t.getReflected(), pl * parity(r[3] + r[7]) * parity(r[4] + r[8]));
        M[e.second] = r[4] + r[8];
    }
    auto requested = [&](std::string const &e, std::string const &o) {
        std::vector<std::string> v;
        if (yes(c, e)) v.push_back("1");
        if (yes(c, o)) v.push_back("-1");
        if (v.empty()) v.push_back("");
        return v;
    };
    if (s.outs.empty() && s.tot != 0) return fail("results", "none");
    int nsym = s.outs.empty() ? 0 : s.outs[0].nsym;
    if (s.tot != steps * nsym || (int)s.outs.size() != s.tot) return fail("number of results", mc::cat(s.tot, " announced, ", s.outs.size(), " reported, ", nsym, " symmetries"));
    std::map<int, std::vector<Out const *>> by;
    for (auto &o : s.outs) {
        if (o.nsym != nsym || o.nr != o.step * nsym + o.sym + 1) return fail("numbering", mc::cat(o.nr, " ", o.step, " ", o.sym));
        by[o.step].push_back(&o);
    }
    for (auto &st : by) {
        double pos = steps > 1 ? st.first / (steps - 1.) : 0;
        auto s1 = system_one<Scalar>(c, 1, vary ? pos : 0), s2 = yes(c, "samebasis") ? s1 : system_one<Scalar>(c, 2, vary ? pos : 0);
        SystemTwo<Scalar> sys(s1, s2, cache());
        double e0 = init.getEnergy(cache()), dE = D(c, "deltaEPair");
        if (dE >= 0) sys.restrictEnergy(e0 - dE, e0 + dE);
        sys.setMinimalNorm(0);
        double dist = D(c, "minR") + pos * (D(c, "maxR") - D(c, "minR"));
        if (D(c, "exponent") > 2) {
            sys.setDistanceVector({{0, 0, dist}});
            sys.setOrder(D(c, "exponent"));
        }
        CM h = dense<Scalar>(sys.getHamiltonian()), b = dense<Scalar>(sys.getBasisvectors());
        auto states = sys.getStates();
        CM B = CM::Zero(n, b.cols());
        for (size_t i = 0; i < states.size(); ++i) {
            auto it = index.find(states[i]);
            if (it == index.end()) return fail("basis", "missing " + states[i].str());
            B.row(it->second) = b.row(i);
        }
        h.diagonal().array() -= e0;
        CM O = B * h * B.adjoint(), W = B * B.adjoint();
        CM bare = O;
        {
            SystemTwo<Scalar> free(s1, s2, cache()); // without the interaction
            if (dE >= 0) free.restrictEnergy(e0 - dE, e0 + dE);
            free.setMinimalNorm(0);
            CM h0 = dense<Scalar>(free.getHamiltonian());
            h0.diagonal().array() -= e0;
            bare = B * h0 * B.adjoint();
        }
        double inter = big(O - bare);
        CM sum = CM::Zero(n, n);
        std::set<std::string> labels;
        for (auto *o : st.second) {
            CM H, V;
            if (!load_out<Scalar>(*o, H, V)) return fail("matrix file", o->path);
            if (V.rows() != n) return fail("size of the matrix", mc::cat(V.rows(), " instead of ", n));
            auto j = json(o->path + ".json");
            std::string label = mc::cat("inv=", j["inversion"], " per=", j["permutation"], " ref=", j["reflection"], " rot=", j["rotation"]);
            if (!labels.insert(label).second) return fail("sector reported twice", label);
            CM S = CM::Identity(n, n), one = S;
            if (j["inversion"] != "") S = (.5 * (one + std::stoi(j["inversion"]) * I) * S).eval();
            if (j["permutation"] != "") S = (.5 * (one + std::stoi(j["permutation"]) * X) * S).eval();
            if (j["reflection"] != "") S = (.5 * (one + std::stoi(j["reflection"]) * R) * S).eval();
            if (j["rotation"] != "") {
                double m = std::stod(j["rotation"]);
                for (int i = 0; i < n; ++i)
                    if (!(M[i] == m || (j["reflection"] != "" && M[i] == -m))) S.row(i).setZero(), S.col(i).setZero();
            }
            if (!diagonal(H)) return fail("not diagonalised", mc::cat("step ", o->step, " ", label));
            CM P = V * V.adjoint(), want = S * O * S, wantP = S * W * S;
            mc::R().evaluations++;
            if (!(big(P - wantP) < 1e-2)) return fail("other states", mc::cat("step ", o->step, " sector ", label, ": ", V.cols(), " states instead of ", wantP.trace().real(), "; ", where(P, wantP)));
            auto err = compare(O, wantP, H, V, (fieldfree ? 3e-7 : 2e-3) * inter + (fieldfree ? 1e-10 : 1e-6));
            if (!err.empty()) return fail("another Hamiltonian", mc::cat("step ", o->step, " sector ", label, ", ", err));
            sum += P;
            mc::outcome(mc::cat(int(big(want) * 1e6), label));
        }
        // the requested sectors are all there
        if (!yes(c, "sametrafo")) {
            CM one = CM::Identity(n, n), Q = CM::Zero(n, n);
            auto inv = requested("invE", "invO"), per = requested("perE", "perO"), ref = requested("refE", "refO");
            for (auto &a : inv)
                for (auto &p : per)
                    for (auto &r : ref) {
                        CM S = one;
                        if (a != "") S = (.5 * (one + std::stoi(a) * I) * S).eval();
                        if (p != "") S = (.5 * (one + std::stoi(p) * X) * S).eval();
                        if (r != "") S = (.5 * (one + std::stoi(r) * R) * S).eval();
                        Q += S;
                    }
            CM want = Q * W * Q;
            if (!(big(sum - want) < 1e-2)) return fail("sectors missing", mc::cat("step ", st.first, ": ", sum.trace().real(), " states instead of ", want.trace().real()));
        } else {
            bool all = true; // a parity that the initial state might lack was excluded
            for (auto p : {"inv", "per", "ref"}) all = all && (yes(c, mc::cat(p, "E")) == yes(c, mc::cat(p, "O")));
            double in = sum(i0->second, i0->second).real();
            if (all && !(in > 1 - 1e-2)) return fail("initial state", mc::cat("contained with weight ", in, " only"));
        }
    }
}
template <class Scalar>
void run_case(std::string const &label, Conf const &c) {
    if (!mc::enter(label)) return;
    auto &r = mc::R();
    r.states++;
    mc::Scratch dir;
    std::string cachedir = dir / "cache";
    mkdir(cachedir.c_str(), 0755);
    Result res = run_backend<Scalar>(c, cachedir, dir.path);
    if (!res.ok) return mc::violation("calculation fails", res.error);
    std::vector<int> want;
    if (yes(c, "samebasis")) want = {3, 2};
    else if (c.count("minR")) want = {0, 1, 2};
    else want = {0};
    std::vector<int> got;
    for (auto &s : res.stages) got.push_back(s.typ);
    if (got != want) return mc::violation("stages", mc::cat(got.size()));
    for (auto &s : res.stages) {
        r.transitions++;
        if (s.typ == 2) check_two<Scalar>(c, s);
        else check_one<Scalar>(c, s, s.typ == 1 ? 2 : 1);
    }
    mc::sample(label + mc::cat(": ", res.stages.back().rows.size(), " basis states, ", res.stages.back().tot, " matrices"));
}
struct Case {
    std::string label;
    Conf c;
    bool complex_;
};
static std::string d(C3 const &v) { return mc::cat("(", v[0], ",", v[1], ",", v[2], ")"); }
static Conf fields(C3 E, C3 B, C3 E2, C3 B2) {
    Conf c;
    for (int i = 0; i < 3; ++i) {
        std::string x(1, "xyz"[i]);
        c["minE" + x] = num(E[i]), c["maxE" + x] = num(E2[i]), c["minB" + x] = num(B[i]), c["maxB" + x] = num(B2[i]);
    }
    return c;
}
int main() {
    setenv("OMP_NUM_THREADS", "1", 1);
    std::vector<Case> cases;
    auto add = [&](std::string const &l, Conf const &c, bool both = true) {
        bool y = false;
        for (auto k : {"minEy", "maxEy", "minBy", "maxBy"}) y = y || D(c, k) != 0;
        cases.push_back({l + " complex", c, true});
        if (!y && both) cases.push_back({l + " real", c, false});
    };
    std::vector<C3> Es{{{0, 0, 0}}, {{0, 0, 3}}, {{2, 0, 0}}, {{0, -2, 0}}, {{1, 0, -2}}, {{1, -.5, 2}}};
    std::vector<C3> Bs{{{0, 0, 0}}, {{0, 0, 300}}, {{-200, 0, 0}}, {{0, 200, 0}}, {{100, 0, 200}}, {{100, 200, -50}}};
    struct Window {
        std::string name;
        Conf c;
    };
    std::vector<Window> windows{
        {"n20 p3/2", {{"deltaNSingle", "1"}, {"deltaLSingle", "2"}, {"deltaJSingle", "1"}, {"deltaMSingle", "2"}}},
        {"all l", {{"n1", "6"}, {"l1", "2"}, {"j1", "2.5"}, {"m1", "-1.5"}, {"deltaNSingle", "0"}, {"deltaLSingle", "-1"}, {"deltaJSingle", "-1"}, {"deltaMSingle", "-1"}}},
        {"energy window", {{"deltaNSingle", "2"}, {"deltaLSingle", "2"}, {"deltaJSingle", "-1"}, {"deltaMSingle", "1"}, {"deltaESingle", "1500"}}},
        {"one l", {{"deltaNSingle", "1"}, {"deltaLSingle", "0"}, {"deltaJSingle", "0"}, {"deltaMSingle", "-1"}}},
        {"Cs d", {{"species1", "Cs"}, {"l1", "2"}, {"j1", "1.5"}, {"m1", "0.5"}, {"deltaNSingle", "1"}, {"deltaLSingle", "1"}, {"deltaJSingle", "-1"}, {"deltaMSingle", "1"}}},
        {"Whittaker", {{"missingCalc", "false"}, {"missingWhittaker", "true"}, {"deltaNSingle", "1"}}},
    };
    if (!mc::thorough()) windows.erase(windows.begin() + 4);
    for (auto &w : windows)
        for (auto &E : Es)
            for (auto &B : Bs)
                for (auto dia : {"false", "true"}) {
                    if (w.name == "Whittaker") continue; // below
                    if (B == C3{{0, 0, 0}} && dia == std::string("true")) continue;
                    add(mc::cat("one atom, ", w.name, ", E=", d(E), " B=", d(B), " dia=", dia), with(with(with(base_conf(), w.c), fields(E, B, E, B)), {{"diamagnetism", dia}}));
                }
    // scans of the fields
    for (auto &E : Es)
        for (auto &E2 : Es)
            for (int b = 0; b < 3; ++b) {
                C3 B = Bs[b == 2 ? 5 : b], B2 = Bs[b == 0 ? 0 : b == 1 ? 4 : 5];
                add(mc::cat("one atom, scan, E=", d(E), "..", d(E2), " B=", d(B), "..", d(B2)),
                    with(with(base_conf(), fields(E, B, E2, B2)), {{"steps", "3"}, {"diamagnetism", b ? "true" : "false"}, {"deltaNSingle", "0"}}));
            }
    // pairs
    std::vector<Window> pairs{
        {"p3/2 p1/2", {}},
        {"Rb Cs", {{"species2", "Cs"}, {"l2", "0"}, {"deltaMSingle", "0"}, {"deltaNSingle", "0"}}},
        {"same basis", {{"samebasis", "true"}, {"j2", "1.5"}, {"m2", "-0.5"}, {"deltaJSingle", "-1"}, {"deltaMSingle", "0"}}},
        {"same basis, same state", {{"samebasis", "true"}, {"j2", "1.5"}, {"m2", "0.5"}, {"deltaJSingle", "-1"}, {"deltaMSingle", "0"}}},
        {"same basis, s states", {{"samebasis", "true"}, {"l1", "0"}, {"j1", "0.5"}, {"l2", "0"}, {"j2", "0.5"}, {"m2", "0.5"}, {"deltaJSingle", "-1"}, {"deltaMSingle", "1"}}},
    };
    struct Scan {
        std::string name;
        Conf c;
        bool sym; // the interaction conserves the symmetries
    };
    C3 O{{0, 0, 0}}, ez{{0, 0, 2}}, bz{{0, 0, 50}}, ex{{1, 0, .5}}, by{{0, 20, 10}};
    std::vector<Scan> scans{
        {"fixed distance", {}, true},
        {"distances", {{"minR", "3"}, {"maxR", "8"}, {"steps", "3"}}, true},
        {"E field", with(fields(ez, O, ez, O), {{"minR", "3"}, {"maxR", "8"}, {"steps", "2"}}), false},
        {"B field, distances", with(fields(O, bz, O, bz), {{"minR", "3"}, {"maxR", "8"}, {"steps", "2"}}), false},
        {"fields across", fields(ex, by, ex, by), false},
        {"scanned E field", with(fields(O, O, ez, O), {{"steps", "3"}}), false},
        {"scanned fields and distances", with(fields(ex, O, ez, by), {{"steps", "3"}, {"maxR", "8"}, {"diamagnetism", "true"}}), false},
    };
    for (auto &p : pairs)
        for (auto &s : scans)
            for (auto ex : {"2", "3", "4", "5"})
                for (auto dE : {"-1", "250"})
                    add(mc::cat("pair, ", p.name, ", ", s.name, ", exponent ", ex, ", energy window ", dE), with(with(with(pair_conf(), p.c), s.c), {{"exponent", ex}, {"deltaEPair", dE}}),
                        mc::thorough() || *ex == '3');
    // symmetries
    std::vector<std::pair<std::string, Conf>> syms;
    for (int inv = 0; inv < 4; ++inv)
        for (int per = 0; per < 4; ++per)
            for (int ref = 0; ref < 4; ++ref)
                for (int m = 0; m < 2; ++m) {
                    auto b = [](bool x) { return std::string(x ? "true" : "false"); };
                    Conf c{{"invE", b(inv & 1)}, {"invO", b(inv & 2)}, {"perE", b(per & 1)}, {"perO", b(per & 2)}, {"refE", b(ref & 1)}, {"refO", b(ref & 2)}, {"conserveM", b(m)}};
                    syms.push_back({mc::cat("inv=", inv, " per=", per, " ref=", ref, " M=", m), c});
                }
    for (size_t ip = 1; ip < pairs.size(); ++ip)
        for (size_t is = 0; is < 4; ++is)
            for (auto &y : syms)
                for (int same = 0; same < 3; ++same) {
                    auto &p = pairs[ip];
                    auto &s = scans[is];
                    Conf c = with(with(with(pair_conf(), p.c), s.c), y.second);
                    if (same) c["sametrafo"] = "true";
                    if (same == 2) c["zerotheta"] = "true";
                    auto on = [&](char const *a) { return yes(c, mc::cat(a, "E")) || yes(c, mc::cat(a, "O")); };
                    if (!on("inv") && !on("per") && !on("ref") && !yes(c, "conserveM")) continue;
                    if ((on("inv") || on("per")) && !yes(c, "samebasis")) continue;  // of two equal atoms
                    if (on("inv") && on("per") && c["exponent"] != "3") continue;
                    if (on("per") && D(c, "exponent") > 3) continue;
                    if (on("inv") && s.name == "E field") continue;                 // broken by the field
                    if (on("ref") && (s.name == "B field, distances" || s.name == "E field")) continue;
                    if (on("ref") && D(c, "deltaMSingle") >= 0 && p.name != "same basis") continue; // the basis is not symmetric
                    if (same == 2 && !yes(c, "conserveM")) continue;
                    if (same && is > 1 && !mc::thorough()) continue;
                    add(mc::cat("pair, ", p.name, ", ", s.name, ", ", y.first, " same=", same), c, mc::thorough());
                }
    mc::count("configurations", cases.size());
    int const chunk = 4, n = (cases.size() + chunk - 1) / chunk;
    mc::parallel(n, [&](int k) {
        for (size_t i = k * chunk; i < std::min<size_t>(cases.size(), (k + 1) * chunk); ++i)
            if (mc::selected(cases[i].label)) cases[i].complex_ ? run_case<std::complex<double>>(cases[i].label, cases[i].c) : run_case<double>(cases[i].label, cases[i].c);
    });
    return mc::finish();
}
