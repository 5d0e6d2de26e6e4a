// What a calculation of the backend gives - its reports, its files and the matrices in them - and when two give the same.
#ifndef VERIF_GIVEN_HPP
#define VERIF_GIVEN_HPP
#include "backend.hpp"
struct Matrix {
    CM H, V;
};
struct Given {
    bool ok = false;
    std::string error;
    std::string head;                        // stages, basis sets, numbers
    std::map<std::string, Matrix> matrices;  // by stage, step and symmetry
    std::map<std::string, Out> files;
    bool complex_ = false;
};
static inline bool read(Given const &g, Out const &o, Matrix &m) { return g.complex_ ? load_out<std::complex<double>>(o, m.H, m.V) : load_out<double>(o, m.H, m.V); }
struct Job {
    std::string name;
    Conf c;
    bool complex_ = false;
};
static inline Given run(Job const &j, std::string const &dir, std::string const &tmp) {
    Given g;
    g.complex_ = j.complex_;
    Result r = j.complex_ ? run_backend<std::complex<double>>(j.c, dir, tmp) : run_backend<double>(j.c, dir, tmp);
    g.ok = r.ok, g.error = r.error;
    int k = 0;
    for (auto &s : r.stages) {
        g.head += mc::cat("stage ", k, " type ", s.typ, " basis ", s.bas, " matrices ", s.tot, ":");
        for (auto &row : s.rows) {
            for (double x : row) g.head += mc::cat(" ", x);
            g.head += ";";
        }
        std::multiset<int> d(s.dims.begin(), s.dims.end());
        for (int x : d) g.head += mc::cat(" dim ", x);
        std::sort(s.outs.begin(), s.outs.end(), [](Out const &a, Out const &b) { return std::make_tuple(a.step, a.sym, a.nr) < std::make_tuple(b.step, b.sym, b.nr); });
        for (auto &o : s.outs) {
            std::string key = mc::cat("stage ", k, " step ", o.step, " symmetry ", o.sym, "/", o.nsym);
            g.head += " " + key;
            g.files[key] = o;
            if (!read(g, o, g.matrices[key])) g.ok = false, g.error = "no matrix at " + o.path;
        }
        ++k;
    }
    return g;
}
static inline double big(CM const &m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0; }
static inline std::string differ(Matrix const &a, Matrix const &b) {
    if (a.H.rows() != b.H.rows() || a.V.rows() != b.V.rows() || a.V.cols() != b.V.cols() || a.H.cols() != b.H.cols())
        return mc::cat("sizes ", a.V.rows(), "x", a.V.cols(), ", expected ", b.V.rows(), "x", b.V.cols());
    if (a.H == b.H && a.V == b.V) return "";
    std::vector<double> x, y;
    for (int i = 0; i < a.H.rows(); ++i) x.push_back(a.H(i, i).real()), y.push_back(b.H(i, i).real());
    std::sort(x.begin(), x.end()), std::sort(y.begin(), y.end());
    double scale = 1e-9 * (big(b.H) + 1e-3);
    for (size_t i = 0; i < x.size(); ++i)
        if (!(std::abs(x[i] - y[i]) <= scale)) return mc::cat("energy ", i, ": ", x[i], ", expected ", y[i]);
    CM d = a.V * a.H * a.V.adjoint() - b.V * b.H * b.V.adjoint(); // entries below 1e-4 are dropped
    if (!(big(d) <= 1e-3 * big(b.H))) return mc::cat("Hamiltonian differs by ", big(d));
    return "";
}
static inline std::string same(Given const &g, Given const &want) {
    if (!g.ok) return "fails: " + g.error;
    if (g.head != want.head) return "other basis, numbers or symmetries: " + g.head.substr(0, 300) + " | expected " + want.head.substr(0, 300);
    for (auto &e : want.matrices) {
        auto it = g.matrices.find(e.first);
        if (it == g.matrices.end()) return "missing " + e.first;
        auto d = differ(it->second, e.second);
        if (!d.empty()) return e.first + ": " + d;
    }
    return "";
}
#endif
