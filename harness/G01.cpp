// G01: the Green tensor after every history of requests and plate changes against image charges with automatic derivatives.
#include "GreenTensor.hpp"
#include "mc.hpp"
#include <array>

using R = long double;
// number with its derivatives with respect to the positions of A (0-2) and B (3-5)
struct D {
    R v = 0;
    std::array<R, 6> d{};
    D(R v = 0) : v(v) {}
    static D var(R v, int i) {
        D r(v);
        r.d[i] = 1;
        return r;
    }
};
static D operator+(D a, D const &b) {
    a.v += b.v;
    for (int i = 0; i < 6; ++i) a.d[i] += b.d[i];
    return a;
}
static D operator-(D a, D const &b) {
    a.v -= b.v;
    for (int i = 0; i < 6; ++i) a.d[i] -= b.d[i];
    return a;
}
static D operator*(D const &a, D const &b) {
    D r(a.v * b.v);
    for (int i = 0; i < 6; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i];
    return r;
}
static D power(D const &a, R e) {
    D r(std::pow(a.v, e));
    for (int i = 0; i < 6; ++i) r.d[i] = e * std::pow(a.v, e - 1) * a.d[i];
    return r;
}

struct Tensors {
    R dd[3][3], dq[3][3][3], qd[3][3][3];
};
// field at A of a dipole at B: r = A - B; the mirror image at z -> -z has reversed x and y components
static Tensors exact(std::array<R, 3> r, bool plate, R height) {
    std::array<D, 3> A, B;
    R h[3] = {0, 0, plate ? height : 0};
    for (int i = 0; i < 3; ++i) {
        A[i] = D::var(h[i] + r[i] / 2, i);
        B[i] = D::var(h[i] - r[i] / 2, 3 + i);
    }
    Tensors t{};
    for (int image = 0; image < (plate ? 2 : 1); ++image) {
        std::array<D, 3> q = {A[0] - B[0], A[1] - B[1], image ? A[2] + B[2] : A[2] - B[2]};
        D n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2];
        D i3 = power(n, -1.5L), i5 = power(n, -2.5L);
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                D f = D(3) * q[i] * q[j] * i5 - (i == j ? i3 : D(0));
                if (image && j < 2) f = D(0) - f;
                t.dd[i][j] += f.v;
                for (int k = 0; k < 3; ++k) {
                    t.dq[i][j][k] += f.d[3 + k];
                    t.qd[k][i][j] += f.d[k];
                }
            }
    }
    return t;
}

struct Geo {
    double x, y, z;
};
struct Op {
    int kind; // 0-2 tensors, 3 plate
    double d;
};

int main() {
    auto &r = mc::R();
    std::vector<double> c = {-5, -2, -1, -.3, 0, .3, 1, 2, 5};
    if (mc::thorough()) c.insert(c.end(), {-12.5, -.75, .01, 3.7, 40});
    std::vector<Geo> geos;
    for (double x : c)
        for (double y : c)
            for (double z : c)
                if (x != 0 || y != 0 || z != 0) geos.push_back({x, y, z});
    mc::parallel(static_cast<int>(geos.size()), [&](int gi) {
        Geo g = geos[gi];
        double half = std::abs(g.z) / 2;
        std::vector<Op> ops = {{0, 0}, {1, 0}, {2, 0}, {3, half + .25}, {3, half + 3}, {3, half - .25}, {3, -1 - half}};
        int depth = g.y != 0 ? mc::tier(3, 4) : mc::tier(5, 6);
        std::map<double, Tensors> oracle;
        auto want = [&](bool plate, double h) -> Tensors const & {
            double key = plate ? h : -1;
            auto it = oracle.find(key);
            if (it == oracle.end()) it = oracle.emplace(key, exact({g.x, g.y, g.z}, plate, h)).first;
            return it->second;
        };
        double size = std::sqrt(g.x * g.x + g.y * g.y + g.z * g.z);
        std::vector<int> seq;
        std::function<void()> rec = [&] {
            if (static_cast<int>(seq.size()) == depth) {
                std::string l = mc::cat("r=(", g.x, ",", g.y, ",", g.z, ")");
                for (int i : seq) {
                    l += " ";
                    l += ops[i].kind == 0 ? "DD" : ops[i].kind == 1 ? "DQ" : ops[i].kind == 2 ? "QD" : mc::cat("plate(", ops[i].d, ")");
                }
                if (!mc::enter(l)) return;
                GreenTensor t(g.x, g.y, g.z);
                bool plate = false;
                double h = 0;
                for (int i : seq) {
                    Op o = ops[i];
                    ++r.transitions;
                    if (o.kind == 3) {
                        bool ok = g.y == 0 && o.d - half > 0, threw = false;
                        try {
                            t.addSurface(o.d);
                        } catch (std::runtime_error &) { threw = true; }
                        if (threw == ok) mc::violation(ok ? "an allowed geometry is rejected" : "a forbidden geometry is accepted", mc::cat("plate at ", o.d));
                        if (ok) {
                            plate = true;
                            h = o.d;
                        }
                        continue;
                    }
                    Tensors const &w = want(plate, h);
                    R worst = 0;
                    R nearest = std::min<R>(size, plate ? std::sqrt(R(g.x) * g.x + 4 * R(h) * h) : size);
                    R scale3 = 4 / std::pow(nearest, 3.L), scale4 = 60 / std::pow(nearest, 4.L);
                    for (int a = 0; a < 3; ++a)
                        for (int b = 0; b < 3; ++b) {
                            if (o.kind == 0) worst = std::max(worst, std::abs(R(t.getDDTensor()(a, b)) - w.dd[a][b]) / scale3);
                            for (int k = 0; k < 3 && o.kind; ++k) {
                                R have = o.kind == 1 ? t.getDQTensor()(a, b, k) : t.getQDTensor()(a, b, k);
                                worst = std::max(worst, std::abs(have - (o.kind == 1 ? w.dq[a][b][k] : w.qd[a][b][k])) / scale4);
                            }
                        }
                    ++r.evaluations;
                    if (!(worst < 1e-12)) mc::violation(o.kind == 0 ? "wrong dipole-dipole tensor" : o.kind == 1 ? "wrong dipole-quadrupole tensor" : "wrong quadrupole-dipole tensor", mc::cat("relative error ", static_cast<double>(worst)));
                }
                ++r.traces;
                ++r.states;
                mc::outcome(mc::cat(g.x, g.y, g.z, plate, h));
                if (r.samples.size() < 6) mc::sample(l);
                return;
            }
            for (size_t i = 0; i < ops.size(); ++i) {
                seq.push_back(static_cast<int>(i));
                rec();
                seq.pop_back();
            }
        };
        rec();
    });
    return mc::finish();
}
