// Helpers for the checks of Hamiltonianmatrix: exact snapshots and bounded sets of matrices.
#ifndef VERIF_HMAT_HPP
#define VERIF_HMAT_HPP
#include "Hamiltonianmatrix.hpp"
#include "hmat_io.hpp"
#include "mc.hpp"

template <class S>
using SpM = Eigen::SparseMatrix<S>;
template <class S>
using DM = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;

template <class S>
std::string snap(SpM<S> const &m) {
    DM<S> d(m);
    std::string s = mc::cat(m.rows(), "x", m.cols(), ":");
    s.append(reinterpret_cast<const char *>(d.data()), sizeof(S) * d.size());
    return s;
}
template <class S>
std::string snap(Hamiltonianmatrix<S> const &h) {
    return snap<S>(h.entries()) + "|" + snap<S>(h.basis());
}
template <class S>
std::string text(Hamiltonianmatrix<S> const &h) {
    std::ostringstream o;
    o.precision(17);
    Eigen::IOFormat f(Eigen::FullPrecision, Eigen::DontAlignCols, ",", ";");
    o << "entries " << h.entries().rows() << "x" << h.entries().cols() << " [" << DM<S>(h.entries()).format(f) << "] basis "
      << h.basis().rows() << "x" << h.basis().cols() << " [" << DM<S>(h.basis()).format(f) << "]";
    return o.str();
}
inline double val(double, int k) {
    static const double v[] = {1.5, -2.25, 1e300, 5e-324, 0.1, -0., 3., 1e-17, INFINITY};
    return v[k % 9];
}
inline std::complex<double> val(std::complex<double>, int k) { return {val(0., k), val(0., 2 * k + 3)}; }

template <class S>
SpM<S> pattern(int rows, int cols, unsigned bits, int shift, bool compressed = true) {
    SpM<S> m(rows, cols);
    for (int c = 0; c < cols; ++c)
        for (int r = 0; r < rows; ++r)
            if (bits >> (c * rows + r) & 1) m.insert(r, c) = val(S(), c * rows + r + shift);
    if (compressed) m.makeCompressed();
    return m;
}
#endif
