// Running the calculation backend in this process on a configuration and a cache directory, and reading what it reports
// (its lines on standard output) and the files it points to.
#ifndef VERIF_BACKEND_HPP
#define VERIF_BACKEND_HPP
#include "Hamiltonianmatrix.hpp"
#include "Interface.hpp"
#include "mc.hpp"
#include <Eigen/Dense>
#include <fstream>
#include <iostream>
#include <sys/stat.h>

using Conf = std::map<std::string, std::string>;
using CM = Eigen::MatrixXcd;
inline Conf base_conf() {
    Conf c;
    for (auto k : {"minBx", "minBy", "minBz", "maxBx", "maxBy", "maxBz", "minEx", "minEy", "minEz", "maxEx", "maxEy", "maxEz"}) c[k] = "0";
    c["species1"] = "Rb", c["n1"] = "20", c["l1"] = "1", c["j1"] = "1.5", c["m1"] = "0.5";
    c["deltaNSingle"] = "0", c["deltaLSingle"] = "1", c["deltaJSingle"] = "1", c["deltaMSingle"] = "1", c["deltaESingle"] = "-1";
    c["diamagnetism"] = "false", c["samebasis"] = "false", c["steps"] = "1";
    c["missingCalc"] = "true", c["missingWhittaker"] = "false";
    return c;
}
inline Conf with(Conf c, Conf const &d) {
    for (auto &e : d) c[e.first] = e.second;
    return c;
}
inline Conf pair_conf() {
    return with(base_conf(), {{"species2", "Rb"}, {"n2", "20"}, {"l2", "1"}, {"j2", "0.5"}, {"m2", "-0.5"}, {"minR", "4"}, {"maxR", "4"},
                              {"exponent", "3"}, {"deltaEPair", "-1"}, {"deltaNPair", "-1"}, {"deltaLPair", "-1"}, {"deltaJPair", "-1"},
                              {"deltaMPair", "-1"}, {"invE", "false"}, {"invO", "false"}, {"perE", "false"}, {"perO", "false"},
                              {"refE", "false"}, {"refO", "false"}, {"conserveM", "false"}, {"sametrafo", "false"}, {"zerotheta", "false"}});
}
inline void write_conf(Conf const &c, std::string const &file) {
    std::ofstream f(file);
    f << "{";
    bool first = true;
    for (auto &e : c) f << (first ? "" : ",") << "\n \"" << e.first << "\": \"" << e.second << "\"", first = false;
    f << "\n}\n";
}
struct Out {
    int nr, step, nsym, sym;
    std::string path;
};
struct Stage {
    int typ = -1, bas = -1, tot = -1;
    std::vector<int> dims;
    std::string basis_file;
    std::vector<std::vector<double>> rows;
    std::vector<Out> outs;
};
struct Result {
    bool ok = false;
    int rc = 0;
    std::string error, log;
    std::vector<Stage> stages;
};
inline void parse(Result &r) {
    std::istringstream in(r.log);
    std::string line;
    bool end = false;
    while (std::getline(in, line)) {
        if (line.compare(0, 2, ">>") != 0) continue;
        std::string tag = line.substr(2, 3), rest = line.substr(5);
        auto field = [&](int i) { return std::stoi(rest.substr(7 * i, 7)); };
        if (tag == "TYP") r.stages.emplace_back(), r.stages.back().typ = field(0);
        if (tag == "END") end = true;
        if (r.stages.empty()) continue;
        auto &s = r.stages.back();
        if (tag == "BAS") s.bas = field(0);
        if (tag == "TOT") s.tot = field(0);
        if (tag == "DIM") s.dims.push_back(field(0));
        if (tag == "OUT") s.outs.push_back({field(0), field(1), field(2), field(3), rest.substr(29)});
        if (tag == "STA") {
            s.basis_file = rest.substr(1);
            std::ifstream f(s.basis_file);
            std::string row;
            while (std::getline(f, row)) {
                std::istringstream is(row);
                std::vector<double> v;
                double x;
                while (is >> x) v.push_back(x);
                s.rows.push_back(v);
            }
            unlink(s.basis_file.c_str());
        }
    }
    if (!end && r.error.empty()) r.error = "no end reported";
}
// What the backend prints; every piece handed to the stream is announced.
inline void (*print_hook)() = nullptr;
struct PrintBuf : std::streambuf {
    std::string text;
    std::streamsize xsputn(char const *p, std::streamsize n) override {
        if (print_hook) print_hook();
        text.append(p, n);
        return n;
    }
    int overflow(int c) override {
        if (print_hook) print_hook();
        if (c != EOF) text.push_back(static_cast<char>(c));
        return c == EOF ? 0 : c;
    }
};
// Runs in this process; standard output of the backend is captured.
template <class Scalar>
Result run_backend(Conf const &c, std::string const &dir, std::string const &scratch) {
    setenv("TMPDIR", scratch.c_str(), 1);
    std::string conf = scratch + "/conf.json";
    write_conf(c, conf);
    Result r;
    PrintBuf cap;
    auto *old = std::cout.rdbuf(&cap);
    try {
        r.rc = compute<Scalar>(conf, dir);
        if (r.rc) r.error = mc::cat("returns ", r.rc);
    } catch (std::exception &e) {
        r.error = std::string("exception: ") + e.what();
    }
    std::cout.rdbuf(old);
    std::cout << std::nounitbuf;
    r.log = cap.text;
    parse(r);
    r.ok = r.error.empty();
    return r;
}
template <class Scalar>
bool load_out(Out const &o, CM &H, CM &V) {
    Hamiltonianmatrix<Scalar> m;
    if (!m.load(o.path + ".mat")) return false;
    H = CM(Eigen::Matrix<Scalar, -1, -1>(m.entries()).template cast<std::complex<double>>());
    V = CM(Eigen::Matrix<Scalar, -1, -1>(m.basis()).template cast<std::complex<double>>());
    return true;
}
#endif
