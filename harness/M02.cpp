// M02: every truncation of stored matrices, unreadable paths, and histories of failed loads.
#include "hmat.hpp"
#include <sys/resource.h>

static std::string g_dir;

template <class S>
struct T {
    using H = Hamiltonianmatrix<S>;
    static H used() {
        H z(pattern<S>(2, 2, 7, 3), pattern<S>(3, 2, 21, 1));
        return z;
    }
    // state 0: new object, 1: with contents, 2: with contents and a cached image, 3: after a good load
    static H object(int k, std::string const &good) {
        if (k == 0) return H();
        H z = used();
        if (k == 2) z.serialize();
        if (k == 3) {
            spit(g_dir + "/good.mat", good);
            z.load(g_dir + "/good.mat");
        }
        return z;
    }
    static void afterwards(H &z, std::string const &before, std::string const &good, std::string const &content) {
        if (snap<S>(static_cast<H const &>(z)) != before) mc::violation("a failed load changes the matrix", text<S>(z));
        std::string f = g_dir + "/after.mat";
        H z2(z);
        z2.save(f);
        H y;
        if (!y.load(f)) mc::violation("a matrix saved after a failed load cannot be loaded", "");
        else if (snap<S>(static_cast<H const &>(y)) != before) mc::violation("after a failed load another matrix is saved", text<S>(y));
        H z3(z), y3;
        try {
            y3.deserialize(z3.serialize());
            if (snap<S>(static_cast<H const &>(y3)) != before) mc::violation("after a failed load the image is another matrix's", text<S>(y3));
        } catch (std::exception &e) {
            mc::violation("after a failed load the image is corrupted", e.what());
        }
        spit(f, good);
        if (!z.load(f)) mc::violation("after a failed load an undamaged file cannot be loaded", "");
        else if (snap<S>(static_cast<H const &>(z)) != content) mc::violation("after a failed load an undamaged file is loaded wrongly", text<S>(z));
    }
    static void cut(H m, std::string const &name) {
        auto &r = mc::R();
        std::string f = g_dir + "/full.mat", content = snap<S>(static_cast<H const &>(m));
        m.save(f);
        std::string good = slurp(f);
        mc::count("image_bytes", good.size());
        for (size_t k = 0; k <= good.size(); ++k)
            for (int o = 0; o < 4; ++o) {
                if (!mc::enter(mc::cat(name, " cut to ", k, " of ", good.size(), " bytes, object ", o))) continue;
                ++r.states;
                r.transitions += 3;
                ++r.traces;
                ++r.evaluations;
                mc::outcome(mc::cat(name, k));
                std::string part = good.substr(0, k), g = g_dir + "/part.mat";
                H z = object(o, good);
                std::string before = snap<S>(static_cast<H const &>(z));
                spit(g, part);
                bool ok;
                try {
                    ok = z.load(g);
                } catch (std::exception &e) {
                    mc::violation("loading throws", e.what());
                    continue;
                }
                if (ok != (k == good.size())) mc::violation(ok ? "a truncated file is loaded" : "a complete file is not loaded", text<S>(z));
                if (ok) {
                    if (snap<S>(static_cast<H const &>(z)) != content) mc::violation("a wrong matrix is loaded", text<S>(z));
                    continue;
                }
                if (slurp(g) != part) mc::violation("a failed load changes the file", "");
                afterwards(z, before, good, content);
                // the byte image itself
                H y = object(o, good);
                bytes_t b(part.begin(), part.end());
                bool threw = false;
                try {
                    y.deserialize(b);
                } catch (std::exception &) {
                    threw = true;
                }
                if (!threw) mc::violation("a truncated image is accepted", text<S>(y));
                else afterwards(y, before, good, content);
                // overwriting the damaged file
                H w(m), v;
                w.save(g);
                if (slurp(g) != good || !v.load(g) || snap<S>(static_cast<H const &>(v)) != content) mc::violation("a damaged file cannot be replaced", "");
            }
    }
    // all sequences of loading files of different kinds, editing and saving
    struct St {
        H a;
        std::string cur; // model of the contents
        std::string file;
    };
    static void hist(std::string const &ty, int depth) {
        H g0(pattern<S>(2, 2, 11, 0), pattern<S>(2, 2, 9, 0)), g1(pattern<S>(1, 1, 1, 2), pattern<S>(2, 1, 2, 0));
        std::string c0 = snap<S>(static_cast<H const &>(g0)), c1 = snap<S>(static_cast<H const &>(g1));
        std::string i0, i1;
        g0.save(g_dir + "/i");
        i0 = slurp(g_dir + "/i");
        g1.save(g_dir + "/i");
        i1 = slurp(g_dir + "/i");
        struct L {
            std::string name, image, content;
        };
        std::vector<L> files = {{"A", i0, c0}, {"B", i1, c1}, {"empty", "", ""}, {"A1", i0.substr(0, 1), ""}, {"A-half", i0.substr(0, i0.size() / 2), ""},
                                {"A-last", i0.substr(0, i0.size() - 1), ""}, {"B-last", i1.substr(0, i1.size() - 1), ""}};
        int nl = static_cast<int>(files.size());
        auto names = std::vector<std::string>{};
        for (auto &f : files) names.push_back("load " + f.name);
        names.insert(names.end(), {"load missing", "load directory", "edit", "image", "save and load"});
        std::function<void(St const &, std::string, int)> rec = [&](St const &s, std::string l, int d) {
            auto &r = mc::R();
            for (int i = 0; i < static_cast<int>(names.size()) && r.violations.empty(); ++i) {
                std::string n = l + (d ? " ; " : "") + names[i];
                if (r.has_only && r.only.compare(0, n.size(), n) != 0) continue;
                mc::enter(n);
                r.label = n;
                St t(s);
                std::string f = g_dir + "/h.mat";
                try {
                    if (i < nl) {
                        spit(f, files[i].image);
                        bool ok = t.a.load(f);
                        if (ok != !files[i].content.empty()) mc::violation(ok ? "a truncated file is loaded" : "a complete file is not loaded", "");
                        if (ok) t.cur = files[i].content;
                    } else if (i == nl) {
                        if (t.a.load(g_dir + "/nonexistent/x.mat")) mc::violation("a missing file is loaded", "");
                    } else if (i == nl + 1) {
                        if (t.a.load(g_dir)) mc::violation("a directory is loaded", "");
                    } else if (i == nl + 2) {
                        if (t.a.num_basisvectors()) t.a.entries().coeffRef(0, 0) += S(1);
                        t.cur = snap<S>(static_cast<H const &>(t.a));
                    } else if (i == nl + 3) {
                        t.a.serialize();
                    } else {
                        t.a.save(f);
                        if (!t.a.load(f)) mc::violation("a saved matrix cannot be loaded", "");
                    }
                    if (snap<S>(static_cast<H const &>(t.a)) != t.cur) mc::violation("the matrix is not the expected one", text<S>(t.a));
                    H c(t.a), back;
                    back.deserialize(c.serialize());
                    if (snap<S>(static_cast<H const &>(back)) != t.cur) mc::violation("the image is not the expected one", text<S>(back));
                } catch (std::exception &e) {
                    mc::violation("an operation throws", e.what());
                }
                ++r.states;
                ++r.transitions;
                ++r.evaluations;
                if (d + 1 < depth) rec(t, n, d + 1);
                else ++r.traces;
            }
        };
        St s;
        s.cur = snap<S>(static_cast<H const &>(s.a));
        rec(s, ty + " ", 0);
    }
};

int main() {
    mc::Scratch dir;
    g_dir = dir.path;
    if (!freopen("/dev/null", "w", stdout)) return 3;
    std::cerr.rdbuf(nullptr);
    using C = std::complex<double>;
    T<double>::cut(Hamiltonianmatrix<double>(), "real empty");
    T<double>::cut(Hamiltonianmatrix<double>(pattern<double>(1, 1, 1, 0), pattern<double>(1, 1, 1, 0)), "real 1x1");
    T<double>::cut(Hamiltonianmatrix<double>(pattern<double>(2, 2, 0, 0), pattern<double>(3, 2, 0, 0)), "real 2x2 zero");
    T<double>::cut(Hamiltonianmatrix<double>(pattern<double>(3, 3, 511, 0), pattern<double>(2, 3, 63, 0)), "real 3x3 full");
    T<C>::cut(Hamiltonianmatrix<C>(), "complex empty");
    T<C>::cut(Hamiltonianmatrix<C>(pattern<C>(1, 1, 1, 0), pattern<C>(1, 1, 1, 0)), "complex 1x1");
    T<C>::cut(Hamiltonianmatrix<C>(pattern<C>(3, 3, 341, 0), pattern<C>(3, 3, 273, 0)), "complex 3x3");
    if (mc::thorough()) {
        T<double>::cut(Hamiltonianmatrix<double>(pattern<double>(5, 5, 0x1ffffff, 0), pattern<double>(5, 5, 0x1ffffff, 2)), "real 5x5");
        T<C>::cut(Hamiltonianmatrix<C>(pattern<C>(5, 5, 0x1ffffff, 0), pattern<C>(5, 5, 0x1ffffff, 2)), "complex 5x5");
    }
    T<double>::hist("history real", mc::tier(3, 4));
    T<C>::hist("history complex", mc::tier(3, 4));
    // a file of the other number type
    if (mc::enter("file of the other number type")) {
        Hamiltonianmatrix<double> a(pattern<double>(2, 2, 15, 0), pattern<double>(2, 2, 9, 0)), a2;
        Hamiltonianmatrix<C> b(pattern<C>(2, 2, 15, 0), pattern<C>(2, 2, 9, 0)), b2;
        a.save(g_dir + "/r");
        b.save(g_dir + "/c");
        if (a2.load(g_dir + "/c")) mc::violation("a complex matrix is loaded as a real one", "");
        if (b2.load(g_dir + "/r")) mc::violation("a real matrix is loaded as a complex one", "");
        std::string k = snap<double>(static_cast<Hamiltonianmatrix<double> const &>(a));
        a.load(g_dir + "/c");
        if (snap<double>(static_cast<Hamiltonianmatrix<double> const &>(a)) != k) mc::violation("a failed load changes the matrix", "");
    }
    // any number of failed loads leaves the process able to load
    if (mc::enter("many failed loads")) {
        rlimit lim{64, 64};
        setrlimit(RLIMIT_NOFILE, &lim);
        Hamiltonianmatrix<double> a(pattern<double>(2, 2, 15, 0), pattern<double>(2, 2, 9, 0)), b;
        a.save(g_dir + "/g");
        spit(g_dir + "/t", slurp(g_dir + "/g").substr(0, 50));
        for (int i = 0; i < 200; ++i) {
            b.load(g_dir);
            b.load(g_dir + "/t");
            b.load(g_dir + "/none");
        }
        if (!b.load(g_dir + "/g")) mc::violation("after many failed loads no file can be loaded", "");
    }
    return mc::finish();
}
