// M01: storing and reloading of Hamiltonianmatrix objects: all sparsity patterns of small shapes, and all
// histories of edits, serialisations, saves and loads up to a depth.
#include "hmat.hpp"

static std::string g_dir;

template <class S>
struct Pat {
    std::map<std::string, std::string> image_of; // image -> content
    void same(Hamiltonianmatrix<S> const &h, std::string const &want, const char *how) {
        if (snap<S>(h) != want) mc::violation(mc::cat(how, " does not restore the matrix"), text<S>(h));
        // the restored object is fully usable
        SpM<S> e = h.entries(), b = h.basis();
        long n = 0;
        for (int k = 0; k < e.outerSize(); ++k)
            for (typename SpM<S>::InnerIterator i(e, k); i; ++i) ++n;
        if (n != e.nonZeros()) mc::violation(mc::cat(how, " restores an inconsistent matrix"), mc::cat(n, " of ", e.nonZeros()));
        n = 0;
        for (int k = 0; k < b.outerSize(); ++k)
            for (typename SpM<S>::InnerIterator i(b, k); i; ++i) ++n;
        if (n != b.nonZeros()) mc::violation(mc::cat(how, " restores an inconsistent basis"), mc::cat(n, " of ", b.nonZeros()));
    }
    void one(Hamiltonianmatrix<S> h, std::string const &name) {
        if (!mc::enter(name)) return;
        auto &r = mc::R();
        ++r.states;
        ++r.traces;
        std::string want = snap<S>(h), f = g_dir + "/p.mat";
        mc::outcome(want);
        if (r.samples.size() < 3) mc::sample(name);
        try {
            bytes_t img;
            {
                Hamiltonianmatrix<S> x(h), y;
                img = x.serialize();
                y.deserialize(img);
                same(y, want, "deserialising");
                if (snap<S>(x) != want) mc::violation("serialising changes the matrix", "");
                x.deserialize(x.serialize());
                same(x, want, "deserialising its own image");
                if (x.serialize() != img) mc::violation("a restored matrix has another image", "");
                Hamiltonianmatrix<S> z(pattern<S>(2, 2, 7, 3), pattern<S>(3, 2, 21, 1));
                z.serialize();
                z.deserialize(img);
                same(z, want, "deserialising into a used object");
                if (z.serialize() != img) mc::violation("a used object keeps its old image", "");
                r.transitions += 8;
            }
            auto in = image_of.emplace(std::string(img.begin(), img.end()), want);
            if (in.first->second != want) mc::violation("different matrices have the same image", "");
            {
                Hamiltonianmatrix<S> x(h), y;
                x.save(f);
                if (!y.load(f)) mc::violation("a saved matrix cannot be loaded", text<S>(h));
                else same(y, want, "loading");
                Hamiltonianmatrix<S> z(pattern<S>(2, 2, 7, 3), pattern<S>(3, 2, 21, 1));
                z.hashBasis();
                if (!z.load(f)) mc::violation("a saved matrix cannot be loaded into a used object", text<S>(h));
                else same(z, want, "loading into a used object");
                z.save(f);
                Hamiltonianmatrix<S> w;
                if (!w.load(f)) mc::violation("a matrix saved again cannot be loaded", text<S>(h));
                else same(w, want, "saving again");
                // going on working with the restored object
                Hamiltonianmatrix<S> s = y + h, t = h + h;
                if (snap<S>(s) != snap<S>(t)) mc::violation("a restored matrix adds differently", "");
                Hamiltonianmatrix<S> u = S(2.) * y, v = S(2.) * h;
                Hamiltonianmatrix<S> q;
                q.deserialize(u.serialize());
                same(q, snap<S>(v), "scaling a restored matrix");
                r.transitions += 9;
            }
        } catch (std::exception &e) {
            mc::violation("storing or reloading fails", mc::cat(e.what(), " for ", text<S>(h)));
        }
        ++r.evaluations;
    }
    void run(std::string const &ty) {
        int n3 = mc::tier(1, 3);
        for (int n = 0; n <= 3; ++n)
            for (int rows = 0; rows <= 3; ++rows) {
                int ne = 1 << (n * n), nb = 1 << (n * rows);
                for (int e = 0; e < ne; ++e)
                    for (int b = 0; b < nb; ++b) {
                        bool special_e = e == 0 || e == ne - 1 || e == (1 << (n * n - 1)) || e == 1 || (n == 3 && e == 0x111);
                        bool special_b = b == 0 || b == nb - 1 || (n * rows && b == (1 << (n * rows - 1))) || b == 1;
                        if (n == 3 && !(special_e || special_b)) continue;
                        for (int sh = 0; sh < (n < 3 ? 3 : n3); ++sh) {
                            auto E = pattern<S>(n, n, e, sh);
                            auto B = pattern<S>(rows, n, b, sh + 4);
                            std::string nm = mc::cat(ty, " entries ", n, "x", n, "/", e, " basis ", rows, "x", n, "/", b, " values ", sh);
                            one(Hamiltonianmatrix<S>(E, B), nm);
                            if (sh || (n == 3 && !(special_e && special_b))) continue;
                            // not compressed
                            one(Hamiltonianmatrix<S>(pattern<S>(n, n, e, 1, false), pattern<S>(rows, n, b, 2, false)), nm + " uncompressed");
                            // assembled from single elements, every element in two parts, in reverse order
                            Hamiltonianmatrix<S> h(static_cast<size_t>(0), static_cast<size_t>(0));
                            for (int part = 0; part < 2; ++part)
                                for (int k = n * n - 1; k >= 0; --k)
                                    if (e >> k & 1) h.addEntries(k % n, k / n, S(k + part));
                            for (int part = 0; part < 2; ++part)
                                for (int k = n * rows - 1; k >= 0; --k)
                                    if (b >> k & 1) h.addBasis(k % rows, k / rows, S(k - part * k));
                            h.compress(n, rows);
                            Hamiltonianmatrix<S> fresh;
                            DM<S> de = DM<S>::Zero(n, n), db = DM<S>::Zero(rows, n);
                            for (int k = 0; k < n * n; ++k)
                                if (e >> k & 1) de(k % n, k / n) = S(2 * k + 1);
                            for (int k = 0; k < n * rows; ++k)
                                if (b >> k & 1) db(k % rows, k / rows) = S(k);
                            auto const &hc = h;
                            if (mc::enter(nm + " assembled") && (DM<S>(hc.entries()) != de || DM<S>(hc.basis()) != db))
                                mc::violation("assembling adds up wrong elements", text<S>(h));
                            one(h, nm + " assembled");
                        }
                    }
            }
    }
};

// --- histories --------------------------------------------------------------------------------
template <class S>
struct Hist {
    using H = Hamiltonianmatrix<S>;
    struct St {
        H a, b;
        std::string file, saved; // contents of the file, and what was saved
        std::string img;         // last image handed out for a
    };
    std::vector<std::pair<std::string, std::function<void(St &)>>> ops;
    std::string ty, fname;
    int depth;
    std::map<std::string, std::string> image_of;

    static SpM<S> mat(int k) {
        SpM<S> m(2, 2);
        m.insert(0, 0) = S(1 + k);
        m.insert(1, 1) = S(-3);
        if (k) {
            m.insert(0, 1) = S(.5);
            m.insert(1, 0) = S(.5);
        }
        m.makeCompressed();
        return m;
    }
    static SpM<S> bas(int k) {
        SpM<S> m(3, 2);
        m.insert(k, 0) = S(1);
        m.insert(2, 1) = S(1);
        m.makeCompressed();
        return m;
    }
    Hist() {
        auto op = [&](std::string n, std::function<void(St &)> f) { ops.emplace_back(n, f); };
        op("image", [](St &s) { s.img.assign(s.a.serialize().begin(), s.a.serialize().end()); });
        op("hash", [](St &s) { s.a.hashEntries(); });
        op("save", [this](St &s) {
            s.saved = snap<S>(static_cast<H const &>(s.a));
            s.a.save(fname);
            s.file = slurp(fname);
        });
        op("load", [this](St &s) {
            if (s.file.empty()) return;
            spit(fname, s.file);
            if (!s.a.load(fname)) mc::violation("a saved matrix cannot be loaded", "");
            else if (snap<S>(static_cast<H const &>(s.a)) != s.saved) mc::violation("loading yields another matrix than was saved", text<S>(s.a));
        });
        op("bad-load", [this](St &s) {
            spit(fname, s.file.substr(0, s.file.size() * 3 / 4));
            std::string before = snap<S>(static_cast<H const &>(s.a));
            if (s.a.load(fname)) mc::violation("a truncated file is loaded", "");
            if (snap<S>(static_cast<H const &>(s.a)) != before) mc::violation("a failed load changes the matrix", "");
        });
        op("edit-entry", [](St &s) {
            if (s.a.num_basisvectors() > 1) s.a.entries().coeffRef(1, 0) += S(1);
        });
        op("edit-basis", [](St &s) {
            if (s.a.num_coordinates() && s.a.num_basisvectors()) s.a.basis().coeffRef(0, 0) += S(1);
        });
        op("assemble", [](St &s) {
            s.a.addEntries(0, 0, S(4));
            s.a.addEntries(1, 0, S(2));
            s.a.addBasis(1, 1, S(1));
            s.a.compress(2, 3);
        });
        op("a+=b", [](St &s) { if (s.a.num_basisvectors() == s.b.num_basisvectors()) s.a += s.b; });
        op("a-=b", [](St &s) { if (s.a.num_basisvectors() == s.b.num_basisvectors()) s.a -= s.b; });
        op("a=a+b", [](St &s) { if (s.a.num_basisvectors() == s.b.num_basisvectors()) s.a = s.a + s.b; });
        op("a=a-b", [](St &s) { if (s.a.num_basisvectors() == s.b.num_basisvectors()) s.a = s.a - s.b; });
        op("a=2a", [](St &s) { s.a = S(2) * s.a; });
        op("a=a*3", [](St &s) { s.a = s.a * S(3); });
        op("cutoff", [](St &s) { s.a.applyCutoff(2.5); });
        op("drop-vectors", [](St &s) { s.a.removeUnnecessaryBasisvectors(std::vector<bool>{true, false, false}); });
        op("drop-empty", [](St &s) { s.a.removeUnnecessaryBasisvectors(); });
        op("drop-states", [](St &s) { if (s.a.num_coordinates() == 3) s.a.removeUnnecessaryStates(std::vector<bool>{true, true, false}); });
        op("diagonalize", [](St &s) { s.a.diagonalize(); });
        op("change-basis", [](St &s) { if (s.a.num_coordinates() == s.b.num_coordinates()) s.a = s.a.changeBasis(static_cast<H const &>(s.b).basis()); });
        op("block", [](St &s) { if (s.a.num_basisvectors() > 1) s.a = s.a.getBlock({1}); });
        op("abs", [](St &s) { s.a = s.a.abs(); });
        op("b=a", [](St &s) { s.b = s.a; });
        op("swap", [](St &s) { std::swap(s.a, s.b); });
    }
    void verify(St const &s) {
        auto &r = mc::R();
        ++r.evaluations;
        for (H const *h : {&s.a, &s.b}) {
            H c(*h), back;
            std::string want = snap<S>(*h);
            back.deserialize(c.serialize());
            if (snap<S>(static_cast<H const &>(back)) != want)
                mc::violation("the image is not that of the present matrix", mc::cat(text<S>(back), " instead of ", text<S>(*h)));
            std::string img(c.serialize().begin(), c.serialize().end());
            auto in = image_of.emplace(img, want);
            if (in.first->second != want) mc::violation("different matrices have the same image", text<S>(*h));
            H f(h->entries(), h->basis()), d(*h);
            if (f.hashEntries() != d.hashEntries() || f.hashBasis() != d.hashBasis())
                mc::violation("the hash is not that of the present matrix", text<S>(*h));
        }
        mc::outcome(snap<S>(s.a) + snap<S>(s.b));
    }
    void node(St const &s, std::string const &l, int d, int first, int last) {
        auto &r = mc::R();
        for (int i = first; i < last && r.violations.empty(); ++i) {
            std::string nl = l + (d ? " ; " : "") + ops[i].first;
            if (r.has_only && r.only.compare(0, nl.size(), nl) != 0) continue;
            mc::enter(nl);
            r.label = nl;
            St t(s);
            try {
                ops[i].second(t);
                ++r.states;
                ++r.transitions;
                verify(t);
            } catch (std::exception &e) {
                mc::violation("an operation fails", e.what());
                return;
            }
            if (d + 1 < depth)
                node(t, nl, d + 1, 0, static_cast<int>(ops.size()));
            else
                ++r.traces;
        }
    }
    void run(std::string const &type, int dep) {
        ty = type;
        depth = dep;
        mc::parallel(static_cast<int>(ops.size()), [&](int i) {
            fname = mc::cat(g_dir, "/h", i, ".mat");
            St s;
            s.a = H(mat(1), bas(0));
            s.b = H(mat(0), bas(1));
            node(s, ty + " ", 0, i, i + 1);
        });
    }
};

int main() {
    mc::Scratch dir;
    g_dir = dir.path;
    Pat<double>().run("real");
    Pat<std::complex<double>>().run("complex");
    int d = mc::tier(4, 5);
    mc::info("history_depth", d);
    Hist<double>().run("history real", d);
    Hist<std::complex<double>>().run("history complex", mc::tier(3, 4));
    return mc::finish();
}
