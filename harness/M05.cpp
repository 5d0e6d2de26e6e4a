// M05: files written by the calculation backend's matrices, and the backend's reports on standard output, read by the
// graphical client's own loader and queues (Python, run in batches): all sparsity patterns of small shapes, real and complex,
// in three orders of access, and real calculations.
#include "backend.hpp"
#include "hmat.hpp"

static char const *script = R"PY(
import importlib.util, struct, sys, types, io, contextlib, shutil
repo, jobs = sys.argv[1:3]
class Signal:
    def __init__(self, *a): pass
    def emit(self, *a): print("ERR", *a)
class QThread:
    def __init__(self, *a): pass
qt = types.ModuleType("PyQt5"); core = types.ModuleType("PyQt5.QtCore"); sip = types.ModuleType("PyQt5.sip")
core.QThread, core.pyqtSignal = QThread, Signal
sip.isdeleted = lambda x: True
qt.QtCore, qt.sip = core, sip
sys.modules.update({"PyQt5": qt, "PyQt5.QtCore": core, "PyQt5.sip": sip})
def get(name):
    s = importlib.util.spec_from_file_location("client_" + name, repo + "/pairinteraction_gui/" + name + ".py")
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m
loader = get("loader")
def num(x): return struct.pack("<d", float(x) + 0.0).hex()
def energies(e): return " ".join([str(len(e.energies))] + [num(x) for x in e.energies])
def basis(e):
    m = e.basis
    d = m.toarray()
    kind = "c" if d.dtype.kind == "c" else "r"
    return " ".join([kind, str(m.shape[0]), str(m.shape[1])] + [num(x.real) + (num(x.imag) if kind == "c" else "") for r in d for x in r])
for line in open(jobs):
    what, path = line.rstrip("\n").split(" ", 1)
    try:
        if what == "log":
            w = get("worker")
            q = w.AllQueues()
            other = io.StringIO()
            with contextlib.redirect_stdout(other):
                for l in open(path, "rb"): q.processOneLine(l)
            out = []
            for i in range(3):
                items = []
                while not q.dataqueues[i].empty(): items.append(q.dataqueues[i].get())
                out += ["queue %d: %d %d %d %s" % (i, *x) for x in items]
                out += ["basis %d: %s" % (i, x) for x in q.basisfiles[i]]
            print("|".join(out + ["end %s" % q.finishedgracefully, "total %d of %d" % (q.current, q.total)]))
            continue
        if what == "params":
            p = loader.Eigensystem(path).params
            print("|".join("%s=%s" % (k, p[k]) for k in sorted(p)))
            continue
        if what == "over":
            first, second, o1, o2 = path.split("\t")
            here = jobs + "_file"
            for name, order in ((first, o1), (second, o2)):
                for end in (".mat", ".json"): shutil.copyfile(name + end, here + end)
                e = loader.Eigensystem(here)
                out = {}
                for x in order:
                    if x == "e": out["e"] = energies(e)
                    if x == "b": out["b"] = basis(e)
                    if x == "p": out["p"] = str(e.params["name"])
            print(" | ".join(out[x] for x in "ebp"))
            continue
        e = loader.Eigensystem(path)
        if what == "eb": a = energies(e); b = basis(e)
        elif what == "be": b = basis(e); a = energies(e)
        else:
            f = loader.Eigensystem(path)
            a = energies(e); energies(f); b = basis(e); b2 = basis(f)
            if b2 != b or energies(e) != a or basis(e) != b: b = "unstable"
        print(a + " | " + b)
    except Exception as x:
        print("exception", type(x).__name__, x)
)PY";

static std::string num(double x) {
    x += 0.;
    unsigned char b[8];
    memcpy(b, &x, 8);
    std::string s;
    for (int i = 0; i < 8; ++i) {
        char t[3];
        snprintf(t, 3, "%02x", b[i]);
        s += t;
    }
    return s;
}
static std::string num(std::complex<double> x) { return num(x.real()) + num(x.imag()); }
template <class S>
std::string expected(Hamiltonianmatrix<S> const &h) {
    DM<S> e(h.entries()), b(h.basis());
    std::string s = std::to_string(e.rows());
    for (int i = 0; i < e.rows(); ++i) s += " " + num(std::real(e(i, i)));
    s += mc::cat(" | ", std::is_same<S, double>::value ? "r" : "c", " ", b.rows(), " ", b.cols());
    for (int i = 0; i < b.rows(); ++i)
        for (int j = 0; j < b.cols(); ++j) s += " " + num(b(i, j));
    return s;
}
struct Batch {
    mc::Scratch dir;
    struct Case {
        std::string label, what, path, want, text;
    };
    std::vector<Case> cases;
    void add(std::string const &label, std::string const &what, std::string const &path, std::string const &want, std::string const &text) {
        cases.push_back({label, what, path, want, text});
    }
    void run() {
        if (cases.empty()) return;
        spit(dir / "read.py", script);
        std::string list;
        for (auto &c : cases) list += c.what + " " + c.path + "\n";
        spit(dir / "jobs", list);
        char const *repo = getenv("VERIF_REPO");
        std::string cmd = mc::cat("OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 python3-vt '", dir / "read.py", "' '", repo ? repo : "/repo", "' '", dir / "jobs", "' > '", dir / "out", "'");
        int rc = system(cmd.c_str());
        std::ifstream f(dir / "out");
        std::string line;
        for (auto &c : cases) {
            mc::enter(c.label);
            mc::R().evaluations++, mc::R().transitions++;
            if (!std::getline(f, line)) {
                mc::violation("the client stops", mc::cat("exit status ", rc, " at ", c.text));
                return;
            }
            if (line != c.want) mc::violation(mc::cat("the client reads something else (", c.what, ")"), mc::cat(line.substr(0, 300), " | expected ", c.want.substr(0, 300), " | ", c.text.substr(0, 200)));
        }
    }
};
template <class S>
SpM<S> finite(SpM<S> m) {
    for (int k = 0; k < m.outerSize(); ++k)
        for (typename SpM<S>::InnerIterator i(m, k); i; ++i)
            if (!std::isfinite(std::abs(i.value()))) i.valueRef() = val(S(), 1);
    return m;
}
template <class S>
void patterns(int n, int rows, std::string const &ty, int part, int parts) {
    Batch b;
    int ne = 1 << (n * n), nb = 1 << (n * rows), k = 0;
    for (int e = 0; e < ne; ++e)
        for (int v = 0; v < nb; ++v) {
            bool se = e == 0 || e == ne - 1 || e == 1 || e == (1 << (n * n - 1)) || (n == 3 && (e == 0x111 || e == 0x11));
            bool sb = v == 0 || v == nb - 1 || v == 1 || (n * rows && v == (1 << (n * rows - 1)));
            if (n == 3 && !((se && sb) || (mc::thorough() && (se || sb)) || (se && v % 7 == 0) || (sb && e % 7 == 0))) continue;
            if (k++ % parts != part) continue;
            for (int sh = 0; sh < (n < 3 ? 3 : 1); ++sh) {
                std::string label = mc::cat(ty, " entries ", n, "x", n, "/", e, " basis ", rows, "x", n, "/", v, " values ", sh);
                if (!mc::enter(label)) continue;
                for (bool compressed : {true, false}) {
                    if (!compressed && sh) continue;
                    Hamiltonianmatrix<S> h(finite<S>(pattern<S>(n, n, e, sh, compressed)), finite<S>(pattern<S>(rows, n, v, sh + 4, compressed)));
                    mc::R().states++, mc::R().traces++;
                    mc::outcome(ty + snap<S>(h));
                    std::string path = b.dir / mc::cat("m", k, "_", sh, "_", compressed);
                    h.save(path + ".mat");
                    std::string want = expected<S>(h);
                    for (auto w : {"eb", "be", "two"}) b.add(label, w, path, want, text<S>(h));
                }
            }
        }
    b.run();
}
// a file that was read is replaced by another one under the same name, as by a new calculation
void replaced(int slice, int slices) {
    Batch b;
    struct M {
        std::string path, name, want;
    };
    std::vector<M> ms;
    auto write = [&](auto tag, int n, int rows, int e, int v, int sh) {
        using S = decltype(tag);
        Hamiltonianmatrix<S> h(finite<S>(pattern<S>(n, n, e, sh, true)), finite<S>(pattern<S>(rows, n, v, sh + 4, true)));
        M m{b.dir / mc::cat("m", ms.size()), mc::cat(std::is_same<S, double>::value ? "real " : "complex ", n, "/", e, " ", rows, "/", v, " values ", sh), expected<S>(h)};
        h.save(m.path + ".mat");
        spit(m.path + ".json", mc::cat("{\"name\": \"", ms.size(), "\"}"));
        m.want += mc::cat(" | ", ms.size());
        ms.push_back(m);
    };
    for (int n = 0; n <= 3; ++n)
        for (int rows = n; rows <= 3; ++rows)
            for (int full = 0; full < 2; ++full) {
                int e = full ? (1 << (n * n)) - 1 : n == 2 ? 9 : n == 3 ? 0x111 : 0, v = full ? (1 << (n * rows)) - 1 : 1 << (n && rows ? n * rows - 1 : 0);
                for (int sh = 0; sh < (n ? 2 : 1); ++sh) {
                    write(0., n, rows, e, v, sh);
                    if (sh == 0) write(std::complex<double>(), n, rows, e, v, sh);
                }
            }
    int k = 0;
    for (auto &x : ms)
        for (auto &y : ms) {
            if (k++ % slices != slice) continue;
            auto label = mc::cat("replaced: ", x.name, " by ", y.name);
            if (!mc::enter(label)) continue;
            mc::R().states++, mc::R().traces++;
            for (auto o1 : {"e", "b", "p", "ebp", "pbe"})
                for (auto o2 : {"ebp", "bep", "pbe"}) b.add(label, "over", mc::cat(x.path, "\t", y.path, "\t", o1, "\t", o2), y.want, mc::cat("read in order ", o1, " then ", o2));
        }
    b.run();
}
template <class S>
void calculation(std::string const &name, Conf const &c) {
    if (!mc::enter("calculation: " + name)) return;
    Batch b;
    std::string cache = b.dir / "the cache", tmp = b.dir / "tmp";
    ::mkdir(cache.c_str(), 0755), ::mkdir(tmp.c_str(), 0755);
    for (int again = 0; again < 2; ++again) {
        auto r = run_backend<S>(c, cache, tmp);
        if (!r.ok) return mc::violation("calculation fails", r.error);
        std::string log = b.dir / mc::cat("log", again), label = "calculation: " + name;
        spit(log, r.log);
        mc::R().states++, mc::R().traces++;
        std::vector<std::string> q[3], bases[3];
        int current = 0;
        for (auto &s : r.stages) {
            int i = s.typ % 3;
            bases[i].push_back(mc::cat("basis ", i, ": ", s.basis_file));
            current = s.outs.size();
            for (auto &o : s.outs) {
                q[i].push_back(mc::cat("queue ", i, ": ", o.step, " ", o.nsym, " ", o.sym, " ", o.path));
                Hamiltonianmatrix<S> h;
                if (!h.load(o.path + ".mat")) return mc::violation("cannot be loaded", o.path);
                for (auto w : {"eb", "be", "two"}) b.add(label, w, o.path, expected<S>(h), mc::cat("stage ", s.typ, " step ", o.step));
                Configuration p;
                p.load_from_json(o.path + ".json");
                std::map<std::string, std::string> m;
                for (auto const &e : p) m[e.first] = e.second.str();
                std::string want;
                for (auto &e : m) want += (want.empty() ? "" : "|") + e.first + "=" + e.second;
                b.add(label, "params", o.path, want, "");
                mc::outcome(name + expected<S>(h));
            }
            if ((int)s.outs.size() != s.tot) mc::violation("not as many matrices as announced", mc::cat(s.outs.size(), " of ", s.tot));
        }
        std::string want;
        for (int i = 0; i < 3; ++i) {
            for (auto &x : q[i]) want += x + "|";
            for (auto &x : bases[i]) want += x + "|";
        }
        b.add(label, "log", log, want + mc::cat("end True|total ", current, " of ", r.stages.back().tot), "");
    }
    b.run();
}
int main() {
    setenv("OMP_NUM_THREADS", "1", 1);
    struct J {
        std::function<void()> f;
    };
    std::vector<J> jobs;
    for (int n = 0; n <= 3; ++n)
        for (int rows = 0; rows <= 3; ++rows) {
            int parts = n < 2 ? 1 : 4;
            for (int p = 0; p < parts; ++p) {
                jobs.push_back({[=] { patterns<double>(n, rows, "real", p, parts); }});
                jobs.push_back({[=] { patterns<std::complex<double>>(n, rows, "complex", p, parts); }});
            }
        }
    for (int i = 0; i < 8; ++i) jobs.push_back({[=] { replaced(i, 8); }});
    Conf one = base_conf(), two = pair_conf();
    auto both = [&](std::string n, Conf c) {
        jobs.push_back({[=] { calculation<double>(n + " real", c); }});
        jobs.push_back({[=] { calculation<std::complex<double>>(n + " complex", c); }});
    };
    both("one atom", one);
    both("one atom in fields", with(one, {{"minEz", "0.5"}, {"maxEz", "2"}, {"maxBx", "9"}, {"steps", "3"}}));
    both("one state", with(one, {{"deltaLSingle", "0"}, {"deltaJSingle", "0"}, {"deltaMSingle", "0"}}));
    Conf small = with(two, {{"deltaJSingle", "0"}, {"deltaMSingle", "0"}, {"j2", "1.5"}, {"m2", "0.5"}});
    both("pair", small);
    both("pair of one state", with(small, {{"deltaLSingle", "0"}}));
    both("pair, three distances", with(small, {{"maxR", "8"}, {"steps", "3"}}));
    both("pair, other species", with(small, {{"species2", "Cs"}, {"minEz", "1"}, {"maxEz", "1"}}));
    both("pair, energy window", with(small, {{"deltaEPair", "300"}}));
    both("pair, empty", with(small, {{"deltaEPair", "1e-9"}, {"n2", "21"}, {"deltaNPair", "0"}}));
    Conf sb = with(small, {{"samebasis", "true"}});
    both("same basis", sb);
    both("same basis, inversions", with(sb, {{"invO", "true"}, {"invE", "true"}, {"maxR", "6"}, {"steps", "2"}}));
    both("same basis, permutation and inversion", with(sb, {{"invO", "true"}, {"perO", "true"}, {"sametrafo", "true"}}));
    mc::parallel(jobs.size(), [&](int i) { jobs[i].f(); });
    mc::sample("real entries 2x2/9 basis 3x2/21 values 1"), mc::sample("calculation: same basis, inversions complex");
    return mc::finish();
}
