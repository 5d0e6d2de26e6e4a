// U01: the graphical client's reader (Worker and AllQueues, Python) on all sequences of reports up to a depth, with the
// user's polls and stops at every place, the backend ending at every place, and a second calculation on the same objects,
// against a small automaton; the same on what real calculations print, cut at every line.
#include "backend.hpp"
#include "hmat.hpp"

static char const *script = R"PY(
import importlib.util, sys, types, io, contextlib
repo, jobs, real = sys.argv[1:4]
if real == "no":
    class Signal:
        def __init__(self, *a): self.to = []
        def connect(self, f): self.to.append(f)
        def emit(self, *a):
            for f in self.to: f(*a)
    class Declared: # one signal for each object, as in Qt
        def __init__(self, *a): self.name = None
        def __set_name__(self, owner, name): self.name = "_signal_" + name
        def __get__(self, obj, owner):
            if obj is None: return self
            if self.name not in obj.__dict__: obj.__dict__[self.name] = Signal()
            return obj.__dict__[self.name]
    class QThread:
        def __init__(self, *a): pass
        def start(self): self.run()
        def wait(self): pass
        def isRunning(self): return False
    class QObject:
        def __init__(self, *a): pass
    qt = types.ModuleType("PyQt5"); core = types.ModuleType("PyQt5.QtCore"); sip = types.ModuleType("PyQt5.sip")
    core.QThread, core.QObject, core.pyqtSignal, core.pyqtSlot = QThread, QObject, Declared, lambda *a, **k: (lambda f: f)
    sip.isdeleted = lambda x: True
    qt.QtCore, qt.sip = core, sip
    sys.modules.update({"PyQt5": qt, "PyQt5.QtCore": core, "PyQt5.sip": sip})
    app = None
else:
    try:
        from PyQt5.QtCore import QCoreApplication, Qt
    except ImportError:
        sys.exit(3)
    app = QCoreApplication([])
s = importlib.util.spec_from_file_location("client_worker", repo + "/pairinteraction_gui/worker.py")
w = importlib.util.module_from_spec(s); s.loader.exec_module(w)
class Out:
    def __init__(self, items, act):
        self.items, self.act, self.i, self.closed = items, act, 0, 0
    def readline(self):
        while self.i < len(self.items):
            x = self.items[self.i]
            self.i += 1
            if isinstance(x, bytes): return x
            self.act(x)
        return b""
    def close(self): self.closed += 1
    def __iter__(self): return iter(self.readline, b"")
def take(q):
    s = []
    for i in range(3):
        while q.basisfiles[i]: s.append("b%d %s" % (i, q.basisfiles[i].pop(0)))
        d = q.dataqueues[i]
        while not d.empty(): s.append("q%d %s" % (i, " ".join(str(x) for x in d.get())))
    return ",".join(s) + ";" + q.message
lines = {}
for line in open(jobs, "rb"):
    line = line.rstrip(b"\n")
    what, rest = line.split(b" ", 1)
    if what == b"letter":
        lines[rest[0:1]] = rest[2:] + b"\n"
        continue
    other = io.StringIO()
    result = []
    try:
        with contextlib.redirect_stdout(other):
            q = w.AllQueues()
            t = w.Worker(q)
            critical = []
            if app: t.criticalsignal.connect(critical.append, Qt.QueuedConnection)
            else: t.criticalsignal.connect(critical.append)
            if what == b"file":
                path, cut, how = rest.rsplit(b" ", 2)
                run = open(path, "rb").read().splitlines(True)[:int(cut)]
                if how == b"open" and run: run[-1] = run[-1][:-1]
                if how == b"crlf": run = [x[:-1] + b"\r\n" for x in run]
                runs = [run]
            else:
                runs = [[{"p": "poll", "x": "stop"}.get(chr(c)) or lines[bytes([c])] for c in r] for r in rest.split(b"/")]
            for r in runs:
                def act(x):
                    if x == "poll": result.append("poll " + take(q))
                    else: t.exiting = True
                out = Out(r, act)
                t.execute(out)
                t.wait()
                if app: app.processEvents()
                result.append("done %s closed %d errors %s left %s" % (bool(q.finishedgracefully), bool(out.closed), ",".join(critical), take(q)))
                q.clear()
                del critical[:]
        print("|".join(result) + "|printed " + ("" if what == b"file" else other.getvalue().replace("\n", "~")))
    except Exception as x:
        print("exception", type(x).__name__, x)
)PY";

struct Letter {
    char c;
    std::string name, line;
};
static std::vector<Letter> const letters{
    {'0', "first atom", ">>TYP      0"},          {'1', "second atom", ">>TYP      1"},           {'2', "pair", ">>TYP      2"},
    {'3', "both atoms", ">>TYP      3"},          {'b', "basis size", ">>BAS     12"},            {'s', "basis file", ">>STA /tmp/a b/basis_one.csv"},
    {'t', "total", ">>TOT      7"},               {'d', "dimension", ">>DIM    345"},             {'o', "result", ">>OUT      4      3      2      1 /c/one_A"},
    {'w', "wide result", ">>OUT123456712345681234569      0 /c d/two_BC"}, {'r', "error", ">>ERRno such thing "}, {'n', "remark", "One-atom Hamiltonian, >>OUT"},
    {'l', "empty line", ""},                      {'e', "end", ">>END"},                          {'p', "look", ""}, {'x', "stop", ""}};
static std::string strip(std::string s) {
    while (!s.empty() && (s.back() == ' ' || s.back() == '\r')) s.pop_back();
    return s.substr(std::min(s.find_first_not_of(' '), s.size()));
}
// The reference: what the client knows after the reports read so far.
struct Client {
    int type = 0, dim = 0, cur = 0, tot = 0;
    std::string kind, doing, printed, errors;
    std::vector<std::string> q[3], b[3];
    bool end = false, said = false;
    std::string take() {
        std::string s;
        for (int i = 0; i < 3; ++i) {
            for (auto &x : b[i]) s += (s.empty() ? "" : ",") + mc::cat("b", i, " ", x);
            for (auto &x : q[i]) s += (s.empty() ? "" : ",") + mc::cat("q", i, " ", x);
            q[i].clear(), b[i].clear();
        }
        return s + ";" + (said ? kind + doing : "");
    }
    void line(std::string const &l) {
        auto num = [&](int at) { return std::stoi(l.substr(at, 7)); };
        std::string tag = l.substr(0, 5);
        char const *kinds[] = {"Field map of first atom: ", "Field map of second atom: ", "Pair potential: ", "Field maps: "};
        auto progress = [&] { doing = mc::cat("diagonalize ", dim, " x ", dim, " matrix, ", cur, " of ", tot, " matrices processed"); };
        said = true;
        if (tag == ">>TYP") type = num(5), kind = kinds[type], doing = "construct matrices";
        else if (tag == ">>BAS") doing = mc::cat("construct matrices using ", num(5), " basis vectors");
        else if (tag == ">>STA") b[type % 3].push_back(strip(l.substr(6)));
        else if (tag == ">>TOT") tot = num(5), cur = 0;
        else if (tag == ">>DIM") dim = num(5), progress();
        else if (tag == ">>OUT") {
            cur++, progress();
            q[type % 3].push_back(mc::cat(num(12), " ", num(19), " ", num(26), " ", strip(l.substr(34))));
        } else if (tag == ">>ERR") errors += (errors.empty() ? "" : ",") + strip(l.substr(5));
        else if (tag == ">>END") end = true;
        else printed += l + "~";
    }
};
static std::string expected(std::vector<std::vector<std::string>> const &runs, bool with_printed) {
    std::string res, printed;
    for (auto &r : runs) {
        Client k;
        bool stop = false;
        for (auto &l : r) {
            if (l == "\1look")
                res += "poll " + k.take() + "|";
            else if (l == "\1stop")
                stop = true;
            else {
                if (stop || k.end) break;
                k.line(l);
            }
        }
        bool fin = k.end;
        std::string left = fin ? k.take() : ";";
        res += mc::cat("done ", fin ? "True" : "False", " closed 1 errors ", k.errors, " left ", left, "|");
        printed += k.printed;
    }
    return res + "printed " + (with_printed ? printed : "");
}
struct Batch {
    mc::Scratch dir;
    struct Case {
        std::string label, job, want;
    };
    std::vector<Case> cases;
    bool run(bool real = false) {
        if (cases.empty()) return true;
        spit(dir / "read.py", script);
        std::string list;
        for (auto &l : letters) list += mc::cat("letter ", l.c, " ", l.line, "\n");
        for (auto &c : cases) list += c.job + "\n";
        spit(dir / "jobs", list);
        char const *repo = getenv("VERIF_REPO");
        std::string cmd = mc::cat("PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen timeout 600 ", real ? "/usr/bin/python3" : "python3-vt", " '", dir / "read.py", "' '", repo ? repo : "/repo", "' '",
                                  dir / "jobs", "' ", real ? "yes" : "no", " > '", dir / "out", "' 2> '", dir / "err", "'");
        int rc = system(cmd.c_str());
        if (real && WIFEXITED(rc) && (WEXITSTATUS(rc) == 3 || WEXITSTATUS(rc) == 127)) return false; // no Qt here
        std::ifstream f(dir / "out");
        std::string line;
        for (auto &c : cases) {
            mc::enter(c.label);
            mc::R().evaluations++;
            if (!std::getline(f, line)) {
                mc::violation("the client stops", mc::cat("exit status ", rc, " at ", c.job));
                return true;
            }
            mc::outcome(line);
            if (line != c.want) mc::violation("the client does not follow the reports", mc::cat(line.substr(0, 400), "   expected   ", c.want.substr(0, 400)));
        }
        cases.clear();
        return true;
    }
    void add(std::string const &label, std::string const &job, std::string const &want) {
        cases.push_back({label, job, want});
        if (cases.size() >= 20000) run();
    }
};
static Letter const &letter(char c) {
    for (auto &l : letters)
        if (l.c == c) return l;
    abort();
}
static void sequence(Batch &b, std::string const &s, std::string const &prefix = "") {
    for (size_t i = 0, end = 0; i < s.size(); ++i) { // once the end is read nothing more has to be fetched
        end = s[i] == 'e' || (end && s[i] != '/');
        if (end && (s[i] == 'p' || s[i] == 'x')) return;
    }
    std::string label = prefix;
    std::vector<std::vector<std::string>> runs(1);
    for (char c : s) {
        label += label == prefix ? "" : " ; ";
        if (c == '/') {
            label += "next calculation";
            runs.emplace_back();
        } else {
            auto &l = letter(c);
            label += l.name;
            runs.back().push_back(c == 'p' ? "\1look" : c == 'x' ? "\1stop" : l.line);
        }
    }
    if (!mc::enter(label.empty() ? "nothing" : label)) return;
    mc::R().states++, mc::R().transitions += s.size(), mc::R().traces++;
    b.add(label.empty() ? "nothing" : label, "seq " + s, expected(runs, true));
}
static void all(Batch &b, std::string const &alphabet, std::string const &s, int depth) {
    sequence(b, s);
    if (depth == 0) return;
    for (char c : alphabet) all(b, alphabet, s + c, depth - 1);
}
template <class S>
void calculation(std::string const &name, Conf const &c, bool fails) {
    if (!mc::enter("calculation: " + name)) return;
    Batch b;
    std::string cache = b.dir / "the cache", tmp = b.dir / "tmp";
    ::mkdir(cache.c_str(), 0755), ::mkdir(tmp.c_str(), 0755);
    for (int again = 0; again < 2; ++again) {
        auto r = run_backend<S>(c, cache, tmp);
        if (r.ok == fails) return mc::violation(fails ? "calculation succeeds" : "calculation fails", r.error);
        std::string log = b.dir / mc::cat("log", again);
        spit(log, r.log);
        std::vector<std::string> ls;
        std::istringstream in(r.log);
        for (std::string l; std::getline(in, l);) ls.push_back(l);
        if (fails) {
            int n = 0;
            for (auto &l : ls) n += l.compare(0, 5, ">>ERR") == 0;
            if (n != 1) mc::violation("the reason of the failure is not reported", r.log.substr(0, 300));
        } else { // what is announced agrees with itself and with the configuration
            int steps = std::stoi(c.at("steps"));
            for (auto &s : r.stages) {
                std::map<std::pair<int, int>, int> seen;
                for (auto &o : s.outs) {
                    seen[{o.step, o.sym}]++;
                    if (o.nsym * steps != s.tot && s.typ == 2) mc::violation("total disagrees with steps and blocks", mc::cat(s.tot));
                    if (o.nr != o.step * o.nsym + o.sym + 1) mc::violation("results are numbered wrongly", mc::cat(o.nr, " step ", o.step, " block ", o.sym, " of ", o.nsym));
                    if (o.step < 0 || o.step >= steps || o.sym < 0 || o.sym >= o.nsym) mc::violation("step or block out of range", mc::cat(o.step, " ", o.sym));
                }
                for (auto &e : seen)
                    if (e.second != 1) mc::violation("a result is announced twice", mc::cat(e.first.first, " ", e.first.second));
                if ((int)s.outs.size() != s.tot) mc::violation("not as many results as announced", mc::cat(s.outs.size(), " of ", s.tot));
                if ((int)s.rows.size() != s.bas) mc::violation("basis file disagrees with the announced size", mc::cat(s.rows.size(), " of ", s.bas));
            }
        }
        for (size_t cut = 0; cut <= ls.size(); ++cut) {
            mc::R().states++, mc::R().transitions++, mc::R().traces++;
            for (auto how : {"whole", "open", "crlf"}) // the last line lacks its end, which is written on its own
                b.add("calculation: " + name, mc::cat("file ", log, " ", cut, " ", how), expected({std::vector<std::string>(ls.begin(), ls.begin() + cut)}, false));
        }
    }
    b.run();
}
int main() {
    setenv("OMP_NUM_THREADS", "1", 1);
    std::string every, core = "02soep", two = "03strenpx";
    for (auto &l : letters) every += l.c;
    std::vector<std::function<void()>> jobs;
    int depth = mc::tier(5, 6), deep = mc::tier(8, 9), d1 = mc::tier(4, 5);
    jobs.push_back([=] { Batch b; sequence(b, ""); b.run(); });
    for (char c : every) jobs.push_back([=] { Batch b; all(b, every, std::string(1, c), depth - 1); b.run(); });
    for (char c : core)
        for (char d : core) jobs.push_back([=] { Batch b; all(b, core, std::string{c, d}, deep - 2); b.run(); });
    for (char c : two)
        jobs.push_back([=] { // a first calculation followed by a second one
            Batch b;
            std::function<void(std::string, int)> second = [&](std::string s, int d) {
                sequence(b, s);
                if (d)
                    for (char x : two) second(s + x, d - 1);
            };
            std::function<void(std::string, int)> first = [&](std::string s, int d) {
                second(s + "/", 2);
                if (d)
                    for (char x : two) first(s + x, d - 1);
            };
            first(std::string(1, c), d1 - 1);
            b.run();
        });
    Conf one = base_conf(), pair = with(pair_conf(), {{"deltaJSingle", "0"}, {"deltaMSingle", "0"}, {"j2", "1.5"}, {"m2", "0.5"}});
    auto calc = [&](std::string n, Conf c) {
        jobs.push_back([=] { calculation<double>(n + " real", c, false); });
        jobs.push_back([=] { calculation<std::complex<double>>(n + " complex", c, false); });
    };
    calc("one atom, steps", with(one, {{"maxEz", "2"}, {"steps", "3"}}));
    calc("pair, steps", with(pair, {{"maxR", "8"}, {"steps", "2"}, {"species2", "Cs"}}));
    calc("same basis, four blocks", with(pair, {{"samebasis", "true"}, {"invO", "true"}, {"invE", "true"}, {"refE", "true"}, {"refO", "true"}, {"minBz", "1"}, {"maxBz", "1"}, {"maxR", "6"}, {"steps", "2"}}));
    calc("same basis, two blocks", with(pair, {{"samebasis", "true"}, {"perO", "true"}, {"perE", "true"}, {"steps", "3"}, {"maxR", "9"}}));
    for (auto k : {"minEy", "maxEy", "minBy", "maxBy"})
        jobs.push_back([=] { calculation<double>(mc::cat("real with ", k), with(one, {{k, "1"}}), true); });
    jobs.push_back([=] { calculation<double>("pair, real with minEy", with(pair, {{"minEy", "1"}}), true); });
    jobs.push_back([=] { // the stand-in for Qt's thread and signals against the real ones
        Batch b;
        for (std::string s : {"", "e", "0toe", "2so", "3sope", "rnr", "r/0oe", "0rpoxo", "0ts/2toe", "0toe/r/3soe", "nlw", "0xpe", "ete", "2tdododope"}) sequence(b, s, "Qt: ");
        if (!b.run(true)) mc::info("qt", 0);
        else mc::info("qt", 1);
    });
    mc::parallel(jobs.size(), [&](int i) { jobs[i](); });
    mc::info("depth", depth), mc::info("depth_core", deep);
    mc::sample("pair ; total ; result ; look ; end"), mc::sample("error");
    return mc::finish();
}
