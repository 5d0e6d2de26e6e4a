// U02: rotation coefficients of the graphical client (Wignerd, Python) against the exact sum: every request after every other
// one, histories of two clients on one directory, and a client that dies or runs out of space at every byte it stores.
#include "client.hpp"

static char const *script = R"PY(
import importlib.util, sys, os, math, itertools, resource, signal, tempfile, shutil, gc
repo, jobs = sys.argv[1:3]
s = importlib.util.spec_from_file_location("client_utils", repo + "/pairinteraction_gui/utils.py")
u = importlib.util.module_from_spec(s); s.loader.exec_module(u)
memo = {}
def exact(j, m, mp, b): # the sum of Wigner
    key = (j, m, mp, b)
    if key in memo: return memo[key]
    f = lambda x: math.factorial(int(round(x)))
    r = 0
    for k in range(int(2 * j) + 1):
        a = [j + mp - k, k, m - mp + k, j - m - k]
        if min(a) < 0: continue
        r += (-1) ** round(m - mp + k) / (f(a[0]) * f(a[1]) * f(a[2]) * f(a[3])) * math.cos(b / 2) ** round(2 * j + mp - m - 2 * k) * math.sin(b / 2) ** round(m - mp + 2 * k)
    memo[key] = r * math.sqrt(f(j + m) * f(j - m) * f(j + mp) * f(j - mp))
    return memo[key]
class Bad(Exception): pass
def ask(w, r, text):
    try:
        x = w.calc(*r)
    except Exception as e:
        raise Bad("request fails :: %s asked for %s: %s %s" % (text, r, type(e).__name__, e))
    if not abs(x - exact(*r)) < 2e-8 * (1 + r[0]): raise Bad("wrong coefficient :: %s asked for %s: %r instead of %r" % (text, r, x, exact(*r)))
    return x
here = os.getcwd()
def fresh():
    for e in os.listdir(here):
        p = os.path.join(here, e)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    d = os.path.join(here, "wignerd")
    os.mkdir(d)
    return d + "/"
def new(d): return u.Wignerd(d)
def drop(w): # as if its process were gone: nothing is stored any more
    w.wignerdict, w.cachupdatedict = {}, {}
def forget(w):
    w.__dict__["save"] = lambda: None
pi = math.pi
R = [(.5, .5, -.5, .3), (.5, -.5, .5, .3), (1.5, -.5, 1.5, .3), (1.5, 1.5, -.5, -.3), (2., 1., -2., pi / 2), (2., -1., 2., pi / 2), (2.5, .5, -1.5, .3 + 2e-10), (2.5, 1.5, -.5, 1.1), (1., 0., -1., -.3)]
def history(word):
    d = fresh()
    w = {"a": new(d), "b": new(d)}
    n = 0
    for i in range(0, len(word), 2):
        o, x = word[i], word[i + 1]
        n += 1
        if x.isdigit(): ask(w[o], R[int(x)], word[:i + 2])
        elif x == "s":
            w[o].save()
        elif x == "r": # the client is left and started again
            w[o] = new(d); gc.collect(0)
        elif x == "k": # killed and started again
            forget(w[o]); w[o] = new(d)
        elif x == "c": # the cache is cleared by the user
            shutil.rmtree(d); os.makedirs(d)
    out = []
    for o in ("a", "b", "c"):
        x = w[o] if o != "c" else new(d)
        for r in R: ask(x, r, word + " and then " + o); n += 1
        forget(x)
    return n
def child(f, limit, die):
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            f()
        except BaseException: pass
        os._exit(0)
    os.waitpid(pid, 0)
def tree(d): return {e: open(os.path.join(d, e), "rb").read() for e in os.listdir(d)}
for line in open(jobs):
    kind, *a = line.split()
    n = 0
    try:
        if kind == "pairs": # every request after every other one
            j, b = float(a[0]), float.fromhex(a[1])
            ms = [j - i for i in range(int(2 * j) + 1)]
            all_ = [(j, m, mp, b) for m in ms for mp in ms]
            for r in all_:
                d = fresh()
                w = new(d)
                ask(w, r, "new"); w.save()
                for x in all_: ask(w, x, "after %s" % (r,))
                v = new(d)
                for x in reversed(all_): ask(v, x, "stored after %s" % (r,))
                w.save()
                for x in all_: ask(w, x, "saved")
                x = new(d)
                for y in all_: ask(x, y, "restarted after all")
                n += 4 * len(all_)
                for z in (w, v, x): forget(z)
            print(n, "pairs", j, b)
        elif kind == "hist":
            first, depth = a[0], int(a[1])
            letters = [o + x for o in "ab" for x in "012345678srk"] + ["ac"]
            for k in range(depth + 1):
                for t in itertools.product(letters, repeat=k): n += history(first + "".join(t))
            print(n, "histories", first)
        elif kind == "cut":
            pre, post, die = a[0], a[1], a[2] == "die"
            def prepare():
                d = fresh()
                w = new(d)
                for c in pre:
                    if c != "-": ask(w, R[int(c)], "before")
                w.save(); forget(w)
                return d
            def last(d):
                w = new(d)
                for c in post: w.calc(*R[int(c)])
                w.save(); forget(w)
            d = prepare()
            child(lambda: last(d), None, die)
            size = max([len(x) for x in tree(d).values()] or [0])
            seen = set()
            for k in range(size + 1):
                d = prepare()
                child(lambda: last(d), k, die)
                seen.add(str(sorted(tree(d).items())))
                for again in range(2): # the next clients
                    w = new(d)
                    for r in R: ask(w, r, "after %s at byte %d of storing" % ("death" if die else "a full disk", k)); n += 1
                    try: w.save()
                    except Exception as e: raise Bad("cannot store any more :: byte %d: %s" % (k, e))
                    forget(w)
            print(n, "cut", pre, post, die, len(seen))
    except Bad as x: print("BAD", x)
    except Exception as x: print("BAD client fails ::", type(x).__name__, x, line.strip())
    sys.stdout.flush()
)PY";

int main() {
    std::vector<std::pair<std::string, std::string>> jobs;
    double top = mc::tier(4, 8);
    for (int tj = 0; tj <= top; ++tj)
        for (double b : {0., .3, -.3, 1.1, M_PI / 2, -M_PI / 2, M_PI, -M_PI, 2 * M_PI, 3 * M_PI, 1e-10, 4., -5.}) {
            char hex[64];
            snprintf(hex, sizeof hex, "%a", b);
            jobs.push_back({mc::cat("pairs j ", tj / 2., " angle ", b), mc::cat("pairs ", tj / 2., " ", hex)});
        }
    std::vector<std::string> letters;
    for (char o : std::string("ab"))
        for (char x : std::string("012345678srk")) letters.push_back({o, x});
    letters.push_back("ac");
    int depth = mc::tier(3, 4);
    for (auto &l : letters)
        for (auto &k : letters) jobs.push_back({mc::cat("histories ", l, k), mc::cat("hist ", l, k, " ", depth - 2)});
    for (std::string pre : {"-", "0", "02", "04"})
        for (std::string post : {"0", "02", "3", "027", "0123456"})
            for (auto how : {"die", "full"}) jobs.push_back({mc::cat("storing ", post, " after ", pre, " ", how), mc::cat("cut ", pre, " ", post, " ", how)});
    mc::parallel(64, [&](int i) {
        Client c(script);
        for (size_t k = i; k < jobs.size(); k += 64) c.add(jobs[k].first, jobs[k].second);
        c.run();
    });
    mc::info("depth", depth);
    mc::sample("pairs j 2.5 angle 0.3"), mc::sample("storing 02 after 0 die");
    return mc::finish();
}
