// I01: every argument list up to a length, given to the real entry point with the calculation and exit() replaced by recorders.
#include "mc.hpp"
#include <iostream>

#include <csetjmp>
#include <cstdlib>
#define SWIG // no extern templates: the calculation is replaced below
#include "Interface.hpp"
#undef SWIG

// exit() returns to the check; argument lists are short enough that no memory is lost on the way
static std::jmp_buf leave;
static bool in_main = false;
static int exit_status;
extern "C" void __real__exit(int status);
extern "C" void __real_exit(int status);
static void exited(int status) {
    exit_status = status;
    in_main = false;
    std::longjmp(leave, 1);
}
extern "C" void __wrap_exit(int status) { in_main ? exited(status) : __real_exit(status); }
extern "C" void __wrap__exit(int status) { in_main ? exited(status) : __real__exit(status); }

struct Run {
    std::string config, output, type;
    bool operator==(Run const &o) const { return config == o.config && output == o.output && type == o.type; }
};
static std::vector<Run> runs;
static int answer = 0;
template <>
int compute<double>(std::string const &c, std::string const &o) {
    runs.push_back({c, o, "real"});
    return answer;
}
template <>
int compute<std::complex<double>>(std::string const &c, std::string const &o) {
    runs.push_back({c, o, "complex"});
    return answer;
}

#define main backend_main
#include "main.cpp"
#undef main

// the documented behaviour
struct Want {
    bool run = false, help = false;
    Run r;
};
static Want model(std::vector<std::string> const &a) {
    Want w;
    if (a.empty()) {
        w.help = true;
        return w;
    }
    std::string c, o, t;
    for (size_t i = 0; i < a.size(); ++i) {
        std::string *to = nullptr;
        if (a[i] == "-?" || a[i] == "--help") {
            w.help = true;
            return w;
        }
        if (a[i] == "-c" || a[i] == "--config") to = &c;
        if (a[i] == "-o" || a[i] == "--output") to = &o;
        if (a[i] == "-t" || a[i] == "--type") to = &t;
        if (!to || i + 1 >= a.size()) return w;
        *to = a[++i];
    }
    if (c.empty() || o.empty() || (t != "real" && t != "complex")) return w;
    w.run = true;
    w.r = {c, o, t};
    return w;
}

static void check(std::vector<std::string> const &a) {
    auto &r = mc::R();
    std::string l = "arguments:";
    for (auto &s : a) l += " [" + s + "]";
    if (!mc::enter(l)) return;
    std::vector<std::string> copy = a;
    copy.insert(copy.begin(), "pairinteraction");
    std::vector<char *> argv;
    for (auto &s : copy) argv.push_back(s.data());
    argv.push_back(nullptr);
    static std::stringbuf out, err;
    out.str("");
    err.str("");
    auto *po = std::cout.rdbuf(&out);
    auto *pe = std::cerr.rdbuf(&err);
    runs.clear();
    Want w = model(a);
    static int flip = 0;
    answer = (flip = !flip) ? 0 : 5;
    in_main = true;
    if (setjmp(leave) == 0) exit_status = backend_main(static_cast<int>(copy.size()), argv.data());
    in_main = false;
    int status = exit_status;
    std::cout.rdbuf(po);
    std::cerr.rdbuf(pe);
    ++r.states;
    ++r.traces;
    ++r.evaluations;
    r.transitions += static_cast<long long>(a.size());
    std::string seen = mc::cat(runs.size(), " calculations, status ", status, runs.empty() ? "" : mc::cat(" ", runs[0].config, "|", runs[0].output, "|", runs[0].type));
    if (w.run) {
        if (runs.size() != 1 || !(runs[0] == w.r)) mc::violation("the calculation that was asked for was not run exactly once", seen);
        else if (status != answer) mc::violation("the status of the calculation is not passed on", seen);
    } else {
        if (!runs.empty()) mc::violation("a calculation was run although the arguments are not valid", seen);
        if (w.help) {
            if (status != 0) mc::violation("asking for help reports failure", seen);
            std::string o = out.str();
            for (auto s : {"--help", "--config", "--output", "--type", "-?", "-c", "-o", "-t"})
                if (o.find(s) == std::string::npos) mc::violation("the help does not mention an option", s);
        } else {
            if (status == 0) mc::violation("invalid arguments do not report failure", seen);
            if (err.str().empty() && out.str().empty()) mc::violation("no reason is given", seen);
        }
    }
    if (w.run || r.samples.size() < 3) {
        mc::outcome(w.run ? mc::cat("run ", w.r.config, w.r.output, w.r.type) : w.help ? "help" : "refused " + err.str());
        if (r.samples.size() < 8) mc::sample(l + (w.run ? " -> run" : w.help ? " -> help" : " -> refused"));
    } else if (!w.run)
        mc::outcome(w.help ? "help" : "refused " + err.str());
}

static void all(std::vector<std::string> const &alphabet, std::vector<std::string> &a, size_t len) {
    if (a.size() == len) {
        check(a);
        return;
    }
    for (auto &t : alphabet) {
        a.push_back(t);
        all(alphabet, a, len);
        a.pop_back();
    }
}

int main() {
    std::vector<std::string> wide = {"-?", "--help", "-c", "--config", "-o", "--output", "-t", "--type", "file", "", "real", "complex", "-x"};
    std::vector<std::string> mid = {"-c", "--output", "-t", "a b", "real", "complex", "--help", "Real"};
    std::vector<std::string> slim = {"-c", "-o", "-t", "real", "complex"};
    if (mc::thorough()) wide.insert(wide.end(), {"--config=file", "-cfile", "--", "-"});
    struct J {
        std::vector<std::string> *al;
        size_t len;
        std::string first, second;
    };
    std::vector<J> jobs;
    auto add = [&](std::vector<std::string> &al, size_t from, size_t to) {
        for (size_t n = to; n + 1 > from; --n)
            for (auto &f : al)
                for (auto &s : al) jobs.push_back({&al, n, f, s});
    };
    add(slim, 9, mc::tier(8, 10));
    add(slim, 8, 8);
    if (mc::thorough()) add(mid, 7, 8);
    else add(mid, 7, 7);
    add(wide, 2, 6);
    mc::parallel(static_cast<int>(jobs.size()), [&](int i) {
        J &j = jobs[i];
        std::vector<std::string> a = {j.first, j.second};
        all(*j.al, a, j.len);
    });
    check({});
    for (auto &f : wide) check({f});
    // replace each character of each option, and append or drop one
    for (std::string opt : {"-?", "--help", "-c", "--config", "-o", "--output", "-t", "--type", "real", "complex"})
        for (size_t k = 0; k <= opt.size(); ++k)
            for (int c = 0; c < 256; ++c) {
                std::string v = opt;
                if (c == 0) {
                    if (k == opt.size()) continue;
                    v.erase(k, 1);
                } else if (k == opt.size())
                    v += static_cast<char>(c);
                else
                    v[k] = static_cast<char>(c);
                std::vector<std::string> good = {"-c", "x", "-o", "y", "-t", "real"};
                for (size_t p = 0; p <= good.size(); ++p) {
                    auto a = good;
                    if (p < good.size()) {
                        a[p] = v;
                        check(a);
                    } else {
                        a.push_back(v);
                        check(a);
                        a.push_back("real");
                        check(a);
                    }
                }
            }
    return mc::finish();
}
