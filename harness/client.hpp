// Running the graphical client's own Python code on a list of jobs. The script gets the repository and the job file and prints
// for each job one line: "<states> <outcome>", or "BAD <what> :: <details>".
#ifndef VERIF_CLIENT_HPP
#define VERIF_CLIENT_HPP
#include "mc.hpp"
#include <fstream>
#include <sys/stat.h>

struct Client {
    mc::Scratch dir;
    std::string script;
    std::vector<std::pair<std::string, std::string>> jobs; // label, line
    Client(std::string const &s) : script(s) {}
    void add(std::string const &label, std::string const &line) {
        if (mc::enter(label)) jobs.push_back({label, line});
    }
    void run() {
        if (jobs.empty()) return;
        std::string list;
        for (auto &j : jobs) list += j.second + "\n";
        auto put = [&](std::string const &name, std::string const &text) { std::ofstream(dir / name) << text; };
        put("run.py", script), put("jobs", list);
        std::string work = dir / "work";
        ::mkdir(work.c_str(), 0755);
        char const *repo = getenv("VERIF_REPO");
        std::string cmd = mc::cat("cd '", work, "' && OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 TMPDIR='", work, "' python3-vt '", dir / "run.py", "' '", repo ? repo : "/repo", "' '", dir / "jobs",
                                  "' > '", dir / "out", "' 2> '", dir / "err", "'");
        int rc = system(cmd.c_str());
        std::ifstream f(dir / "out");
        std::string line;
        for (auto &j : jobs) {
            mc::enter(j.first);
            auto &r = mc::R();
            if (!std::getline(f, line)) {
                std::ifstream e(dir / "err");
                std::string err, l;
                while (std::getline(e, l)) err = l;
                return mc::violation("the client stops", mc::cat("exit status ", rc, " ", err));
            }
            if (line.compare(0, 4, "BAD ") == 0) {
                auto at = line.find(" :: ");
                mc::violation(line.substr(4, at == std::string::npos ? at : at - 4), at == std::string::npos ? "" : line.substr(at + 4));
                continue;
            }
            auto at = line.find(' ');
            long n = std::stol(line.substr(0, at));
            r.states += n, r.transitions += n, r.traces += n, r.evaluations += n;
            mc::outcome(line.substr(at + 1));
        }
        jobs.clear();
    }
};
#endif
