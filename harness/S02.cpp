// S02: the legacy basis builder against brute-force enumeration: all start states and windows, products, removals.
#include "Basisnames.hpp"
#include "mc.hpp"
#include <fstream>

struct Q {
    int n, l, j2, m2;
    bool operator<(Q const &o) const { return std::tie(n, l, j2, m2) < std::tie(o.n, o.l, o.j2, o.m2); }
    bool operator==(Q const &o) const { return std::tie(n, l, j2, m2) == std::tie(o.n, o.l, o.j2, o.m2); }
    std::string str() const { return mc::cat(n, ",", l, ",", j2, "/2,", m2, "/2"); }
};
static Q q(StateOneOld const &s) {
    return {s.n, s.l, static_cast<int>(std::lround(2 * s.j)), static_cast<int>(std::lround(2 * s.m))};
}
static bool exact(StateOneOld const &s) {
    Q x = q(s);
    return s.j == x.j2 / 2.f && s.m == x.m2 / 2.f;
}
static std::vector<Q> all_states(int nmax) {
    std::vector<Q> v;
    for (int n = 1; n <= nmax; ++n)
        for (int l = 0; l < n; ++l)
            for (int j2 = std::abs(2 * l - 1); j2 <= 2 * l + 1; j2 += 2)
                for (int m2 = -j2; m2 <= j2; m2 += 2) v.push_back({n, l, j2, m2});
    return v;
}
struct W {
    int n, l, j, m;
    std::string str() const { return mc::cat(n, ",", l, ",", j, ",", m); }
};
static std::vector<Q> inside(std::vector<Q> const &starts, W w) {
    std::vector<Q> v;
    int nmax = 0;
    for (auto &s : starts) nmax = std::max(nmax, s.n + w.n);
    for (Q x : all_states(nmax)) {
        bool in = false;
        for (auto &s : starts)
            in = in || (std::abs(x.n - s.n) <= w.n && (w.l < 0 || std::abs(x.l - s.l) <= w.l) && (w.j < 0 || std::abs(x.j2 - s.j2) <= 2 * w.j) &&
                        (w.m < 0 || std::abs(x.m2 - s.m2) <= 2 * w.m));
        if (in) v.push_back(x);
    }
    return v;
}
// an unlimited window around two states of different n: allowed are all states with n in one of the windows
static Configuration conf(Q a, Q b, W w, std::string sp1 = "Rb", std::string sp2 = "Rb") {
    Configuration c;
    c["species1"] << sp1;
    c["species2"] << sp2;
    c["n1"] << a.n;
    c["l1"] << a.l;
    c["j1"] << a.j2 / 2.;
    c["m1"] << a.m2 / 2.;
    c["n2"] << b.n;
    c["l2"] << b.l;
    c["j2"] << b.j2 / 2.;
    c["m2"] << b.m2 / 2.;
    c["deltaNSingle"] << w.n;
    c["deltaLSingle"] << w.l;
    c["deltaJSingle"] << w.j;
    c["deltaMSingle"] << w.m;
    c["missingCalc"] << "true";
    c["missingWhittaker"] << "false";
    return c;
}
static void check(BasisnamesOne const &b, std::vector<Q> want, const char *what) {
    auto &r = mc::R();
    ++r.evaluations;
    std::vector<Q> got;
    size_t pos = 0;
    for (auto s : b) {
        if (!exact(s)) mc::violation(mc::cat(what, ": a state has invalid quantum numbers"), mc::cat(s));
        if (s.idx != pos) mc::violation(mc::cat(what, ": a state's index is not its position"), mc::cat(q(s).str(), " has ", s.idx, " at ", pos));
        if (pos < b.size() && !(q(b.get(pos)) == q(s))) mc::violation(mc::cat(what, ": iteration and access by position differ"), "");
        got.push_back(q(s));
        ++pos;
    }
    if (b.size() != got.size() || b.dim() != got.size()) mc::violation(mc::cat(what, ": wrong dimension"), mc::cat(b.size(), " ", b.dim(), " ", got.size()));
    auto sorted = got;
    std::sort(sorted.begin(), sorted.end());
    std::sort(want.begin(), want.end());
    if (sorted != want) {
        std::vector<Q> miss, extra;
        std::set_difference(want.begin(), want.end(), sorted.begin(), sorted.end(), std::back_inserter(miss));
        std::set_difference(sorted.begin(), sorted.end(), want.begin(), want.end(), std::back_inserter(extra));
        if (!miss.empty()) mc::violation(mc::cat(what, ": a state inside the windows is missing"), mc::cat(miss[0].str(), " and ", miss.size() - 1, " more"));
        if (!extra.empty()) mc::violation(mc::cat(what, ": a state is outside the windows or listed twice"), mc::cat(extra[0].str(), " and ", extra.size() - 1, " more"));
    }
}
static void check_two(BasisnamesTwo const &b, std::vector<Q> const &f, std::vector<Q> const &s, Q a, Q c, const char *what, bool keep = false,
                      std::vector<size_t> const *which = nullptr) {
    ++mc::R().evaluations;
    std::vector<size_t> idx;
    if (which) idx = *which;
    else
        for (size_t i = 0; i < f.size() * s.size(); ++i) idx.push_back(i);
    if (b.size() != idx.size() || (!keep && b.dim() != idx.size())) mc::violation(mc::cat(what, ": wrong dimension"), mc::cat(b.size(), " instead of ", idx.size()));
    size_t k = 0;
    bool initial_in = false;
    for (auto st : b) {
        if (k >= idx.size()) break;
        Q x = q(st.first()), y = q(st.second()), wx = f[idx[k] / s.size()], wy = s[idx[k] % s.size()];
        if (!(x == wx) || !(y == wy)) {
            mc::violation(mc::cat(what, ": a pair is not the expected product"), mc::cat(x.str(), " ", y.str(), " instead of ", wx.str(), " ", wy.str()));
            break;
        }
        if (st.idx != (keep ? idx[k] : k)) mc::violation(mc::cat(what, ": a pair has a wrong index"), mc::cat(st.idx, " at ", k));
        if (x == a && y == c) {
            initial_in = true;
            if (b.initial().idx != st.idx) mc::violation(mc::cat(what, ": the initial pair has a wrong index"), mc::cat(b.initial().idx, " instead of ", st.idx));
        }
        ++k;
    }
    if (!which && !initial_in) mc::violation(mc::cat(what, ": the initial pair is missing"), "");
    if (!(q(b.initial().first()) == a) || !(q(b.initial().second()) == c)) mc::violation(mc::cat(what, ": the initial pair is another one"), "");
}
static std::vector<Q> listed(BasisnamesOne const &b) {
    std::vector<Q> v;
    for (auto s : b) v.push_back(q(s));
    return v;
}

int main() {
    mc::Scratch dir;
    auto st = all_states(mc::tier(4, 6));
    int wmax = mc::tier(3, 5);
    // --- one atom
    mc::parallel(static_cast<int>(st.size()), [&](int i) {
        auto &r = mc::R();
        for (int dn = 0; dn <= 2; ++dn)
            for (int dl = -1; dl <= wmax; ++dl)
                for (int dj = -1; dj <= wmax; ++dj)
                    for (int dm = -1; dm <= wmax + 1; ++dm) {
                        W w{dn, dl, dj, dm};
                        if (!mc::enter(mc::cat("one atom ", st[i].str(), " windows ", w.str()))) continue;
                        ++r.states;
                        ++r.transitions;
                        ++r.traces;
                        auto want = inside({st[i]}, w);
                        mc::outcome(mc::cat("1 ", i, " ", want.size(), " ", want[0].str(), want.back().str()));
                        Q other{st[i].n + 1, 0, 1, 1};
                        auto b = BasisnamesOne::fromFirst(conf(st[i], other, w));
                        check(b, want, "first atom");
                        if (b.initial().size() != 1 || !(q(b.initial()[0]) == st[i])) mc::violation("first atom: wrong initial state", "");
                        if (!b.constructedFromFirst()) mc::violation("first atom: not marked as such", "");
                        auto b2 = BasisnamesOne::fromSecond(conf(other, st[i], w));
                        check(b2, want, "second atom");
                        if (b2.initial().size() != 1 || !(q(b2.initial()[0]) == st[i])) mc::violation("second atom: wrong initial state", "");
                        if (b2.constructedFromFirst()) mc::violation("second atom: not marked as such", "");
                    }
    });
    // --- both atoms, one basis
    auto sb = all_states(3);
    int nb = static_cast<int>(sb.size());
    mc::parallel(nb * nb, [&](int k) {
        auto &r = mc::R();
        Q a = sb[k / nb], c = sb[k % nb];
        for (int dn = 0; dn <= 1; ++dn)
            for (int dl = -1; dl <= mc::tier(1, 2); ++dl)
                for (int dj = -1; dj <= mc::tier(1, 2); ++dj)
                    for (int dm = -1; dm <= mc::tier(2, 3); ++dm) {
                        W w{dn, dl, dj, dm};
                        if (!mc::enter(mc::cat("both atoms ", a.str(), " and ", c.str(), " windows ", w.str()))) continue;
                        ++r.states;
                        ++r.transitions;
                        ++r.traces;
                        auto want = inside({a, c}, w);
                        mc::outcome(mc::cat("2 ", k, " ", want.size()));
                        auto b = BasisnamesOne::fromBoth(conf(a, c, w));
                        check(b, want, "common basis");
                        std::set<Q> in;
                        for (auto &s : b.initial()) in.insert(q(s));
                        if (b.initial().size() != 2 || in != std::set<Q>{a, c}) mc::violation("common basis: wrong initial states", "");
                        if (want.size() <= 6) {
                            // product, its two one-atom bases
                            auto sh = std::make_shared<const BasisnamesOne>(b);
                            auto two = std::make_shared<const BasisnamesTwo>(sh);
                            auto l = listed(b);
                            Q x = std::min(a, c), y = std::max(a, c);
                            check_two(*two, l, l, x, y, "pair basis of a common basis");
                            check(BasisnamesOne::fromFirst(two), want, "first atom of a pair basis");
                            check(BasisnamesOne::fromSecond(two), want, "second atom of a pair basis");
                            r.transitions += 3;
                        }
                    }
    });
    // --- pairs of two bases, removal
    auto sp = all_states(2);
    int np = static_cast<int>(sp.size());
    mc::parallel(np * np, [&](int k) {
        auto &r = mc::R();
        Q a = sp[k / np], c = sp[k % np];
        for (int dn = 0; dn <= 1; ++dn)
            for (int dl = 0; dl <= 1; ++dl)
                for (int dm = -1; dm <= 1; ++dm) {
                    W w{dn, dl, dl, dm};
                    if (!mc::enter(mc::cat("pair ", a.str(), " and ", c.str(), " windows ", w.str()))) continue;
                    ++r.states;
                    ++r.transitions;
                    auto cf = conf(a, c, w, "Rb", "Cs");
                    auto b1 = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromFirst(cf));
                    auto b2 = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromSecond(cf));
                    auto l1 = listed(*b1), l2 = listed(*b2);
                    auto two = std::make_shared<BasisnamesTwo>(b1, b2);
                    check_two(*two, l1, l2, a, c, "pair basis");
                    if (two->getConf()["species1"].str() != "Rb" || two->getConf()["species2"].str() != "Cs") mc::violation("a pair basis has wrong species", "");
                    check(BasisnamesOne::fromFirst(std::shared_ptr<const BasisnamesTwo>(two)), l1, "first atom of a pair basis");
                    check(BasisnamesOne::fromSecond(std::shared_ptr<const BasisnamesTwo>(two)), l2, "second atom of a pair basis");
                    mc::outcome(mc::cat("3 ", k, " ", w.str()));
                    // the file written for the pair basis
                    if (k % 7 == 0) {
                        std::string f = mc::cat(dir / "b", getpid(), ".csv");
                        two->save(f);
                        std::ifstream in(f);
                        double v[9];
                        size_t i = 0;
                        while (in >> v[0] >> v[1] >> v[2] >> v[3] >> v[4] >> v[5] >> v[6] >> v[7] >> v[8]) {
                            auto const &s = two->get(i);
                            if (v[0] != i || v[1] != s.n[0] || v[2] != s.l[0] || v[3] != s.j[0] || v[4] != s.m[0] || v[5] != s.n[1] || v[6] != s.l[1] ||
                                v[7] != s.j[1] || v[8] != s.m[1])
                                mc::violation("the file of the pair basis lists another state", mc::cat("line ", i));
                            if (++i >= two->size()) break;
                        }
                        if (i != two->size()) mc::violation("the file of the pair basis has a wrong length", mc::cat(i));
                        auto o = *b1;
                        o.save(f);
                        std::ifstream in1(f);
                        i = 0;
                        while (in1 >> v[0] >> v[1] >> v[2] >> v[3] >> v[4]) {
                            auto const &s = o.get(i);
                            if (v[0] != i || v[1] != s.n || v[2] != s.l || v[3] != s.j || v[4] != s.m) mc::violation("the file of the basis lists another state", mc::cat("line ", i));
                            if (++i >= o.size()) break;
                        }
                        if (i != o.size()) mc::violation("the file of the basis has a wrong length", mc::cat(i));
                        unlink(f.c_str());
                    }
                    // all removals from the one-atom basis, one after another
                    if (l1.size() <= 6 && k % np == 0)
                        for (unsigned m1 = 0; m1 < (1u << l1.size()); ++m1) {
                            BasisnamesOne o = *b1;
                            std::vector<bool> need;
                            std::vector<Q> left;
                            for (size_t i = 0; i < l1.size(); ++i) {
                                need.push_back(m1 >> i & 1);
                                if (m1 >> i & 1) left.push_back(l1[i]);
                            }
                            o.removeUnnecessaryStates(need);
                            check(o, left, "after removing states");
                            if (listed(o) != left) mc::violation("removing states changes their order", "");
                            ++r.states;
                            ++r.transitions;
                            for (unsigned m2 = 0; m2 < (1u << left.size()); ++m2) {
                                BasisnamesOne p = o;
                                std::vector<bool> need2;
                                std::vector<Q> left2;
                                for (size_t i = 0; i < left.size(); ++i) {
                                    need2.push_back(m2 >> i & 1);
                                    if (m2 >> i & 1) left2.push_back(left[i]);
                                }
                                p.removeUnnecessaryStates(need2);
                                check(p, left2, "after removing states twice");
                                ++r.states;
                                ++r.transitions;
                                ++r.traces;
                            }
                        }
                    // all removals from the pair basis
                    size_t n = l1.size() * l2.size();
                    if (n <= 8)
                        for (unsigned m1 = 0; m1 < (1u << n); ++m1) {
                            std::vector<bool> need;
                            std::vector<size_t> left;
                            for (size_t i = 0; i < n; ++i) {
                                need.push_back(m1 >> i & 1);
                                if (m1 >> i & 1) left.push_back(i);
                            }
                            BasisnamesTwo o = *two, p = *two;
                            o.removeUnnecessaryStates(need);
                            check_two(o, l1, l2, a, c, "pair basis after removal", false, &left);
                            p.removeUnnecessaryStatesKeepIdx(need);
                            check_two(p, l1, l2, a, c, "pair basis after removal keeping indices", true, &left);
                            r.states += 2;
                            r.transitions += 2;
                            for (unsigned m2 = 0; m2 < (1u << n); m2 += (n > 6 ? 5 : 1)) {
                                std::vector<bool> need2;
                                std::vector<size_t> left2;
                                for (size_t i = 0; i < n; ++i) need2.push_back(m2 >> i & 1);
                                for (size_t i : left)
                                    if (need2[i]) left2.push_back(i);
                                BasisnamesTwo x = p, y = p;
                                x.removeUnnecessaryStatesKeepIdx(need2);
                                check_two(x, l1, l2, a, c, "pair basis after two removals keeping indices", true, &left2);
                                y.removeUnnecessaryStates(need2);
                                check_two(y, l1, l2, a, c, "pair basis after removal keeping indices and removal", false, &left2);
                                r.states += 2;
                                r.transitions += 2;
                                ++r.traces;
                            }
                        }
                }
    });
    // --- misuse is refused
    if (mc::enter("misuse")) {
        auto cf = conf({2, 0, 1, 1}, {2, 1, 1, 1}, {0, 0, 0, 0});
        auto one = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromFirst(cf));
        auto both = std::make_shared<const BasisnamesOne>(BasisnamesOne::fromBoth(cf));
        auto refused = [](std::function<void()> f) {
            try {
                f();
            } catch (std::exception &) {
                return true;
            }
            return false;
        };
        if (!refused([&] { BasisnamesTwo t(one); })) mc::violation("a pair basis is built from one atom's basis", "");
        if (!refused([&] { BasisnamesTwo t(both, both); })) mc::violation("a pair basis is built from two common bases", "");
        if (!refused([&] { BasisnamesTwo t(one, both); })) mc::violation("a pair basis is built from mixed bases", "");
        auto cf2 = conf({2, 0, 1, 1}, {2, 1, 1, 1}, {0, 0, 0, 0}, "Rb", "Cs");
        if (!refused([&] { BasisnamesOne::fromBoth(cf2); })) mc::violation("a common basis of different species is built", "");
    }
    return mc::finish();
}
