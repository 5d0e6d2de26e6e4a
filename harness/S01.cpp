// S01: all (pairs of, triples of) one-atom and pair states from small sets, against plain tuples.
#include "Constants.hpp"
#include "MatrixElementCache.hpp"
#include "State.hpp"
#include "StateOld.hpp"
#include "SystemBase.hpp"
#include "mc.hpp"
#include <algorithm>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <tuple>
#include <unordered_set>

using T1 = std::tuple<std::string, int, int, float, float>;
using T2 = std::pair<T1, T1>;
static std::string name(T1 const &t) {
    return std::get<1>(t) == 0 ? mc::cat("'", std::get<0>(t), "'")
                               : mc::cat(std::get<0>(t), ",", std::get<1>(t), ",", std::get<2>(t), ",", std::get<3>(t), ",", std::get<4>(t));
}
static std::string name(T2 const &t) { return name(t.first) + ";" + name(t.second); }
static bool art(T1 const &t) { return std::get<1>(t) == 0; }
static StateOne make(T1 const &t) {
    return art(t) ? StateOne(std::get<0>(t)) : StateOne(std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t));
}
static StateTwo make(T2 const &t, int how) {
    auto &a = t.first;
    auto &b = t.second;
    if (how == 0) return StateTwo(make(a), make(b));
    if (art(a) && art(b)) return StateTwo(std::array<std::string, 2>{{std::get<0>(a), std::get<0>(b)}});
    if (art(a) || art(b)) return StateTwo(make(a), make(b));
    return StateTwo({{std::get<0>(a), std::get<0>(b)}}, {{std::get<1>(a), std::get<1>(b)}}, {{std::get<2>(a), std::get<2>(b)}},
                    {{std::get<3>(a), std::get<3>(b)}}, {{std::get<4>(a), std::get<4>(b)}});
}
static StateOneOld makeold(T1 const &t) { return StateOneOld(std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t)); }
static StateTwoOld makeold(T2 const &t) { return StateTwoOld(makeold(t.first), makeold(t.second)); }

template <class S> static S stored(S const &s, int how) {
    std::stringstream ss;
    S r;
    if (how) {
        {
            cereal::JSONOutputArchive a(ss);
            a(cereal::make_nvp("s", s));
        }
        cereal::JSONInputArchive b(ss);
        b(cereal::make_nvp("s", r));
    } else {
        {
            cereal::BinaryOutputArchive a(ss);
            a(s);
        }
        cereal::BinaryInputArchive b(ss);
        b(r);
    }
    return r;
}
template <class F> static bool throws(F f) {
    try {
        f();
    } catch (std::exception &) {
        return true;
    }
    return false;
}
#define EXPECT(c, what)                                                                                                \
    do {                                                                                                               \
        mc::R().evaluations++;                                                                                         \
        if (!(c)) mc::violation(what);                                                                                 \
    } while (0)

static bool agrees(T1 const &a, T1 const &g) {
    return std::get<0>(a) == std::get<0>(g) && (std::get<1>(g) == ARB || std::get<1>(a) == std::get<1>(g)) &&
        (std::get<2>(g) == ARB || std::get<2>(a) == std::get<2>(g)) && (std::get<3>(g) == ARB || std::get<3>(a) == std::get<3>(g)) &&
        (std::get<4>(g) == ARB || std::get<4>(a) == std::get<4>(g));
}
static bool agrees(T2 const &a, T2 const &g) { return agrees(a.first, g.first) && agrees(a.second, g.second); }
static T1 nospecies(T1 t) {
    std::get<0>(t) = "";
    return t;
}
static T2 nospecies(T2 t) { return {nospecies(t.first), nospecies(t.second)}; }

static void getters(StateOne const &s, T1 const &t) {
    if (art(t)) {
        EXPECT(s.isArtificial() && !s.isGeneralized() && s.getLabel() == std::get<0>(t), "wrong label");
        EXPECT(throws([&] { s.getN(); }) && throws([&] { s.getM(); }) && throws([&] { s.getSpecies(); }) && throws([&] { s.getReflected(); }) &&
                   throws([&] { s.getEnergy(); }),
               "artificial state has quantum numbers");
        return;
    }
    auto sp = std::get<0>(t);
    EXPECT(s.getSpecies() == sp && s.getN() == std::get<1>(t) && s.getL() == std::get<2>(t) && s.getJ() == std::get<3>(t) && s.getM() == std::get<4>(t),
           "wrong quantum numbers");
    bool dig = isdigit(sp.back());
    EXPECT(s.getS() == (dig ? (sp.back() - '1') / 2.f : .5f) && s.getElement() == (dig ? sp.substr(0, sp.size() - 1) : sp), "wrong element or spin");
    EXPECT(!s.isArtificial() && throws([&] { s.getLabel(); }), "state has a label");
    EXPECT(s.isGeneralized() == (std::get<1>(t) == ARB || std::get<2>(t) == ARB || std::get<3>(t) == ARB || std::get<4>(t) == ARB), "wrongly generalised");
}
static void getters(StateTwo const &s, T2 const &t) {
    getters(s.getFirstState(), t.first);
    getters(s.getSecondState(), t.second);
    EXPECT(s.getFirstState() == make(t.first) && s.getSecondState() == make(t.second), "wrong one-atom states");
    for (int i = 0; i < 2; ++i) {
        auto &u = i ? t.second : t.first;
        EXPECT(s.isArtificial(i) == art(u) && s.isArtificial()[i] == art(u), "wrong kind");
        EXPECT(s.isGeneralized(i) == make(u).isGeneralized() && s.isGeneralized()[i] == make(u).isGeneralized(), "wrongly generalised");
        if (art(u)) {
            EXPECT(s.getLabel(i) == std::get<0>(u), "wrong label");
            continue;
        }
        EXPECT(s.getSpecies(i) == std::get<0>(u) && s.getN(i) == std::get<1>(u) && s.getL(i) == std::get<2>(u) && s.getJ(i) == std::get<3>(u) &&
                   s.getM(i) == std::get<4>(u) && s.getS(i) == make(u).getS() && s.getElement(i) == make(u).getElement(),
               "wrong quantum numbers");
        if (art(t.first) || art(t.second)) continue;
        EXPECT(s.getSpecies()[i] == std::get<0>(u) && s.getN()[i] == std::get<1>(u) && s.getL()[i] == std::get<2>(u) && s.getJ()[i] == std::get<3>(u) &&
                   s.getM()[i] == std::get<4>(u) && s.getS()[i] == make(u).getS() && s.getElement()[i] == make(u).getElement(),
               "wrong quantum numbers");
    }
    if (art(t.first) && art(t.second))
        EXPECT(s.getLabel()[0] == std::get<0>(t.first) && s.getLabel()[1] == std::get<0>(t.second), "wrong label");
}
static T1 mirrored(T1 t) {
    std::get<4>(t) = -std::get<4>(t);
    return t;
}
static T2 mirrored(T2 t) { return {mirrored(t.first), mirrored(t.second)}; }
static bool plain(T1 const &t) { return !art(t) && std::get<4>(t) != ARB; }
static bool plain(T2 const &t) { return plain(t.first) && plain(t.second); }
static bool anyart(T1 const &t) { return art(t); }
static bool anyart(T2 const &t) { return art(t.first) || art(t.second); }

// order and equality of S agree with those of the tuples (any strict total order is fine)
template <class S, class T> static void relations(std::string what, std::vector<S> const &s, std::vector<T> const &t, bool all = true) {
    size_t n = s.size();
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) p[i] = i;
    mc::enter("order of " + what);
    std::sort(p.begin(), p.end(), [&](size_t a, size_t b) { return s[a] < s[b]; });
    std::vector<size_t> cls(n);
    for (size_t k = 0; k < n; ++k) cls[p[k]] = k && t[p[k]] == t[p[k - 1]] ? cls[p[k - 1]] : k; // equal ones must be adjacent
    mc::parallel(n, [&](int ii) {
        size_t i = ii;
        for (size_t k = 0; k < n; ++k) {
            if (!mc::enter(mc::cat(what, " ", name(t[i]), " and ", name(t[k])))) continue;
            mc::R().states++;
            bool eq = t[i] == t[k];
            EXPECT((s[i] == s[k]) == eq, "wrong equality");
            EXPECT((s[i] != s[k]) == !eq, "wrong inequality");
            EXPECT(!eq || std::hash<S>{}(s[i]) == std::hash<S>{}(s[k]), "equal states with different hashes");
            EXPECT((s[i] < s[k]) == (cls[i] < cls[k]), "order is not a strict total order of distinct states");
        }
        mc::outcome(what + name(t[i]));
    });
    (void)all;
}

int main() {
    const float A = ARB;
    std::vector<T1> t1;
    std::vector<std::string> sps = mc::thorough() ? std::vector<std::string>{"Rb", "Cs", "Sr1", "Sr3", "H", "R"} : std::vector<std::string>{"Rb", "Sr3", "Sr1"};
    for (auto &sp : sps)
        for (int n : std::vector<int>{1, 2, 60, int(ARB)})
            for (int l : std::vector<int>{0, 1, 2, int(ARB)})
                for (float j : sp == "Sr1" || sp == "Sr3" ? std::vector<float>{0, 1, 2, A} : std::vector<float>{.5f, 1.5f, 2.5f, A})
                    for (float m : sp == "Sr1" || sp == "Sr3" ? std::vector<float>{-2, -1, -0.f, 0, 1, 2, A} : std::vector<float>{-1.5f, -.5f, .5f, 1.5f, A}) {
                        if (!mc::thorough() && sp != "Rb" && (l == 2 || n == 60) && j != 1) continue;
                        if (!mc::thorough() && (std::abs(m) > 1 && m != A && j != 2 && j != 1.5f)) continue;
                        t1.push_back({sp, n, l, j, m});
                    }
    for (std::string l : {"", "a", "b", "Rb", "Sr3", "|60S>", "\xc3\xa4 \"x\""}) t1.push_back({l, 0, 0, 0.f, 0.f});
    std::vector<StateOne> s1;
    for (auto &t : t1) s1.push_back(make(t));
    mc::info("one-atom states", (long long)s1.size());
    relations("states", s1, t1);

    // pair states: two small sets
    std::vector<T1> small;
    for (auto &t : t1) {
        bool g = std::get<1>(t) == ARB || std::get<2>(t) == ARB || std::get<3>(t) == ARB || std::get<4>(t) == ARB;
        int ng = (std::get<1>(t) == ARB) + (std::get<2>(t) == ARB) + (std::get<3>(t) == ARB) + (std::get<4>(t) == ARB);
        if (art(t)) {
            if (std::get<0>(t).size() < 3) small.push_back(t);
            continue;
        }
        if (std::get<1>(t) == 1 || (g && ng != 1 && ng != 4) || std::get<3>(t) == 2.5f || std::abs(std::get<4>(t)) == 2) continue;
        if (std::get<2>(t) == 1 && !g && std::get<1>(t) == 60) continue;
        if (std::get<2>(t) == 2) continue;
        small.push_back(t);
    }
    size_t keep = mc::tier(26, 60), step = std::max<size_t>(1, small.size() / keep);
    std::vector<T1> sm;
    for (size_t i = 0; i < small.size(); i += step) sm.push_back(small[i]);
    std::vector<T2> t2;
    for (auto &a : sm)
        for (auto &b : sm) t2.push_back({a, b});
    std::vector<StateTwo> s2, s2b;
    for (auto &t : t2) {
        s2.push_back(make(t, 0));
        s2b.push_back(make(t, 1));
    }
    mc::info("pair states", (long long)s2.size());
    relations("pair states", s2, t2);

    auto single = [&](auto const &s, auto const &t, auto const &other, std::string what) {
        using S = std::decay_t<decltype(s)>;
        if (!mc::enter(what + " " + name(t))) return;
        mc::R().states++;
        getters(s, t);
        EXPECT(s == other && s.getHash() == other.getHash() && std::hash<S>{}(s) == s.getHash(), "depends on the way of construction");
        if (plain(t)) {
            S r = s.getReflected();
            getters(r, mirrored(t));
            EXPECT(r.getReflected() == s && r.getReflected().getHash() == s.getHash(), "reflecting twice changes the state");
            EXPECT((r == s) == (mirrored(t) == t), "reflected state equals the state");
        }
        for (int how = 0; how < 2; ++how) {
            if (how && name(t).find('\xc3') != std::string::npos) continue;
            S q = stored(s, how);
            EXPECT(q == s && !(q != s) && !(q < s) && !(s < q) && q.getHash() == s.getHash(), "stored state differs");
            getters(q, t);
        }
        EXPECT(s.str().size() >= 2, "no text");
    };
    for (size_t i = 0; i < s1.size(); ++i) single(s1[i], t1[i], make(t1[i]), "state");
    mc::parallel(s2.size(), [&](int i) { single(s2[i], t2[i], s2b[i], "pair state"); });

    // containment
    auto contains = [&](auto const &s, auto const &t, std::string what) {
        mc::parallel(s.size(), [&](int i) {
            for (size_t k = 0; k < s.size(); ++k) {
                if (!mc::enter(mc::cat(what, " ", name(t[i]), " in ", name(t[k])))) continue;
                EXPECT((s[i] ^ s[k]) == agrees(t[i], t[k]), "wrong containment");
                EXPECT((s[i] <= s[k]) == (s[i] < s[k] || s[i] == s[k]), "<= is not < or ==");
            }
        });
    };
    contains(s1, t1, "containment of state");
    contains(s2, t2, "containment of pair state");

    // texts of different states differ (angular momenta beyond the letters too)
    {
        mc::enter("texts");
        std::map<std::string, size_t> seen;
        for (size_t i = 0; i < s1.size(); ++i) {
            auto it = seen.insert({s1[i].str(), i});
            if (!it.second && t1[it.first->second] != t1[i]) mc::violation("different states have the same text", it.first->first + " " + name(t1[i]) + " " + name(t1[it.first->second]));
        }
    }

    // sets and hash tables: all subsets (up to a size) of representative states inserted in two orders
    auto tables = [&](auto const &s, auto const &t, std::string what) {
        using S = typename std::decay_t<decltype(s)>::value_type;
        using T = typename std::decay_t<decltype(t)>::value_type;
        // everything at once
        if (mc::enter(what + " all in one table")) {
            std::set<S> a;
            std::unordered_set<S> b;
            typename states_set<S>::type c;
            std::set<T> ref;
            for (size_t i = 0; i < s.size(); i += 2) {
                bool fresh = ref.insert(t[i]).second;
                EXPECT(a.insert(s[i]).second == fresh && b.insert(s[i]).second == fresh && c.push_back(enumerated_state<S>(i, s[i])).second == fresh, "insertion");
            }
            for (size_t i = 0; i < s.size(); ++i) {
                bool in = ref.count(t[i]);
                auto it = c.template get<1>().find(s[i]);
                EXPECT((a.count(s[i]) == 1) == in && (b.count(s[i]) == 1) == in && (it != c.template get<1>().end()) == in, "wrong lookup");
                if (in) EXPECT(it->state == s[i], "wrong entry found");
            }
            for (size_t i = 0; i < s.size(); i += 4) {
                ref.erase(t[i]);
                a.erase(s[i]);
                b.erase(s[i]);
            }
            for (size_t i = 0; i < s.size(); ++i) EXPECT(a.count(s[i]) == ref.count(t[i]) && b.count(s[i]) == ref.count(t[i]), "wrong lookup after removal");
        }
        int n = std::min<size_t>(s.size(), mc::tier(24, 40));
        size_t st = s.size() / n;
        mc::parallel(n, [&](int i) {
            for (int k = 0; k < n; ++k)
                for (int l = 0; l < n; ++l) {
                    if (!mc::enter(mc::cat(what, " table {", name(t[i * st]), "}, {", name(t[k * st]), "}, {", name(t[l * st]), "}"))) continue;
                    std::set<S> a;
                    std::unordered_set<S> b;
                    std::set<T> ref;
                    for (int q : {i, k, l}) {
                        a.insert(s[q * st]);
                        b.insert(s[q * st]);
                        ref.insert(t[q * st]);
                    }
                    bool ok = a.size() == ref.size() && b.size() == ref.size();
                    for (int q = 0; q < n; ++q) ok = ok && a.count(s[q * st]) == ref.count(t[q * st]) && b.count(s[q * st]) == ref.count(t[q * st]);
                    EXPECT(ok, "wrong lookup");
                    mc::R().transitions += 3;
                }
        });
    };
    tables(s1, t1, "states");
    tables(s2, t2, "pair states");

    // the states of the older interface (species are not part of a state's identity there)
    {
        std::vector<StateOneOld> o1;
        std::vector<T1> ot1, on1;
        for (auto &t : t1)
            if (!art(t)) {
                o1.push_back(makeold(t));
                ot1.push_back(t);
                on1.push_back(nospecies(t));
            }
        std::vector<StateTwoOld> o2;
        std::vector<T2> ot2, on2;
        for (auto &t : t2)
            if (!anyart(t)) {
                o2.push_back(makeold(t));
                ot2.push_back(t);
                on2.push_back(nospecies(t));
            }
        relations("old states", o1, on1);
        relations("old pair states", o2, on2);
        for (size_t i = 0; i < o2.size(); ++i) {
            if (!mc::enter("old pair state " + name(ot2[i]))) continue;
            auto &s = o2[i];
            auto &t = ot2[i];
            EXPECT(s.first() == makeold(t.first) && s.second() == makeold(t.second) && s.getFirstState() == makeold(t.first) && s.getSecondState() == makeold(t.second) &&
                       s.first().species == std::get<0>(t.first) && s.second().species == std::get<0>(t.second) && s.getFirstState().element == makeold(t.first).element,
                   "wrong one-atom states");
            StateTwoOld o = s.order();
            bool keep = o == s && o.species == s.species, swap = o == makeold(T2{t.second, t.first}) && o.species == makeold(T2{t.second, t.first}).species;
            EXPECT((keep || swap) && !(o.second() < o.first()), "wrong order()");
            StateTwoOld u(makeold(t.second), makeold(t.first));
            u.setFirstState(makeold(t.first));
            EXPECT(u.first() == makeold(t.first) && u.second() == makeold(t.first) && u.species[0] == std::get<0>(t.first), "setting the first state");
            u.setSecondState(makeold(t.second));
            EXPECT(u == s && u.species == s.species, "setting the second state");
            for (int how = 0; how < 2; ++how) {
                StateTwoOld q = stored(s, how);
                EXPECT(q == s && q.species == s.species && q.element == s.element && q.s == s.s, "stored state differs");
            }
        }
        mc::parallel(o2.size(), [&](int i) {
            for (size_t k = 0; k < o2.size(); ++k) {
                if (!mc::enter(mc::cat("containment of old pair state ", name(ot2[i]), " in ", name(ot2[k])))) continue;
                EXPECT((o2[i] ^ o2[k]) == agrees(on2[i], on2[k]), "wrong containment");
            }
        });
    }
    return mc::finish();
}
