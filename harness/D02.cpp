// D02: all operation sequences on two configurations up to a depth against plain maps, with a JSON
// round trip in every reached state; round trip and comparison of boundary values; all small key sets.
#include "ConfParser.hpp"
#include "mc.hpp"
#include <limits>
#include <fstream>

using M = std::map<std::string, std::string>;
static std::string g_file;

static M dumpc(Configuration const &c) {
    M m;
    for (auto const &p : c) m[p.first] = p.second.str();
    return m;
}
static std::string show(M const &m) {
    std::string s = "{";
    for (auto &p : m) s += p.first + "=" + p.second + ", ";
    return s + "}";
}
static void json_roundtrip(Configuration const &c, M const &m) {
    try {
        c.save_to_json(g_file);
        Configuration d;
        d.load_from_json(g_file);
        if (dumpc(d) != m) mc::violation("a JSON file does not restore the configuration", mc::cat(show(dumpc(d)), " instead of ", show(m)));
        else if (!(d == c)) mc::violation("the configuration restored from a JSON file compares unequal", show(m));
        if (dumpc(c) != m) mc::violation("saving changes a configuration", show(m));
    } catch (std::exception &e) {
        mc::violation("a JSON round trip fails", mc::cat(e.what(), " for ", show(m)));
    }
}
template <class T>
static bool rt(T v, T &back) {
    Configuration c;
    c["k"] << v;
    c["k"] >> back;
    T b2{};
    Configuration const &cc = c;
    cc["k"] >> b2;
    Configuration d;
    d += c;
    T b3{};
    d["k"] >> b3;
    return back == v && b2 == v && b3 == v;
}
template <class T>
static void number(T v, const char *ty) {
    auto &r = mc::R();
    ++r.states;
    ++r.transitions;
    ++r.evaluations;
    ++r.traces;
    T back{};
    try {
        if (!rt(v, back)) mc::violation(mc::cat(ty, " is read back changed"), mc::cat(back, " instead of ", v));
    } catch (std::exception &e) {
        mc::violation(mc::cat(ty, " cannot be read back"), mc::cat(v, ": ", e.what()));
    }
    mc::outcome(mc::cat(ty, v));
}

struct St {
    Configuration x, y;
    M mx, my;
};
int main() {
    mc::Scratch dir;
    g_file = dir / "c.json";
    std::vector<std::string> keys = {"a", "b.c", ""};
    using F = std::function<void(St &)>;
    std::vector<std::pair<std::string, F>> ops;
    struct V {
        std::string name, text;
        std::function<void(Configuration &, std::string const &)> put;
    };
    std::vector<V> vals = {
        {"7", "7", [](Configuration &c, std::string const &k) { c[k] << 7; }},
        {"'7.0'", "7.0", [](Configuration &c, std::string const &k) { c[k] << std::string("7.0"); }},
        {"'x\"\\/'", "x\"\\/\n\t", [](Configuration &c, std::string const &k) { c[k] << "x\"\\/\n\t"; }},
        {"''", "", [](Configuration &c, std::string const &k) { c[k] << std::string(); }},
    };
    for (int w = 0; w < 2; ++w)
        for (auto &k : keys)
            for (auto &v : vals)
                ops.push_back({mc::cat(w ? "Y" : "X", "[", k, "]<<", v.name), [w, k, v](St &s) {
                                   v.put(w ? s.y : s.x, k);
                                   (w ? s.my : s.mx)[k] = v.text;
                               }});
    ops.push_back({"X+=Y", [](St &s) {
                       s.x += s.y;
                       for (auto &p : s.my) s.mx[p.first] = p.second;
                   }});
    ops.push_back({"Y+=X", [](St &s) {
                       s.y += s.x;
                       for (auto &p : s.mx) s.my[p.first] = p.second;
                   }});
    ops.push_back({"X+=X", [](St &s) { s.x += s.x; }});
    ops.push_back({"X[a]<<X[b.c]", [](St &s) {
                       s.x["a"] << s.x["b.c"];
                       s.mx["a"] = s.mx["b.c"];
                   }});
    ops.push_back({"X[a]=Y[a]", [](St &s) {
                       s.x["a"] = s.y["a"];
                       s.mx["a"] = s.my["a"];
                   }});
    ops.push_back({"X[b.c]>>X[]", [](St &s) {
                       s.x["b.c"] >> s.x[""];
                       s.mx[""] = s.mx["b.c"];
                   }});
    ops.push_back({"touch X[b.c]", [](St &s) {
                       s.x["b.c"];
                       s.mx["b.c"];
                   }});
    ops.push_back({"X=Y", [](St &s) {
                       s.x = s.y;
                       s.mx = s.my;
                   }});
    ops.push_back({"X:load(save(Y))", [](St &s) {
                       s.y.save_to_json(g_file);
                       s.x.load_from_json(g_file);
                       for (auto &p : s.my) s.mx[p.first] = p.second;
                   }});
    int depth = mc::tier(3, 4), n = ops.size();
    mc::info("sequence_depth", depth);
    mc::info("operations", n);
    auto check = [&](St &s) {
        if (dumpc(s.x) != s.mx || dumpc(s.y) != s.my)
            mc::violation("wrong content", mc::cat(show(dumpc(s.x)), show(dumpc(s.y)), " instead of ", show(s.mx), show(s.my)));
        if ((s.x == s.y) != (s.mx == s.my) || (s.y == s.x) != (s.mx == s.my)) mc::violation("wrong comparison", mc::cat(show(s.mx), show(s.my)));
        if (s.x.size() != s.mx.size()) mc::violation("wrong size", "");
        Configuration const &cx = s.x;
        for (std::string k : {"a", "b.c", "", "zz"}) {
            if (s.x.count(k) != s.mx.count(k)) mc::violation("wrong count", k);
            if ((cx.find(k) != cx.end()) != (s.mx.count(k) == 1)) mc::violation("wrong find", k);
            bool threw = false;
            std::string got;
            try {
                cx[k] >> got;
            } catch (std::out_of_range &) {
                threw = true;
            }
            if (threw != !s.mx.count(k) || (!threw && got != s.mx[k])) mc::violation("wrong element access", k);
        }
        ++mc::R().evaluations;
        mc::outcome(show(s.mx) + show(s.my));
    };
    mc::parallel(n * n, [&](int job) {
        g_file = dir / mc::cat("c", getpid(), ".json");
        std::function<void(St const &, std::string const &, int)> rec;
        auto go = [&](St const &s0, std::string const &lab, int o, int left) {
            std::string l = lab + ops[o].first + " ; ";
            if (mc::R().has_only && mc::R().only.compare(0, l.size(), l) != 0) return;
            mc::R().label = l;
            if (mc::R().cur) snprintf(mc::R().cur, 8000, "%s", l.c_str());
            St s = s0;
            try {
                ops[o].second(s);
            } catch (std::exception &e) {
                mc::violation("an operation fails", e.what());
                return;
            }
            ++mc::R().states;
            ++mc::R().transitions;
            check(s);
            json_roundtrip(s.x, s.mx);
            if (left == 0) ++mc::R().traces;
            else if (mc::R().violations.empty()) rec(s, l, left);
        };
        rec = [&](St const &s, std::string const &lab, int left) {
            for (int o = 0; o < n; ++o) go(s, lab, o, left - 1);
        };
        St s;
        int a = job / n, b = job % n;
        ops[a].second(s);
        std::string l = ops[a].first + " ; ";
        if (mc::R().has_only && mc::R().only.compare(0, l.size(), l) != 0) return;
        if (b == 0) {
            mc::R().label = l;
            check(s);
            json_roundtrip(s.x, s.mx);
        }
        go(s, l, b, depth - 2);
    });
    mc::sample("X[b.c]<<7 ; X:load(save(Y)) ; Y+=X");

    // numbers
    if (mc::enter("int")) {
        for (int e = 0; e < 31; ++e)
            for (int d = -1; d <= 1; ++d)
                for (int sg : {-1, 1}) number<int>(sg * ((1 << e) + d), "int");
        number<int>(std::numeric_limits<int>::max(), "int");
        number<int>(std::numeric_limits<int>::min(), "int");
    }
    if (mc::enter("size_t"))
        for (int e = 0; e < 64; ++e)
            for (int d = -1; d <= 1; ++d) number<size_t>((size_t(1) << e) + d, "size_t");
    std::vector<double> mant = {1, 1.5, 1.1, 1.2345678, 1.23456789012345678, 1.9999999999999998, 1.0000000000000002, 4. / 3, 1.99999};
    for (int e = -1021; e <= 1023; e += (std::abs(e) < 70 ? 1 : 41)) {
        if (!mc::enter(mc::cat("double exponent ", e))) continue;
        for (double m : mant) {
            double v = std::ldexp(m, e);
            number<double>(v, "double");
            number<double>(-v, "double");
            // neighbours are never mistaken for each other
            for (double w : {std::nextafter(v, INFINITY), v * (1 + 1e-9), v * (1 + 1e-12)}) {
                if (w == v || std::isinf(w)) continue;
                Configuration a, b, c;
                a["Ex"] << v;
                b["Ex"] << w;
                c["Ex"] << v;
                ++mc::R().evaluations;
                if (a == b) mc::violation("different numbers compare equal", mc::cat(v, " and ", w));
                if (!(a == c)) mc::violation("equal numbers compare different", mc::cat(v));
            }
            if (e > -125 && e < 127) {
                float f = static_cast<float>(v);
                number<float>(f, "float");
                float g = std::nextafter(f, INFINITY);
                Configuration a, b;
                a["Ex"] << f;
                b["Ex"] << g;
                if (a == b) mc::violation("different float numbers compare equal", mc::cat(f, " and ", g));
            }
        }
    }
    if (mc::enter("zero and decimal numbers")) {
        for (double v : {0., -0., 1e-4, 1e5, 1e6, 123456., 1234567., 0.1, 0.2, 0.3, 1e15, 1e16, 1e17, 299792.458, 3.14159265358979}) number<double>(v, "double");
        for (int i = 1; i < 1000; ++i) number<double>(i * .001, "double");
    }
    // key sets and values
    std::vector<std::string> ks = {"", "a", "b", "a.b", "a.b.c", "a.", ".a", ".", "..", "/", "a/b", "\"", "\\", "a b", "0", "1", "\xc3\xa4",
                                   "\xe2\x82\xac", "\t", "\n", "{", "}", "[]", ":", ",", "'", "null", "true"};
    for (int c = 1; c < 127; ++c) ks.push_back(std::string("k") + static_cast<char>(c));
    std::vector<std::string> vs = {"", "v", "1.50", "\"q\"", "back\\slash", "line\nbreak", "a.b", "\xc3\xa4", "true", "null", "[1,2]", "{}", "/", " ", "\x01", "\x1f", "\x7f"};
    for (size_t i = 0; i < ks.size(); ++i)
        for (size_t k = 0; k <= (i < 28 ? 28 : 0); ++k)
            for (size_t v = 0; v < vs.size(); ++v) {
                if (k > 0 && (v % 5 || k - 1 == i)) continue;
                if (!mc::enter(mc::cat("keys ", i, ",", static_cast<int>(k) - 1, " value ", v))) continue;
                Configuration c;
                M m;
                c[ks[i]] << vs[v];
                m[ks[i]] = vs[v];
                if (k > 0) {
                    c[ks[k - 1]] << "other";
                    m[ks[k - 1]] = "other";
                }
                json_roundtrip(c, m);
                ++mc::R().states;
                ++mc::R().transitions;
                ++mc::R().traces;
                ++mc::R().evaluations;
                mc::outcome(show(m));
            }
    if (mc::enter("empty configuration")) json_roundtrip(Configuration(), M());
    return mc::finish();
}
