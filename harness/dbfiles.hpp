// Small user databases for quantum-defect lookups.
#ifndef VERIF_DBFILES_HPP
#define VERIF_DBFILES_HPP
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
struct RR {
    std::string el;
    int L;
    double J, d0, d2, d4, d6, d8, Ry;
};
struct MP {
    std::string el;
    int L;
    double ac;
    int Z;
    double a1, a2, a3, a4, rc;
};
struct Db {
    std::vector<RR> rr;
    std::vector<MP> mp;
};
inline std::string db_sql(Db const &d, bool tables_rr = true, bool tables_mp = true, bool drop = true) {
    std::ostringstream o;
    o.precision(17);
    o << "BEGIN TRANSACTION;\n";
    if (tables_mp) {
        if (drop) o << "DROP TABLE IF EXISTS model_potential;\n";
        o << "CREATE TABLE model_potential (element text,L int,ac real,Z int,a1 real,a2 real,a3 real,a4 real,rc real);\n";
        for (auto &m : d.mp)
            o << "INSERT INTO model_potential VALUES('" << m.el << "'," << m.L << "," << m.ac << "," << m.Z << ","
              << m.a1 << "," << m.a2 << "," << m.a3 << "," << m.a4 << "," << m.rc << ");\n";
    }
    if (tables_rr) {
        if (drop) o << "DROP TABLE IF EXISTS rydberg_ritz;\n";
        o << "CREATE TABLE rydberg_ritz (element text,L int,J real,d0 real,d2 real,d4 real,d6 real,d8 real,Ry real);\n";
        for (auto &r : d.rr)
            o << "INSERT INTO rydberg_ritz VALUES('" << r.el << "'," << r.L << "," << r.J << "," << r.d0 << "," << r.d2
              << "," << r.d4 << "," << r.d6 << "," << r.d8 << "," << r.Ry << ");\n";
    }
    o << "COMMIT;\n";
    return o.str();
}
// Database number i: species Rb (l=0..1+i) and, for odd i, a species Xa, with its own coefficients.
inline Db user_db(int i) {
    Db d;
    for (int l = 0; l <= 1 + i; ++l) {
        d.mp.push_back({"Rb", l, 9.0 + i + .125 * l, 37 + i, 1.25 + i, 2.5 + l, -3.75 + i, .0625 * (l + 1), 1.5 + .25 * i});
        for (int s = 0; s < (l ? 2 : 1); ++s)
            d.rr.push_back({"Rb", l, l ? l - .5 + s : .5, 2.0 + i + .1 * l + .01 * s, .25 * (i + 1), .5 - l * .125, 0, .03125 * s,
                            109736.5 + i});
    }
    if (i % 2) {
        d.mp.push_back({"Xa", 0, 1, 11, 2, 3, 4, 5, .5});
        d.rr.push_back({"Xa", 0, .5, .5, .25, 0, 0, 0, 109000});
    }
    return d;
}
inline void write_file(std::string const &p, std::string const &s) {
    std::ofstream f(p, std::ios::binary);
    f << s;
}
#endif
