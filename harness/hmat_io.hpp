// Whole files.
#ifndef VERIF_HMAT_IO_HPP
#define VERIF_HMAT_IO_HPP
#include <cstdio>
#include <cstdlib>
#include <string>
inline std::string slurp(std::string const &f) {
    std::string s;
    FILE *p = fopen(f.c_str(), "rb");
    if (!p) return "<missing>";
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n);
    fclose(p);
    return s;
}
inline void spit(std::string const &f, std::string const &s) {
    FILE *p = fopen(f.c_str(), "wb");
    if (!p) abort();
    fwrite(s.data(), 1, s.size(), p);
    fclose(p);
}
#endif
