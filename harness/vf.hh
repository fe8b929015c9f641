// Script reader and trace writer shared by the harnesses.
//
// A harness reads one action per line ("Name int int ..."), performs it on the real objects, and
// writes one line of JSON per action: {"e": name, "a": [args], "o": {observations}}.
// Numbers are written as integers, scaled: a value that is not an integer multiple of the scale
// (within 1e-6 of it) is written as a number that no specification produces (set VF_SHOW to see it).
#ifndef VF_HH
#define VF_HH
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

const long INEXACT = 1999999973, NOTANUMBER = 1999999979, PLUSINF = 1999999981, MINUSINF = 1999999983;

inline std::string num(double x, double perUnit = 1.0) {
    if (std::isnan(x)) return std::to_string(NOTANUMBER);
    if (std::isinf(x)) return std::to_string(x > 0 ? PLUSINF : MINUSINF);
    const double y = x * perUnit;
    const double r = std::floor(y + 0.5);
    if (std::fabs(y) < 1.9e9 && std::fabs(y - r) <= 1e-6) return std::to_string((long) r);
    if (getenv("VF_SHOW")) fprintf(stderr, "inexact %.12g\n", y);
    return std::to_string(INEXACT);
}
// Rounded to the nearest integer, for specifications that compare within a tolerance.
inline std::string near(double x, double perUnit) {
    char b[64];
    const double y = x * perUnit;
    if (!(std::fabs(y) < 2.0e9)) return std::isnan(y) ? "999999991" : "999999992";
    snprintf(b, sizeof b, "%ld", (long) std::floor(y + 0.5));
    return b;
}
inline std::string str(const std::string& s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        const char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char) c < 32 || (unsigned char) c > 126) o += '?';
        else o += c;
    }
    return o + "\"";
}

class Rec {
    std::string mS;
public:
    Rec& raw(const char* k, const std::string& v) {
        mS += (mS.empty() ? "\"" : ",\"") + std::string(k) + "\":" + v;
        return *this;
    }
    Rec& i(const char* k, long v)                       { return raw(k, std::to_string(v)); }
    Rec& b(const char* k, bool v)                       { return raw(k, v ? "true" : "false"); }
    Rec& n(const char* k, double v, double scale = 1.0) { return raw(k, num(v, scale)); }
    Rec& r(const char* k, double v, double scale)       { return raw(k, near(v, scale)); }
    Rec& s(const char* k, const std::string& v)         { return raw(k, str(v)); }
    std::string json() const                            { return "{" + mS + "}"; }
};
class Arr {
    std::string mS;
public:
    Arr& raw(const std::string& v) { mS += (mS.empty() ? "" : ",") + v; return *this; }
    Arr& i(long v)                       { return raw(std::to_string(v)); }
    Arr& b(bool v)                       { return raw(v ? "true" : "false"); }
    Arr& n(double v, double scale = 1.0) { return raw(num(v, scale)); }
    Arr& r(double v, double scale)       { return raw(near(v, scale)); }
    Arr& s(const std::string& v)         { return raw(str(v)); }
    std::string json() const             { return "[" + mS + "]"; }
};

struct Cmd {
    std::string       name;
    std::vector<long> a;
    long operator[](size_t i) const {
        if (i >= a.size()) { std::cerr << name << ": argument " << i << " missing\n"; exit(3); }
        return a[i];
    }
    size_t size() const { return a.size(); }
};

// `extra`, if any, is appended to the logged arguments: what the environment of the action answered.
template <class F> int run(F perform) {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::istringstream is(line);
        Cmd c;
        is >> c.name;
        std::string tok;
        while (is >> tok) c.a.push_back(atol(tok.c_str()));
        const std::string o = perform(c);
        std::string a;
        for (size_t i = 0; i < c.a.size(); ++i) a += (i ? "," : "") + std::to_string(c.a[i]);
        printf("{\"e\":\"%s\",\"a\":[%s],\"o\":%s}\n", c.name.c_str(), a.c_str(), o.c_str());
    }
    fflush(stdout);
    return 0;
}
inline void refuse(const Cmd& c) { std::cerr << "unknown action " << c.name << "\n"; exit(3); }
}
#endif
