// Logged symbolic values and an interpreter of the log.
#pragma once
#include <Eigen/Core>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
// a number which is written as a token
struct Sym
{
    double v;
    static int &alive() { static int n = 0; return n; }
    static std::vector<double> &values() { static std::vector<double> x; return x; }
    Sym() : v(0) { ++alive(); }
    Sym(double x) : v(x) { ++alive(); }
    Sym(const Sym &o) : v(o.v) { ++alive(); }
    Sym &operator=(const Sym &o) { v = o.v; return *this; }
    ~Sym() { --alive(); v = -77; }
};
static inline std::ostream &operator<<(std::ostream &o, const Sym &s) { Sym::values().push_back(s.v); return o << "#" << Sym::values().size() - 1 << "#"; }
namespace Eigen { template <> struct NumTraits<Sym> : GenericNumTraits<Sym> { typedef Sym Real; typedef Sym NonInteger; typedef Sym Nested; enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 1, MulCost = 1 }; static int digits10() { return 15; } }; }
// statements of Octave: name = value;
struct Entry { std::string name, text; std::vector<std::vector<double> > rows; bool matrix, string; Entry() : matrix(false), string(false) {} };
static inline bool number(const std::string &t, double &v)
{
    size_t a = t.find_first_not_of(" \t\n"), b = t.find_last_not_of(" \t\n");
    if (a == std::string::npos) return false;
    std::string s = t.substr(a, b - a + 1);
    if (s[0] == '#')
    {
        if (s.size() < 3 || s[s.size() - 1] != '#') return false;
        size_t k = strtoul(s.c_str() + 1, 0, 10);
        if (k >= Sym::values().size() || s.find('#', 1) != s.size() - 1) return false;
        v = Sym::values()[k];
        return true;
    }
    char *e;
    v = strtod(s.c_str(), &e);
    return !*e;
}
static inline bool trim(std::string &s) { size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n"); s = a == std::string::npos ? "" : s.substr(a, b - a + 1); return !s.empty(); }
// false if the text is not a sequence of statements
static inline bool parse(const std::string &text, std::vector<Entry> &out)
{
    size_t i = 0;
    while (i < text.size())
    {
        if (isspace((unsigned char)text[i])) { ++i; continue; }
        Entry e;
        size_t q = text.find('=', i);
        if (q == std::string::npos) return false;
        e.name = text.substr(i, q - i);
        if (!trim(e.name) || e.name.find_first_of(" \n#;[]'") != std::string::npos) return false;
        i = q + 1;
        // continuation of lines
        for (;;)
        {
            while (i < text.size() && (text[i] == ' ' || text[i] == '\t')) ++i;
            if (text.compare(i, 4, "...\n") == 0) i += 4; else break;
        }
        if (i < text.size() && text[i] == '\'')
        {
            size_t c = text.find('\'', i + 1);
            if (c == std::string::npos) return false;
            e.string = true; e.text = text.substr(i + 1, c - i - 1);
            i = c + 1;
        }
        else if (i < text.size() && text[i] == '[')
        {
            size_t c = text.find(']', i);
            if (c == std::string::npos) return false;
            e.matrix = true;
            std::string b = text.substr(i + 1, c - i - 1);
            i = c + 1;
            // rows are separated with semicolons, columns with commas
            if (b.find_first_not_of(" \t\n") != std::string::npos)
            {
                std::stringstream s(b);
                std::string r;
                while (std::getline(s, r, ';'))
                {
                    std::vector<double> row;
                    std::stringstream t(r);
                    std::string x;
                    double v;
                    while (std::getline(t, x, ',')) { if (!number(x, v)) return false; row.push_back(v); }
                    e.rows.push_back(row);
                }
            }
        }
        else
        {
            size_t c = text.find(';', i);
            double v;
            if (c == std::string::npos || !number(text.substr(i, c - i), v)) return false;
            e.rows.push_back(std::vector<double>(1, v));
            i = c;
        }
        if (i >= text.size() || text[i] != ';') return false;
        ++i;
        size_t n = text.find('\n', i);
        if (n == std::string::npos || text.find_first_not_of(" \t", i) != n) return false;
        i = n + 1;
        out.push_back(e);
    }
    return true;
}
static inline std::string slurp(const std::string &f) { std::ifstream i(f.c_str()); std::stringstream s; s << i.rdbuf(); return s.str(); }
static inline std::string logFile() { static int n = 0; char b[64]; snprintf(b, 64, "vp_log_%d_%d", (int)getpid(), n++); return b; }
