// Replay: the harness API on concrete values read from a file (name=value lines).
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
static std::map<std::string, std::string> val;
static std::map<std::string, int> cnt;
static bool look(const char *name, std::string &out)
{
    int k = cnt[name]++;
    std::string n = k ? std::string(name) + "#" + std::to_string(k) : std::string(name);
    auto it = val.find(n);
    if (it == val.end()) return false;
    out = it->second;
    return true;
}
static void fail(const std::string &m) { printf("REPLAY-FAIL %s\n", m.c_str()); fflush(stdout); _exit(1); }
extern "C" {
double vp_real(const char *name, double lo, double hi) { std::string s; return look(name, s) ? atof(s.c_str()) : lo + 0.37 * (hi - lo); }
long vp_int(const char *name, long lo, long) { std::string s; return look(name, s) ? atol(s.c_str()) : lo; }
bool vp_bool(const char *name) { std::string s; return look(name, s) ? atol(s.c_str()) != 0 : false; }
long vp_choose(const char *name, long lo, long) { std::string s; return look(name, s) ? atol(s.c_str()) : lo; }
void vp_assume(bool c) { if (!c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _exit(3); } }
void vp_check(bool c, const char *msg) { if (!c) fail(msg); }
void vp_eq_tol(double a, double b, double tol, const char *msg)
{
    if (a == b) return;
    if (!(std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)))))
    {
        char t[128]; snprintf(t, 128, " (%.17g vs %.17g)", a, b);
        fail(std::string(msg) + t);
    }
}
void vp_reach(const char *) {}
void vp_fail(const char *msg) { fail(msg); }
void vp_stop(void) { printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
int vp_symbolic(void) { return 0; }
void vp_half_angles(void) {}
void vp_dump(double a, const char *msg) { fprintf(stderr, "%s = %.17g\n", msg, a); }
}
struct Reg { const char *name; void (*fn)(); };
static std::vector<Reg> &regs() { static std::vector<Reg> r; return r; }
extern "C" int vp_register(const char *name, void (*fn)()) { Reg r = {name, fn}; regs().push_back(r); return 0; }
int main(int argc, char **argv)
{
    if (argc < 3) { for (auto &r : regs()) printf("%s\n", r.name); return 0; }
    std::ifstream in(argv[2]);
    std::string l;
    while (std::getline(in, l)) { size_t e = l.find('='); if (e != std::string::npos && l[0] != '!') val[l.substr(0, e)] = l.substr(e + 1); }
    for (auto &r : regs())
        if (!strcmp(r.name, argv[1]))
        {
            try { r.fn(); }
            catch (std::exception &e) { fail(std::string("unexpected exception: ") + e.what()); }
            catch (...) { fail("unexpected exception"); }
            printf("REPLAY-OK\n");
            return 0;
        }
    return 4;
}
