// Configuration sections with symbolic values (see stubs/msgpack).  Include before humoto.h.
#pragma once
#include "vp.h"
#include <unistd.h>
#include <cstdio>
#include <map>
#include <string>
#include <vector>
#include "humoto/config_msgpack.h"
typedef humoto::config::msgpack::Reader CfgReader;
typedef humoto::config::msgpack::Writer CfgWriter;
// names of temporary files in the working directory, which the driver removes
static inline std::string cfgFile()
{
    static int n = 0;
    char b[64]; snprintf(b, 64, "vp_cfg_%d_%d", (int)getpid(), n++);
    return b;
}
// entries of a section: a number, an integer, a flag or a list of numbers
struct CfgEntry
{
    int kind; double f; long i; std::vector<double> v; std::string name;
};
struct CfgSection
{
    std::string name;
    std::vector<CfgEntry> e;
    explicit CfgSection(const std::string &n) : name(n) {}
    CfgSection &num(const std::string &n, double v) { CfgEntry x; x.kind = 0; x.f = v; x.i = 0; x.name = n; e.push_back(x); return *this; }
    CfgSection &integer(const std::string &n, long v) { CfgEntry x; x.kind = 1; x.f = 0; x.i = v; x.name = n; e.push_back(x); return *this; }
    CfgSection &flag(const std::string &n, bool v) { CfgEntry x; x.kind = 2; x.f = 0; x.i = v; x.name = n; e.push_back(x); return *this; }
    CfgSection &list(const std::string &n, const std::vector<double> &v) { CfgEntry x; x.kind = 3; x.f = 0; x.i = 0; x.v = v; x.name = n; e.push_back(x); return *this; }
    std::string write() const
    {
        std::string file = cfgFile();
        std::ofstream s(file.c_str());
        ::msgpack::packer<std::ofstream> p(s);
        p.pack_map(1);
        p.pack(name);
        p.pack_map(e.size());
        for (size_t k = 0; k < e.size(); ++k)
        {
            p.pack(e[k].name);
            switch (e[k].kind)
            {
                case 0: p.pack(e[k].f); break;
                case 1: p.pack(e[k].i); break;
                case 2: p.pack(e[k].i != 0); break;
                default:
                    p.pack_array(e[k].v.size());
                    for (size_t i = 0; i < e[k].v.size(); ++i) p.pack(e[k].v[i]);
            }
        }
        return file;
    }
};
