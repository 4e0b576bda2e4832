// Both configuration formats with stand-ins of the libraries (see stubs).  Include before humoto.h.
#pragma once
#include "vp.h"
#include <unistd.h>
#include <cstdio>
#include <fstream>
#include <limits>
#include <sstream>
#include <stack>
#include <string>
#include <vector>
#include "humoto/config_msgpack.h"
#include "humoto/config_yaml.h"
struct Msg { typedef humoto::config::msgpack::Reader R; typedef humoto::config::msgpack::Writer W; };
struct Yml { typedef humoto::config::yaml::Reader R; typedef humoto::config::yaml::Writer W; };
static inline std::string cfgFile()
{
    static int n = 0;
    char b[64]; snprintf(b, 64, "vp_cfg_%d_%d", (int)getpid(), n++);
    return b;
}
