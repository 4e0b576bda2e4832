// VP: define=VP_NO_LOGGING_THREADS
// C25: logging without threads
#include "vp.h"
#include "humoto/humoto.h"
#include "logging_common.h"
VP_HARNESS(targets)
{
    // a logger is directed to streams and files, again and again
    int n = vp_choose("targets", 1, 3);
    std::vector<std::vector<std::pair<std::string, double> > > x(n);
    std::vector<std::string> files(n);
    std::vector<std::stringstream> s(n);
    std::vector<int> file(n);
    bool broken = vp_choose("broken", 0, 1);
    for (int i = 0; i < n; ++i) { char b[32]; snprintf(b, 32, "file%d", i); file[i] = vp_choose(b, 0, 1); }
    // the name of the file contains the number of the process: no other choices follow
    for (int i = 0; i < n; ++i) files[i] = logFile();
    {
        humoto::Logger l;
        for (int i = 0; i < n; ++i)
        {
            if (broken && i == n - 1) vp_check(throws([&] { l.initialize(std::string("vp_missing/directory/log")); }), "files which cannot be opened are reported");
            if (file[i]) l.initialize(files[i]); else l.initialize(s[i]);
            messages(l, 2 * i, 2 * i + 2, "m", x[i]);
            expectSequence(file[i] ? slurp(files[i]) : s[i].str(), x[i]);
        }
    }
    for (int i = 0; i < n; ++i) expectSequence(file[i] ? slurp(files[i]) : s[i].str(), x[i]);
}
