// VP: stubs=threads
// C25: logging with a separate thread
#include "vp.h"
#include "humoto/humoto.h"
#include "logging_common.h"
// (processes which follow different schedules share open files: no files with schedules)
static void targets(int n, int count, bool may_be_file)
{
    // all messages are in the log when a logger is directed elsewhere or destroyed
    std::vector<std::vector<std::pair<std::string, double> > > x(n);
    std::vector<std::string> files(n);
    std::vector<std::stringstream> s(n);
    std::vector<int> file(n);
    for (int i = 0; i < n; ++i) { char b[32]; snprintf(b, 32, "file%d", i); file[i] = may_be_file ? vp_choose(b, 0, 1) : 0; }
    bool late = vp_choose("initialized_later", 0, 1);
    // the name of the file contains the number of the process: no other choices follow
    for (int i = 0; i < n; ++i) files[i] = logFile();
    int before = Sym::alive();
    {
        std::unique_ptr<humoto::Logger> l(late ? new humoto::Logger : file[0] ? new humoto::Logger(files[0]) : new humoto::Logger(s[0]));
        for (int i = 0; i < n; ++i)
        {
            if (i || late) { if (file[i]) l->initialize(files[i]); else l->initialize(s[i]); }
            if (i) expectSequence(file[i - 1] ? slurp(files[i - 1]) : s[i - 1].str(), x[i - 1]);
            messages(*l, i * count, (i + 1) * count, "m", x[i]);
        }
    }
    for (int i = 0; i < n; ++i) expectSequence(file[i] ? slurp(files[i]) : s[i].str(), x[i]);
    vp_check(Sym::alive() == before, "messages are released");
}
VP_HARNESS(single) { vpSched::plan(2, 45, 2); targets(1, 2, false); }
VP_HARNESS(several) { vpSched::plan(1, 100, 3); targets(vp_choose("targets", 2, 3), 2, false); }
VP_HARNESS(files) { targets(vp_choose("targets", 1, 3), 2, true); }
VP_HARNESS(single_thorough) { vpSched::plan(3, 50, 2); targets(1, 2, false); }
VP_HARNESS(several_thorough) { vpSched::plan(2, 60, 3); targets(2, 1, false); }
struct Producer
{
    humoto::Logger *l;
    const char *p;
    int n;
    std::vector<std::pair<std::string, double> > x;
    void run() { messages(*l, 0, n, p, x); }
};
static void producers(int n, int count)
{
    // messages of several threads: every message once, messages of one thread in order
    std::stringstream s;
    std::vector<Producer> p(n);
    static const char *P[3] = {"a", "b", "c"};
    {
        humoto::Logger l(s);
        for (int i = 0; i < n; ++i) { p[i].l = &l; p[i].p = P[i]; p[i].n = count; }
        std::vector<boost::thread> t;
        for (int i = 1; i < n; ++i) t.push_back(boost::thread(&Producer::run, &p[i]));
        p[0].run();
        for (int i = 1; i < n; ++i) t[i - 1].join();
    }
    std::vector<Entry> es;
    bool good = parse(s.str(), es);
    vp_check(good, "a log is a sequence of statements");
    vp_check((int)es.size() == n * count, "every message is written once");
    for (int i = 0; i < n; ++i)
    {
        std::vector<Entry> mine;
        for (size_t k = 0; k < es.size(); ++k) if (es[k].name[0] == P[i][0]) mine.push_back(es[k]);
        vp_check(mine.size() == p[i].x.size(), "every message is written once");
        for (size_t k = 0; k < mine.size() && k < p[i].x.size(); ++k)
        {
            vp_check(mine[k].name == p[i].x[k].first, "order of messages of a thread");
            vp_eq(mine[k].rows[0][0], p[i].x[k].second, "logged number");
        }
    }
}
VP_HARNESS(two_producers) { vpSched::plan(2, 45, 3); producers(2, 1); }
VP_HARNESS(two_producers_thorough) { vpSched::plan(3, 45, 3); producers(2, 2); }
VP_HARNESS(three_producers_thorough) { vpSched::plan(2, 60, 4); producers(3, 1); }
VP_HARNESS(failures)
{
    // a file which cannot be opened is reported, and the logger can be used afterwards
    std::stringstream s, u;
    std::vector<std::pair<std::string, double> > x, y;
    bool used = vp_choose("used", 0, 1);
    {
        humoto::Logger l;
        if (used) { l.initialize(s); messages(l, 0, 2, "a", x); }
        vp_check(throws([&] { l.initialize(std::string("vp_missing/directory/log")); }), "files which cannot be opened are reported");
        l.initialize(u);
        messages(l, 0, 2, "b", y);
    }
    expectSequence(s.str(), x);
    expectSequence(u.str(), y);
    vp_check(throws([&] { humoto::Logger l(std::string("vp_missing/directory/log")); }), "files which cannot be opened are reported");
}
