#include "common.h"
#include "humoto/walking.h"
using namespace humoto::walking;
typedef StanceType ST;
typedef StanceSubType SS;
struct Params : public StanceFSMParameters
{
    Params(int first, int ss, int n, bool symbolic = true)
    {
        first_stance_ = (ST::Type)first;
        first_ss_type_ = (ST::Type)ss;
        num_steps_ = n;
        ss_duration_ms_ = symbolic ? vp_int("ss", 100, 1000) : 700;
        tds_duration_ms_ = symbolic ? vp_int("tds", 100, 1000) : 100;
        first_stance_duration_ms_ = symbolic ? vp_int("first", 100, 1000) : 300;
        last_stance_duration_ms_ = symbolic ? vp_int("last", 100, 1000) : 2900;
    }
};
// the first k stances written out
struct Item { int type, sub, nonds, nontds, left; bool tds; long duration; };
static std::vector<Item> reference(const Params &p, int k)
{
    std::vector<Item> r;
    Item i;
    bool none = p.first_stance_ == ST::DS && p.first_ss_type_ == ST::UNDEFINED;
    int n = none ? 0 : p.num_steps_;
    int other[5] = {ST::UNDEFINED, 0, ST::RSS, ST::LSS, 0};
    i.type = p.first_stance_; i.sub = SS::FIRST; i.duration = p.first_stance_duration_ms_; i.left = n; i.tds = false; i.nontds = ST::UNDEFINED;
    int foot = p.first_stance_ == ST::DS ? other[p.first_ss_type_] : p.first_stance_;   // the last supporting foot
    i.nonds = foot;
    r.push_back(i);
    if (p.first_stance_ != ST::DS || n > 0)
    {
        int last = p.first_stance_;
        for (;;)
        {
            i.nonds = foot; i.nontds = last;
            i.type = ST::TDS; i.sub = SS::INTERMEDIATE; i.duration = p.tds_duration_ms_; i.tds = true; i.left = n;
            r.push_back(i);
            i.tds = false;
            if (n == 0) break;
            --n;
            foot = other[foot];
            i.left = n; i.type = foot; i.duration = p.ss_duration_ms_;
            last = foot;
            r.push_back(i);
        }
        i.type = ST::DS; i.sub = SS::LAST; i.duration = p.last_stance_duration_ms_;
        r.push_back(i);
    }
    while ((int)r.size() < k) { i.type = ST::DS; i.sub = -1; i.duration = p.last_stance_duration_ms_; i.nontds = ST::DS; i.tds = false; i.nonds = foot; i.left = 0; r.push_back(i); }
    return r;
}
static void same(const Stance &s, const Item &i)
{
    vp_check(s.type_ == i.type, "sequence of stances");
    vp_check((long)s.duration_ms_ == i.duration, "durations of stances");
    if (i.sub >= 0) vp_check(s.subtype_ == i.sub, "first, intermediate and last stances");
    vp_check(s.previous_nonds_stance_type_ == i.nonds, "the last single support");
    vp_check(s.previous_nontds_stance_type_ == i.nontds, "the last stance which is not transitional");
}
static void same2(const Stance &s, const Item &i)
{
    vp_check(s.type_ == i.type, "sequence of previewed stances");
    if (i.sub >= 0) vp_check(s.subtype_ == i.sub, "first, intermediate and last previewed stances");
    vp_check(s.previous_nonds_stance_type_ == i.nonds && s.previous_nontds_stance_type_ == i.nontds, "history of previewed stances");
}
static const int FIRST[3] = {ST::DS, ST::LSS, ST::RSS};
VP_HARNESS(sequence)
{
    int f = FIRST[vp_choose("first_stance", 0, 2)], ss = vp_choose("first_ss", 0, 2), n = vp_choose("steps", 0, 5);
    if (n == 1) vp_stop();
    static const int SSS[3] = {ST::RSS, ST::LSS, ST::UNDEFINED};
    Params p(f, SSS[ss], n);
    StanceFiniteStateMachine fsm(p), other;
    if (vp_choose("constructor", 0, 1)) { other.shiftStance(); other.shiftStance(); other.setParameters(p); fsm = other; }
    std::vector<Item> r = reference(p, 2 * n + 6);
    for (size_t k = 0; k < r.size(); ++k)
    {
        same(fsm.current_stance_, r[k]);
        vp_check(fsm.current_time_ms_ == 0 && (int)fsm.ss_states_to_termination_ == r[k].left, "remaining steps");
        if (r[k].type == ST::TDS || r[k].type == ST::LSS || r[k].type == ST::RSS) vp_check(fsm.is_tds_started_ == r[k].tds, "start of a transitional stance");
        if (k + 1 < r.size())
        {
            same(fsm.getNextStance(), r[k + 1]);
            same(fsm.current_stance_, r[k]);
        }
        fsm.shiftStance();
    }
}
// moves of the reference: time t since the beginning
static void position(const std::vector<Item> &r, long t, size_t &k, long &rest)
{
    for (k = 0; k + 1 < r.size() && t >= r[k].duration; ++k) t -= r[k].duration;
    rest = t;
}
static void at(const StanceFiniteStateMachine &fsm, const std::vector<Item> &r, long t)
{
    size_t k; long rest;
    position(r, t, k, rest);
    same(fsm.current_stance_, r[k]);
    vp_check((long)fsm.current_time_ms_ == rest, "time since the beginning of a stance");
    vp_check((int)fsm.ss_states_to_termination_ == r[k].left, "remaining steps");
}
VP_HARNESS(time)
{
    int f = FIRST[vp_choose("first_stance", 0, 2)], n = vp_choose("steps", 0, 3);
    if (n == 1) vp_stop();
    Params p(f, ST::LSS, n);
    long a = vp_int("a", 0, 400), b = vp_int("b", 0, 300);
    std::vector<Item> r = reference(p, 12);
    StanceFiniteStateMachine fsm(p), one(p);
    fsm.shiftTime(a);
    at(fsm, r, a);
    fsm.shiftTime(b);
    at(fsm, r, a + b);
    one.shiftTime(a + b);
    at(one, r, a + b);
}
VP_HARNESS(tds_flag)
{
    // the beginning of a transitional stance is reported by the shift which reaches it, and only by it
    int f = FIRST[vp_choose("first_stance", 0, 2)];
    Params p(f, ST::RSS, 2);
    long a = vp_int("a", 1, 100), total = 0;
    StanceFiniteStateMachine fsm(p);
    std::vector<Item> r = reference(p, 12);
    size_t was = 0;
    for (int i = 0; i < 4; ++i)
    {
        fsm.shiftTime(a);
        total += a;
        size_t k; long rest;
        position(r, total, k, rest);
        if (r[k].type == ST::TDS) vp_check(fsm.is_tds_started_ == (k != was && rest == 0), "start of a transitional stance");
        else if (r[k].type != ST::DS) vp_check(!fsm.is_tds_started_, "start of a transitional stance");
        was = k;
    }
}
static void preview(int f, int n, long shift, long d)
{
    Params p(f, ST::LSS, n);
    std::vector<Item> r = reference(p, 14);
    StanceFiniteStateMachine fsm(p);
    fsm.shiftTime(shift);
    std::vector<Stance> s = fsm.previewStances(d);
    at(fsm, r, shift);
    size_t k; long rest;
    position(r, shift, k, rest);
    long left = d;
    size_t i = 0;
    // the preview ends with the first double support which is not followed by anything
    for (; left > 0; ++i, ++k)
    {
        long remaining = r[k].duration - rest;
        bool final = r[k].type == ST::DS && r[k].left == 0;
        if (final && left > remaining) { vp_check(s.empty(), "no preview beyond the end of the motion"); return; }
        if (s.empty() && !r[r.size() - 1].left)
        {
            // nothing is returned when the motion ends before the requested time
            long end = 0;
            for (size_t j = 0; j < r.size(); ++j) { end += r[j].duration; if (r[j].type == ST::DS && r[j].left == 0) break; }
            if (shift < end) { vp_check(shift + d > end, "the preview covers the requested time"); return; }
        }
        vp_check(i < s.size(), "the preview covers the requested time");
        if (i >= s.size()) return;
        same2(s[i], r[k]);
        long e = left < remaining ? left : remaining;
        vp_check((long)s[i].duration_ms_ == e, "previewed durations");
        vp_check((long)s[i].total_duration_ms_ == r[k].duration, "total durations of previewed stances");
        left -= e;
        rest = 0;
    }
    if (i && r[k - 1].type == ST::TDS)
    {
        vp_check(i < s.size(), "a transitional stance is followed by another stance");
        if (i >= s.size()) return;
        same2(s[i], r[k]);
        vp_check(s[i].duration_ms_ == 0, "stances after the previewed time have no duration");
        ++i;
    }
    vp_check(s.size() == i, "number of previewed stances");
}
VP_HARNESS(preview_walking)
{
    int f = FIRST[vp_choose("first_stance", 0, 2)], n = vp_choose("steps", 2, 3);
    preview(f, n, vp_int("a", 0, 250), vp_int("d", 0, 450));
}
VP_HARNESS(preview_end)
{
    int f = FIRST[vp_choose("first_stance", 0, 2)];
    preview(f, 0, vp_int("a", 0, 400), vp_int("d", 0, 400));
}
VP_HARNESS(rejected)
{
    int f = vp_choose("first_stance", 0, 4), ss = vp_choose("first_ss", 0, 4), n = vp_choose("steps", 0, 3);
    Params p(f, ss, n, false);
    bool bad = n == 1 || f == ST::UNDEFINED || f == ST::TDS || (f == ST::DS && (ss == ST::DS || ss == ST::TDS));
    vp_check(throws([&] { StanceFiniteStateMachine x(p); }) == bad, "malformed parameters are rejected");
    StanceFiniteStateMachine y;
    vp_check(throws([&] { y.setParameters(p); }) == bad, "malformed parameters are rejected");
    vp_check(throws([&] { p.getDurationMs(ST::UNDEFINED); }), "stances without a duration");
    for (int t = 0; t < 5; ++t)
        if (t == ST::LSS || t == ST::RSS) vp_check(determineSupportFoot((ST::Type)t) == (t == ST::LSS ? humoto::LeftOrRight::LEFT : humoto::LeftOrRight::RIGHT), "support foot");
        else vp_check(throws([&] { determineSupportFoot((ST::Type)t); }), "double supports have no support foot");
}
