// Walking pattern generator: a walk with symbolic state and a reference preview
#pragma once
#include "config_mem.h"
#include "common.h"
#include "humoto/wpg04.h"
using namespace humoto::walking;
using namespace humoto::wpg04;
typedef Eigen::MatrixXd M;
typedef Eigen::VectorXd V;
typedef humoto::LeftOrRight LR;
typedef StanceType ST;
typedef etools::Vector2 V2;
static const double COM_HEIGHT = 0.8125;
static M rot(double a) { M r(2, 2); r << cos(a), -sin(a), sin(a), cos(a); return r; }
// motion of the center of mass over a center of pressure which moves to u in time T, after time t
static V move(const V &x, const V &u, double T, double t)
{
    double w = std::sqrt(humoto::g_gravitational_acceleration / COM_HEIGHT), C = std::cosh(t * w), S = std::sinh(t * w);
    V r(6);
    for (int k = 0; k < 2; ++k)
    {
        double c = x(3 * k), d = x(3 * k + 1), a = x(3 * k + 2), p = a / (w * w), z = c - p, v = (u(k) - z) / T, q = d - v;
        r(3 * k) = z + v * t + p * C + q / w * S;
        r(3 * k + 1) = v + p * w * S + q * C;
        r(3 * k + 2) = w * w * (p * C + q / w * S);
    }
    return r;
}
static V copOf(const V &x)
{
    double h = COM_HEIGHT / humoto::g_gravitational_acceleration;
    V z(2);
    z << x(0) - h * x(2), x(3) - h * x(5);
    return z;
}
struct Times { int ss, tds, first, last, sampling, subsampling, tds_sampling, n; };
struct World
{
    Times t;
    WalkParameters wp;
    MPCParameters mp;
    StanceFiniteStateMachine fsm;
    Model model;
    double step, min, max, dist, length, width;   // of feet
    double yaw[2], z[2];                           // left, right
    V2 foot[2];
    V cstate;
    void state(ModelState &s, ST::Type type, ST::Type next)
    {
        humoto::rigidbody::RigidBodyState f[2];
        for (int k = 0; k < 2; ++k)
        {
            f[k].position_ << foot[k], z[k];
            f[k].rpy_ << 0, 0, yaw[k];
        }
        s.set(type == ST::TDS ? ST::DS : type, PointMassModel6z::convertCoMState(etools::Vector6(cstate), COM_HEIGHT), f[0], f[1]);
        s.stance_type_ = type;
        s.next_stance_type_ = next;
    }
    World(int first, int steps, const Times &times, int shift, bool symbolic_feet = true, bool one_yaw = false) : t(times), mp(times.n, times.sampling, times.subsampling, times.tds_sampling)
    {
        wp.first_stance_ = (ST::Type)first;
        wp.first_ss_type_ = ST::RSS;
        wp.num_steps_ = steps;
        wp.ss_duration_ms_ = t.ss; wp.tds_duration_ms_ = t.tds; wp.first_stance_duration_ms_ = t.first; wp.last_stance_duration_ms_ = t.last;
        wp.com_velocity_ = symVec("com_velocity", 2);
        wp.first_stance_com_velocity_ = symVec("first_velocity", 2);
        wp.last_stance_com_velocity_ = symVec("last_velocity", 2);
        wp.theta_increment_ = vp_real("theta_increment", -0.5, 0.5);
        fsm.setParameters(wp);
        fsm.shiftTime(shift);
        if (symbolic_feet)
        {
            step = vp_real("max_step_len", 0, 1); min = vp_real("min_feet_dist", 0, 1); max = vp_real("max_feet_dist", 0, 1);
            dist = vp_real("feet_dist_default", 0, 1); length = vp_real("foot_length", 0, 1); width = vp_real("foot_width", 0, 1);
            CfgSection c("RobotFootParameters");
            c.num("foot_width", width).num("max_step_len", step).num("min_feet_dist", min).num("max_feet_dist", max).num("feet_dist_default", dist).num("foot_length", length);
            std::string f = c.write();
            CfgReader r(f);
            unlink(f.c_str());
            RobotFootParameters p;
            p.readConfig(r);
            model.setFootParameters(p);
        }
        else { step = 0.2; min = 0.19; max = 0.3; dist = 0.19; length = 0.1372; width = 0.058; }
        for (int k = 0; k < 2; ++k)
        {
            foot[k] = symVec(k ? "right_foot" : "left_foot", 2);
            z[k] = vp_real(k ? "right_z" : "left_z", -1, 1);
            yaw[k] = k && one_yaw ? yaw[0] : vp_real(k ? "right_yaw" : "left_yaw", -1, 1);
        }
        cstate = symVec("cstate", 6);
        ModelState s;
        state(s, ST::DS, ST::UNDEFINED);
        model.updateState(s);
        ST::Type c = fsm.current_stance_.type_;
        if (c == ST::TDS && fsm.current_stance_.previous_nontds_stance_type_ != ST::DS)
        {
            state(s, fsm.current_stance_.previous_nontds_stance_type_, ST::TDS);
            model.updateState(s);
        }
        state(s, c, fsm.getNextStance().type_);
        model.updateState(s);
    }
    // position of the current support for a type of stance
    V2 support(ST::Type type) const
    {
        if (type == ST::LSS) return foot[0];
        if (type == ST::RSS) return foot[1];
        return (foot[0] + foot[1]) / 2;
    }
};
// preview written out
struct RefStance { ST::Type type; double theta; V2 vel; M fd, cop; };
struct RefInterval { int ms, stance; };
struct RefPreview
{
    bool ok;
    std::vector<RefStance> st;        // stances except the transitional ones
    std::vector<RefInterval> iv;
    std::vector<int> steps;           // intervals in which the support changes
    bool same_yaw_needed;
    static M box(double a, double b, double c, double d) { M m(2, 2); m << a, b, c, d; return m; }
    void push(const World &w, const StanceFiniteStateMachine &f, double theta)
    {
        const Stance &s = f.current_stance_;
        RefStance r;
        r.type = s.type_; r.theta = theta;
        if (r.type != ST::DS) r.vel = w.wp.com_velocity_;
        else r.vel = s.subtype_ == StanceSubType::FIRST ? w.wp.first_stance_com_velocity_ : w.wp.last_stance_com_velocity_;
        ST::Type before = s.previous_nontds_stance_type_;
        double h = w.dist / 2;
        r.fd = M::Zero(2, 2);
        if (r.type == ST::LSS) r.fd = before == ST::DS ? box(0, 0, h, h) : box(-w.step, w.step, w.min, w.max);
        else if (r.type == ST::RSS) r.fd = before == ST::DS ? box(0, 0, -h, -h) : box(-w.step, w.step, -w.max, -w.min);
        else r.fd = before == ST::LSS ? box(0, 0, -h, -h) : box(0, 0, h, h);
        r.cop = r.type == ST::DS ? box(-w.length / 2, w.length / 2, -(w.width + w.dist) / 2, (w.width + w.dist) / 2)
                                 : box(-w.length / 2, w.length / 2, -w.width / 2, w.width / 2);
        st.push_back(r);
    }
    explicit RefPreview(const World &w)
    {
        const Times &t = w.t;
        // is there enough time?
        {
            StanceFiniteStateMachine f = w.fsm;
            long left = (long)t.n * t.sampling;
            ok = false;
            for (;;)
            {
                long rest = f.current_stance_.duration_ms_ - f.current_time_ms_;
                if (left <= rest) { ok = true; break; }
                left -= rest;
                if (f.current_stance_.type_ == ST::DS && f.ss_states_to_termination_ == 0) break;
                f.shiftStance();
            }
            if (!ok) return;
        }
        StanceFiniteStateMachine f = w.fsm;
        double yaw[2] = {w.yaw[0], w.yaw[1]};
        // a stance which is longer than the preview is sampled from the current moment
        int rest = std::min<long>(f.current_stance_.duration_ms_ - f.current_time_ms_, (long)t.n * t.sampling);
        bool first = true;
        while ((int)iv.size() < t.n)
        {
            bool tds = f.current_stance_.type_ == ST::TDS;
            RefInterval i;
            int more;
            if (!tds) { i.ms = rest % t.sampling ? rest % t.sampling : t.sampling; more = rest / t.sampling - (i.ms == t.sampling ? 1 : 0); }
            else
            {
                i.ms = first ? rest : t.tds_sampling;
                f.shiftStance();
                more = f.current_stance_.duration_ms_ / t.sampling;
                if (!first) steps.push_back(iv.size());
            }
            i.stance = st.size();
            // orientation of the stance
            ST::Type type = f.current_stance_.type_, before = f.current_stance_.previous_nontds_stance_type_;
            double theta;
            if (type == ST::DS)
            {
                if (before == ST::LSS) theta = yaw[0];
                else if (before == ST::RSS) theta = yaw[1];
                else theta = (yaw[0] + yaw[1]) / 2;
                if (!tds && first) theta = (yaw[0] + yaw[1]) / 2;
            }
            else
            {
                int k = type == ST::LSS ? 0 : 1;
                if (tds && before != ST::DS) yaw[k] = yaw[1 - k] + w.wp.theta_increment_;
                theta = yaw[k];
            }
            push(w, f, theta);
            iv.push_back(i);
            i.ms = t.sampling;
            for (int k = 0; k < more; ++k) iv.push_back(i);
            f.shiftStance();
            rest = f.current_stance_.duration_ms_;
            first = false;
        }
        iv.resize(t.n);
    }
};
// positions of supports, centers of pressure, states of the center of mass for given variables
struct RefMotion
{
    V cop, dcop, cstate, feet;
    RefMotion(const World &w, const RefPreview &r, const V2 &support, const V &local, const V &steps)
    {
        int n = w.t.n;
        cop.resize(2 * n); dcop.resize(2 * n); cstate.resize(6 * n); feet.resize(2 * r.steps.size());
        V x = w.cstate;
        V2 p = support;
        size_t k = 0;
        for (int i = 0; i < n; ++i)
        {
            if (k < r.steps.size() && r.steps[k] == i)
            {
                p = p + V2(rot(r.st[k].theta) * steps.segment(2 * k, 2));
                feet.segment(2 * k, 2) = p;
                ++k;
            }
            V u = p + V2(rot(r.st[r.iv[i].stance].theta) * local.segment(2 * i, 2));
            double T = r.iv[i].ms / 1000.;
            cop.segment(2 * i, 2) = u;
            dcop.segment(2 * i, 2) = (u - copOf(x)) / T;
            x = move(x, u, T, T);
            cstate.segment(6 * i, 6) = x;
        }
    }
};
static const int FIRST[3] = {ST::DS, ST::LSS, ST::RSS};
// particular walks; the last argument selects sampling
static Times times(int which, int n)
{
    //                 ss  tds first last sampling sub tds_sampling
    static const Times t[5] = {{200, 100, 100, 1000, 100, 100, 100, 0},
                               {100, 100, 200, 1000, 100, 50, 100, 0},
                               {300, 20, 100, 1000, 100, 20, 20, 0},
                               {200, 50, 200, 1000, 50, 50, 50, 0},
                               {100, 100, 100, 1000, 100, 100, 100, 0}};
    Times r = t[which];
    r.n = n;
    return r;
}
