// Threads as coroutines: a switch of threads may happen where threads synchronize; which switches
// happen is decided by symbolic variables (see vpSched::plan).
#pragma once
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <memory>
#include <queue>
#include <vector>
#include "vp.h"
namespace vpSched
{
    struct Thread { ucontext_t c; std::function<void()> f; bool done; std::vector<char> stack; Thread() : done(false) {} };
    struct State { std::vector<Thread *> t; int cur; long step; std::vector<long> at, to; size_t used; bool on; State() : cur(0), step(0), used(0), on(false) { t.push_back(new Thread); } };
    static inline State &S() { static State s; return s; }
    // "n" switches at symbolic moments to symbolic threads
    static inline void plan(int n, int steps, int threads)
    {
        State &s = S();
        s.on = true;
        for (int i = 0; i < n; ++i)
        {
            char b[32];
            snprintf(b, 32, "switch%d", i); s.at.push_back(vp_int(b, 0, steps));
            snprintf(b, 32, "thread%d", i); s.to.push_back(threads > 2 ? vp_int(b, 1, threads - 1) : 1);
            if (i) vp_assume(s.at[i] > s.at[i - 1]);
        }
    }
    static inline void go(int k)
    {
        State &s = S();
        if (k == s.cur) return;
        int o = s.cur;
        s.cur = k;
        swapcontext(&s.t[o]->c, &s.t[k]->c);
    }
    static inline int other(int n)
    {
        State &s = S();
        int m = (int)s.t.size(), k = s.cur;
        for (int seen = 0, i = 1; i < 2 * m && seen < n; ++i) { int c = (s.cur + i) % m; if (c != s.cur && !s.t[c]->done) { k = c; ++seen; } }
        return k;
    }
    // a moment when another thread may run
    static inline void point()
    {
        State &s = S();
        long now = s.step++;
        if (now > 3000) { vp_fail("threads do not finish"); vp_stop(); }
        if (s.used < s.at.size() && now == s.at[s.used])
        {
            long by = s.to[s.used++];
            int n = 1;
            while (n < (int)s.t.size() && by != n) ++n;
            go(other(n));
        }
    }
    // the current thread cannot continue or sleeps
    static inline void wait() { State &s = S(); if (s.step++ > 3000) { vp_fail("threads do not finish"); vp_stop(); } go(other(1)); }
    static void entry()
    {
        State &s = S();
        Thread *t = s.t[s.cur];
        t->f();
        t->done = true;
        for (;;) go(other(1));
    }
    static inline int start(std::function<void()> f)
    {
        State &s = S();
        Thread *t = new Thread;
        t->f = f;
        t->stack.resize(1 << 18);
        getcontext(&t->c);
        t->c.uc_stack.ss_sp = &t->stack[0];
        t->c.uc_stack.ss_size = t->stack.size();
        t->c.uc_link = 0;
        makecontext(&t->c, entry, 0);
        s.t.push_back(t);
        int id = (int)s.t.size() - 1;
        point();
        return id;
    }
}
namespace boost
{
    namespace chrono
    {
        struct nanoseconds { nanoseconds(long) {} };
        struct microseconds { microseconds(long) {} };
        struct milliseconds { milliseconds(long) {} };
        struct seconds { seconds(long) {} };
    }
    class mutex
    {
            int owner;
            mutex(const mutex &);
            void operator=(const mutex &);
        public:
            mutex() : owner(-1) {}
            void lock()
            {
                vpSched::point();
                if (owner == vpSched::S().cur) vp_fail("a thread waits for itself");
                while (owner >= 0) vpSched::wait();
                owner = vpSched::S().cur;
            }
            bool try_lock() { vpSched::point(); if (owner >= 0) return false; owner = vpSched::S().cur; return true; }
            void unlock()
            {
                if (owner != vpSched::S().cur) vp_fail("a mutex is released by another thread");
                owner = -1;
                vpSched::point();
            }
            struct scoped_lock;
    };
    template <class M> struct lock_guard
    {
        M &m;
        explicit lock_guard(M &x) : m(x) { m.lock(); }
        ~lock_guard() { m.unlock(); }
    };
    template <class M> struct unique_lock
    {
        M *m;
        bool own;
        explicit unique_lock(M &x) : m(&x), own(true) { m->lock(); }
        ~unique_lock() { if (own) m->unlock(); }
        void lock() { m->lock(); own = true; }
        void unlock() { own = false; m->unlock(); }
        bool owns_lock() const { return own; }
    };
    struct mutex::scoped_lock : unique_lock<mutex> { explicit scoped_lock(mutex &x) : unique_lock<mutex>(x) {} };
    typedef mutex timed_mutex;
    struct condition_variable
    {
        long notified;
        condition_variable() : notified(0) {}
        template <class L> void wait(L &l) { long n = notified; l.unlock(); while (n == notified) vpSched::wait(); l.lock(); }
        template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
        template <class L, class D> int wait_for(L &l, D) { l.unlock(); vpSched::wait(); l.lock(); return 0; }
        void notify_one() { ++notified; vpSched::point(); }
        void notify_all() { ++notified; vpSched::point(); }
    };
    class thread
    {
            int id;
        public:
            thread() : id(-1) {}
            template <class F> explicit thread(F f) : id(vpSched::start(f)) {}
            template <class F, class A> thread(F f, A a) : id(vpSched::start(std::bind(f, a))) {}
            template <class F, class A, class B> thread(F f, A a, B b) : id(vpSched::start(std::bind(f, a, b))) {}
            thread(thread &&t) : id(t.id) { t.id = -1; }
            thread &operator=(thread &&t) { id = t.id; t.id = -1; return *this; }
            void join() { if (id < 0) return; vpSched::point(); while (!vpSched::S().t[id]->done) vpSched::wait(); id = -1; }
            bool joinable() const { return id >= 0; }
            void detach() { id = -1; }
    };
    namespace this_thread
    {
        template <class D> void sleep_for(D) { vpSched::wait(); }
        static inline void yield() { vpSched::wait(); }
    }
}
// a queue which notices that it is used by two threads at the same time
namespace std
{
    template <class T> class vp_queue
    {
            std::deque<T> d;
            mutable bool busy;
            struct Use
            {
                bool &b;
                Use(bool &x) : b(x) { if (b) vp_fail("a queue is used by two threads at the same time"); b = true; vpSched::point(); }
                ~Use() { b = false; }
            };
        public:
            vp_queue() : busy(false) {}
            void push(const T &x) { Use u(busy); d.push_back(x); }
            void pop() { Use u(busy); if (d.empty()) { vp_fail("an element of an empty queue is removed"); vp_stop(); } d.pop_front(); }
            T &front() { Use u(busy); if (d.empty()) { vp_fail("an element of an empty queue is used"); vp_stop(); } return d.front(); }
            T &back() { Use u(busy); return d.back(); }
            bool empty() const { Use u(busy); return d.empty(); }
            size_t size() const { Use u(busy); return d.size(); }
            void swap(vp_queue &o) { Use u(busy), v(o.busy); d.swap(o.d); }
    };
}
#define queue vp_queue
