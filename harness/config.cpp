// VP: stubs=msgpack stubs=yaml
// C23: configuration files
#include "config_classes.h"
#include "tasks.h"
#include "humoto/humoto.h"

enum Colour { RED = 0, GREEN = 3, BLUE = -2 };
template <class T> static bool same(const T &a, const T &b) { return a == b; }
static double real(const char *n) { return vp_real(n, -4, 4); }

// entries of all kinds, with a parent and members
template <class Base> struct Parent : Base
{
    #define HUMOTO_CONFIG_SECTION_ID "Parent"
    #define HUMOTO_CONFIG_ENTRIES \
        HUMOTO_CONFIG_SCALAR_(first) \
        HUMOTO_CONFIG_SCALAR(second)
    protected: using Base::finalize; using Base::default_crash_on_missing_entry_;
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public:
    double first_;
    std::string second;
    Parent() { setDefaults(); }
    void setDefaults() { first_ = 0.5; second = "nothing"; }
};
template <class Base> struct Inner : Base
{
    #define HUMOTO_CONFIG_SECTION_ID "Inner"
    #define HUMOTO_CONFIG_ENTRIES \
        HUMOTO_CONFIG_COMPOUND_(point) \
        HUMOTO_CONFIG_ENUM(colour)
    protected: using Base::finalize; using Base::default_crash_on_missing_entry_;
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public:
    etools::Vector2 point_;
    Colour colour;
    double half_;
    Inner() { setDefaults(); }
    void setDefaults() { point_ << 1, 2; colour = RED; half_ = point_(0) / 2; }
    void finalize() { half_ = point_(0) / 2; }
};
template <class Base> struct All : Parent<Base>
{
    typedef Parent<Base> ParentOfAll;
    #define HUMOTO_CONFIG_SECTION_ID "All"
    #define HUMOTO_CONFIG_CONSTRUCTOR All
    #define HUMOTO_CONFIG_ENTRIES \
        HUMOTO_CONFIG_PARENT_CLASS(ParentOfAll) \
        HUMOTO_CONFIG_SCALAR_(number) \
        HUMOTO_CONFIG_SCALAR_(integer) \
        HUMOTO_CONFIG_SCALAR_(size) \
        HUMOTO_CONFIG_SCALAR_(flag) \
        HUMOTO_CONFIG_SCALAR(text) \
        HUMOTO_CONFIG_ENUM_(colour) \
        HUMOTO_CONFIG_COMPOUND_(fixed) \
        HUMOTO_CONFIG_COMPOUND_(vector) \
        HUMOTO_CONFIG_COMPOUND_(indices) \
        HUMOTO_CONFIG_COMPOUND_(matrix) \
        HUMOTO_CONFIG_COMPOUND(dynamic) \
        HUMOTO_CONFIG_COMPOUND(numbers) \
        HUMOTO_CONFIG_COMPOUND(texts) \
        HUMOTO_CONFIG_COMPOUND_(nested) \
        HUMOTO_CONFIG_COMPOUND_(words) \
        HUMOTO_CONFIG_MEMBER_CLASS(inner_, "inner") \
        HUMOTO_CONFIG_MEMBER_CLASS(other_, "other")
    protected: using Base::default_crash_on_missing_entry_;
    public: using Base::readConfig;
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
    public:
    double number_;
    int integer_;
    std::size_t size_;
    bool flag_;
    std::string text;
    Colour colour_;
    etools::Vector3 fixed_;
    V vector_;
    humoto::IndexVector indices_;
    Eigen::Matrix<double, 2, 3> matrix_;
    M dynamic;
    std::vector<double> numbers;
    std::vector<std::string> texts;
    std::vector<std::vector<double> > nested_;
    std::vector<std::vector<std::string> > words_;
    Inner<Base> inner_, other_;
    double sum_;
    All() { setDefaults(); }
    void setDefaults()
    {
        ParentOfAll::setDefaults();
        number_ = 7; integer_ = -1; size_ = 9; flag_ = true; text = "text"; colour_ = GREEN;
        fixed_ << 1, 2, 3; vector_ = V::Ones(2); indices_.resize(1); indices_(0) = 5; matrix_.setOnes(); dynamic = M::Ones(1, 1);
        numbers.assign(1, 3); texts.assign(1, "a"); nested_.clear(); words_.clear();
        inner_.setDefaults(); other_.setDefaults();
        finalize();
    }
    void finalize() { sum_ = this->first_ + number_; }
    void fill(const std::string &p)
    {
#define S(x) (p + x).c_str()
        this->first_ = real(S("first")); this->second = p == "a" ? "" : "b";
        number_ = real(S("number")); integer_ = vp_int(S("integer"), -5, 5); size_ = vp_int(S("size"), 0, 5);
        flag_ = vp_bool(S("flag")); text = "t" + p; colour_ = vp_choose(S("colour"), 0, 1) ? BLUE : RED;
        fixed_ = symVec(S("fixed"), 3);
        int n = vp_choose(S("length"), 0, 2);
        vector_ = symVec(S("vector"), n);
        indices_.resize(n);
        for (int i = 0; i < n; ++i) indices_(i) = vp_int(S("index" + std::to_string(i)), 0, 9);
        matrix_ = symMat(S("matrix"), 2, 3);
        int r = vp_choose(S("shape"), 0, 2);
        dynamic = r == 0 ? symMat(S("dynamic"), 3, 2) : r == 1 ? symMat(S("dynamic"), 1, 2) : symMat(S("dynamic"), 2, 1);
        numbers.clear(); texts.clear(); nested_.clear(); words_.clear();
        for (int i = 0; i < n; ++i) { numbers.push_back(real(S("numbers" + std::to_string(i)))); texts.push_back(i ? "" : p); }
        // lists of different lengths, the first one may be empty
        for (int i = 0; i < n; ++i)
        {
            std::vector<double> v;
            std::vector<std::string> w;
            for (int j = 0; j < i + r; ++j) { v.push_back(real(S("nested" + std::to_string(i) + std::to_string(j)))); w.push_back(p + std::to_string(j)); }
            nested_.push_back(v);
            words_.push_back(w);
        }
        inner_.point_ = symVec(S("inner"), 2); inner_.colour = BLUE;
        other_.point_ = symVec(S("other"), 2); other_.colour = GREEN;
#undef S
    }
};
static void eqNumbers(const std::vector<double> &a, const std::vector<double> &b, const char *m)
{
    vp_check(a.size() == b.size(), m);
    if (a.size() == b.size()) for (size_t i = 0; i < a.size(); ++i) vp_eq(a[i], b[i], m);
}
template <class B> static void eqInner(const Inner<B> &a, const Inner<B> &b, const char *m)
{
    eqMat(M(a.point_), M(b.point_), m);
    vp_check(a.colour == b.colour, m);
    vp_eq(a.half_, b.point_(0) / 2, "a member is finalized after its entries are read");
}
template <class B> static void eqAll(const All<B> &a, const All<B> &b)
{
    vp_eq(a.first_, b.first_, "scalar of the parent");
    vp_check(a.second == b.second, "string of the parent");
    vp_eq(a.number_, b.number_, "scalar");
    vp_check(a.integer_ == b.integer_, "integer");
    vp_check(a.size_ == b.size_, "size");
    vp_check(a.flag_ == b.flag_, "flag");
    vp_check(a.text == b.text, "string");
    vp_check(a.colour_ == b.colour_, "enumeration");
    eqMat(M(a.fixed_), M(b.fixed_), "vector of a fixed length");
    eqMat(M(a.vector_), M(b.vector_), "vector");
    vp_check(a.indices_.size() == b.indices_.size(), "vector of indices");
    if (a.indices_.size() == b.indices_.size()) for (int i = 0; i < a.indices_.size(); ++i) vp_check(a.indices_(i) == b.indices_(i), "vector of indices");
    eqMat(M(a.matrix_), M(b.matrix_), "matrix of a fixed size");
    eqMat(a.dynamic, b.dynamic, "matrix");
    eqNumbers(a.numbers, b.numbers, "list of numbers");
    vp_check(a.texts == b.texts, "list of strings");
    vp_check(a.nested_.size() == b.nested_.size(), "list of lists");
    if (a.nested_.size() == b.nested_.size()) for (size_t i = 0; i < a.nested_.size(); ++i) eqNumbers(a.nested_[i], b.nested_[i], "list of lists");
    vp_check(a.words_ == b.words_, "list of lists of strings");
    eqInner(a.inner_, b.inner_, "first member");
    eqInner(a.other_, b.other_, "second member");
    vp_eq(a.sum_, b.first_ + b.number_, "the object is finalized after its entries are read");
}
typedef humoto::config::StrictConfigurableBase Strict;
typedef humoto::config::RelaxedConfigurableBase Relaxed;

// Whatever is written is read back; sections of a file do not interfere.
template <class F> static void roundTrip()
{
    All<Strict> a, b, x;
    a.fill("a");
    b.number_ = real("b"); b.dynamic = symMat("bm", 2, 2);
    b.finalize();
    // (processes are not divided while files are written)
    int sections = vp_choose("sections", 0, 1), read = vp_choose("read", 0, 3);
    std::string file = cfgFile();
    {
        typename F::W w(file);
        a.writeConfig(w, "One");
        if (sections)
        {
            b.writeConfig(w);
            a.writeConfig(w, "Two");
        }
        else b.writeConfig(w, "All");
    }
    // several ways to read
    switch (read)
    {
        case 0: { typename F::R r(file); x.readConfig(r, "One"); eqAll(x, a); x.readConfig(r); eqAll(x, b); break; }
        case 1: { x.template readConfig<typename F::R>(file, "One"); eqAll(x, a); break; }
        case 2: { x.template readConfig<typename F::R>(file); eqAll(x, b); break; }
        default: { typename F::R r(file); All<Strict> y(r, std::string("One")); eqAll(y, a); All<Strict> z(r); eqAll(z, b); }
    }
    vp_check(throws([&] { x.template readConfig<typename F::R>(file, "Three"); }), "a missing section is reported");
    vp_check(throws([&] { x.template readConfig<typename F::R>(file + "_", "One"); }), "a missing file is reported");
}
VP_HARNESS(round_trip_msgpack) { roundTrip<Msg>(); }
VP_HARNESS(round_trip_yaml) { roundTrip<Yml>(); }

// A file which lacks some entries: a reader which insists on all entries reports it, otherwise the missing ones
// have their default values.
template <class Base> struct Part : Base
{
    double a_, b_;
    etools::Vector2 v_;
    M m_;
    std::vector<double> l_;
    Colour c_;
    Inner<Base> i_;
    static std::string &name() { static std::string n("Part"); return n; }
    bool has_[7];
    Part() { setDefaults(); for (int i = 0; i < 7; ++i) has_[i] = true; }
    void setDefaults() { a_ = 1; b_ = 2; v_ << 3, 4; m_ = M::Ones(1, 2); l_.assign(2, 5); c_ = BLUE; i_.setDefaults(); }
    void fill(const std::string &p)
    {
        a_ = real((p + "a").c_str()); b_ = real((p + "b").c_str()); v_ = symVec((p + "v").c_str(), 2); m_ = symMat((p + "m").c_str(), 2, 1);
        l_.assign(1, real((p + "l").c_str())); c_ = RED; i_.point_ = symVec((p + "i").c_str(), 2); i_.finalize();
    }
    protected:
    const std::string &getConfigSectionID() const { return name(); }
    std::size_t getNumberOfEntries() const { std::size_t n = 0; for (int i = 0; i < 7; ++i) n += has_[i]; return n; }
    template <class R> void readConfigEntriesTemplate(R &reader, const bool crash_on_missing_entry = false)
    {
        HUMOTO_CONFIG_READ_SCALAR_(a)
        HUMOTO_CONFIG_READ_SCALAR_(b)
        HUMOTO_CONFIG_READ_COMPOUND_(v)
        HUMOTO_CONFIG_READ_COMPOUND_(m)
        HUMOTO_CONFIG_READ_COMPOUND_(l)
        HUMOTO_CONFIG_READ_ENUM_(c)
        HUMOTO_CONFIG_READ_MEMBER_CLASS(i_, "i")
        this->finalize();
    }
    template <class W> void writeConfigEntriesTemplate(W &writer) const
    {
        if (has_[0]) HUMOTO_CONFIG_WRITE_SCALAR_(a)
        if (has_[1]) HUMOTO_CONFIG_WRITE_SCALAR_(b)
        if (has_[2]) HUMOTO_CONFIG_WRITE_COMPOUND_(v)
        if (has_[3]) HUMOTO_CONFIG_WRITE_COMPOUND_(m)
        if (has_[4]) HUMOTO_CONFIG_WRITE_COMPOUND_(l)
        if (has_[5]) HUMOTO_CONFIG_WRITE_ENUM_(c)
        if (has_[6]) HUMOTO_CONFIG_WRITE_MEMBER_CLASS(i_, "i")
    }
    using Base::default_crash_on_missing_entry_;
    #include HUMOTO_CONFIG_DEFINE_ACCESSORS
};
template <class F> static void missing()
{
    Part<Strict> a, s, d;
    Part<Relaxed> r;
    a.fill("a");
    int k = vp_choose("missing", 0, 7);
    bool all = k == 7;
    if (!all) a.has_[k] = false;
    std::string file = cfgFile();
    {
        typename F::W w(file);
        a.writeConfig(w);
        d.writeConfig(w, "Last");
    }
    typename F::R reader(file), one(file);
    // strict by default, relaxed by default, and both when it is requested
    bool failed = throws([&] { typename F::R q(file); s.readConfig(q); });
    vp_check(failed == !all, "missing entries are reported exactly when there are some");
    s.fill("s");
    r.fill("r");
    r.readConfig(reader);
    s.readConfig(one, false);
    for (int pass = 0; pass < 2; ++pass)
    {
        #define PICK(x) (pass ? s.x : r.x)
        vp_eq(PICK(a_), k == 0 ? d.a_ : a.a_, "scalar");
        vp_eq(PICK(b_), k == 1 ? d.b_ : a.b_, "another scalar");
        eqMat(M(PICK(v_)), M(k == 2 ? d.v_ : a.v_), "vector");
        eqMat(PICK(m_), k == 3 ? d.m_ : a.m_, "matrix");
        eqNumbers(PICK(l_), k == 4 ? d.l_ : a.l_, "list");
        vp_check(PICK(c_) == (k == 5 ? d.c_ : a.c_), "enumeration");
        eqMat(M(pass ? s.i_.point_ : r.i_.point_), M(k == 6 ? d.i_.point_ : a.i_.point_), "member");
        vp_eq(PICK(i_.half_), PICK(i_.point_(0)) / 2, "member is finalized");
        #undef PICK
    }
    vp_check(throws([&] { typename F::R q(file); r.readConfig(q, true); }) == !all, "missing entries are reported when it is requested");
    // missing sections: after them other sections can be read
    r.fill("t");
    r.readConfig(reader, "Nothing");
    vp_eq(r.a_, d.a_, "defaults when the section is missing");
    eqNumbers(r.l_, d.l_, "defaults when the section is missing");
    r.readConfig(reader, "Last");
    vp_eq(r.a_, d.a_, "another section");
    eqMat(r.m_, d.m_, "another section");
}
VP_HARNESS(missing_msgpack) { missing<Msg>(); }
VP_HARNESS(missing_yaml) { missing<Yml>(); }

// Values which do not fit are reported.
template <class F> static void mismatch()
{
    int elements = vp_choose("elements", 0, 5), read = vp_choose("read", 0, 10);
    double sx = real("x");
    V sv = symVec("v", read == 4 ? vp_choose("length", 0, 5) : 2), sd = symVec("d", elements);
    std::string file = cfgFile();
    {
        typename F::W w(file);
        w.initRoot();
        w.descend("S", 5);
        w.writeScalar(sx, "x");
        w.writeScalar(std::string("text"), "t");
        w.writeCompound(sv, "v");
        // a matrix with a wrong number of elements
        w.descend("m", 3);
        w.writeScalar(2, "rows");
        w.writeScalar(2, "cols");
        w.writeCompound(sd, "data");
        w.ascend();
        w.descend("n", 1);
        w.writeScalar(2, "rows");
        w.ascend();
        w.ascend();
        w.flush();
    }
    typename F::R r(file);
    if (!r.descend("S")) { vp_fail("section"); return; }
    vp_check(!r.descend("y"), "no such entry");
    double x; std::string t; V v; M m; etools::Vector3 f; Eigen::Matrix<double, 3, 2> g; std::vector<double> l; bool b; int i;
    switch (read)
    {
        case 0: vp_check(throws([&] { r.readCompound(v, "x"); }), "a number is not a vector"); break;
        case 1: vp_check(throws([&] { r.readCompound(l, "x"); }), "a number is not a list"); break;
        case 2: vp_check(throws([&] { r.readScalar(x, "t"); }), "a string is not a number"); break;
        case 3: vp_check(throws([&] { r.readScalar(x, "v"); }), "a list is not a number"); break;
        case 4: vp_check(throws([&] { r.readCompound(f, "v"); }) == (sv.rows() != 3), "wrong length"); break;
        case 5: vp_check(throws([&] { r.readCompound(m, "m"); }) == (elements != 4), "wrong number of elements"); break;
        case 6: vp_check(throws([&] { r.readCompound(m, "n"); }), "no elements"); break;
        case 7: vp_check(throws([&] { r.readScalar(i, "t"); }), "a string is not an integer"); break;
        case 8: vp_check(throws([&] { r.readScalar(b, "x"); }), "a number is not a flag"); break;
        case 9: vp_check(throws([&] { r.readCompound(m, "x"); }), "a number is not a matrix"); break;
        default:
            // entries of the section are found independently of the order
            r.readCompound(v, "v", true);
            r.readScalar(x, "x", true);
            eqMat(M(v), M(sv), "vector");
            vp_eq(x, sx, "number");
            r.readScalar(x, "none");
            vp_eq(x, sx, "a missing entry does not change the value");
            r.readCompound(v, "none");
            eqMat(M(v), M(sv), "a missing entry does not change the vector");
            r.readCompound(m, "none"); r.readCompound(l, "none"); r.readCompound(f, "none");
            r.readScalar(i, "none"); r.readScalar(b, "none");
            vp_check(throws([&] { r.readScalar(x, "none", true); }), "a missing entry");
            vp_check(throws([&] { r.readCompound(v, "none", true); }), "a missing entry");
            vp_check(throws([&] { r.readCompound(m, "none", true); }), "a missing entry");
            vp_check(throws([&] { r.readCompound(l, "none", true); }), "a missing entry");
            Colour c = GREEN;
            vp_check(throws([&] { r.readEnum(c, "none", true); }), "a missing entry");
            r.readEnum(c, "none");
            vp_check(c == GREEN, "a missing entry does not change the value");
            r.ascend();
            vp_check(r.descend("S"), "a section can be visited again");
    }
}
VP_HARNESS(mismatch_msgpack) { mismatch<Msg>(); }
VP_HARNESS(mismatch_yaml) { mismatch<Yml>(); }

// MessagePack files which were not produced by the writer: all sections in one map, or values which are not sections
VP_HARNESS(foreign_msgpack)
{
    double x = real("x"), y = real("y");
    bool one = vp_choose("one_map", 0, 1), leading = vp_choose("leading", 0, 1), number = vp_choose("number", 0, 1);
    std::string file = cfgFile();
    {
        std::ofstream s(file.c_str());
        ::msgpack::packer<std::ofstream> p(s);
        if (leading) p.pack_map(0);
        if (number) p.pack(x);
        p.pack_map(one ? 3 : 1);
        p.pack("A"); p.pack_map(1); p.pack("x"); p.pack(x);
        if (!one) p.pack_map(2);
        p.pack("B"); p.pack(y);
        p.pack("C"); p.pack_map(1); p.pack("x"); p.pack(y);
    }
    Msg::R r(file);
    double v = 0;
    vp_check(r.descend("A"), "first section");
    r.readScalar(v, "x", true);
    vp_eq(v, x, "first section");
    r.ascend();
    vp_check(!r.descend("B"), "a number is not a section");
    vp_check(r.descend("C"), "another section");
    r.readScalar(v, "x", true);
    vp_eq(v, y, "another section");
    r.ascend();
    vp_check(!r.descend("D"), "no such section");
}

// lists of lists written through a constant reference
VP_HARNESS(nested_constant_msgpack)
{
    int n = vp_choose("n", 0, 2);
    std::vector<std::vector<double> > v, u;
    for (int i = 0; i < n; ++i)
    {
        v.push_back(std::vector<double>());
        for (int j = 0; j <= i; ++j) v.back().push_back(real(("v" + std::to_string(i) + std::to_string(j)).c_str()));
    }
    double a = real("a"), b = 0;
    std::string file = cfgFile();
    {
        Msg::W w(file);
        w.initRoot();
        w.descend("S", 2);
        const Msg::W &constant = w;
        constant.writeCompound(v, "v");
        w.writeScalar(a, "a");
        w.ascend();
        w.flush();
    }
    Msg::R r(file);
    if (!r.descend("S")) { vp_fail("section"); return; }
    r.readCompound(u, "v", true);
    r.readScalar(b, "a", true);
    vp_check(u.size() == v.size(), "list of lists");
    if (u.size() == v.size()) for (int i = 0; i < n; ++i) eqNumbers(u[i], v[i], "list of lists");
    vp_eq(b, a, "the next entry");
}
