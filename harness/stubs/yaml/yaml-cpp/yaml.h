// Stand-in for yaml-cpp 0.3 (the interface used by the bridge): values are kept in memory, so that they may
// be symbolic; a file contains one line per event of an emitter.  Documents, collections, types of scalars
// and errors follow the documentation of yaml-cpp.
#pragma once
#include <cstdlib>
#include <deque>
#include <istream>
#include <iterator>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace YAML
{
    enum EMITTER_MANIP { Auto, TrueFalseBool, Flow, Block, Key, Value, BeginSeq, EndSeq, BeginMap, EndMap, Newline };
    struct Exception : std::runtime_error { Exception(const std::string &m) : std::runtime_error("yaml-cpp: " + m) {} };
    struct ParserException : Exception { ParserException() : Exception("parse error") {} };
    struct RepresentationException : Exception { RepresentationException(const std::string &m) : Exception(m) {} };
    struct InvalidScalar : RepresentationException { InvalidScalar() : RepresentationException("invalid scalar") {} };
    struct BadDereference : RepresentationException { BadDereference() : RepresentationException("bad dereference") {} };
    namespace NodeType { enum value { Null, Scalar, Sequence, Map }; }
    namespace vp
    {
        enum kind { STRING, NUMBER, INTEGER, BOOLEAN, BSEQ, ESEQ, BMAP, EMAP };
        struct item { kind k; std::string s; double f; long i; item(kind x) : k(x), f(0), i(0) {} };
        inline std::deque<item> &items() { static std::deque<item> x; return x; }
    }
    class Emitter
    {
            std::string text_;
            std::vector<int> open_;       // 0: map which expects a key, 1: map which expects a value, 2: sequence
            bool marked_, good_;
            int roots_;
        public:
            Emitter() : marked_(false), good_(true), roots_(0) {}
            bool good() const { return good_; }
            bool SetDoublePrecision(unsigned) { return true; }
            bool SetFloatPrecision(unsigned) { return true; }
            const char *c_str() const { return text_.c_str(); }
            std::size_t size() const { return text_.size(); }
            void vpadd(const vp::item &i)
            {
                vp::items().push_back(i);
                text_ += "VPO " + std::to_string(vp::items().size() - 1) + "\n";
            }
            // a node begins: keys and values of maps must be announced
            bool vpnode(bool collection)
            {
                if (!good_) return false;
                if (open_.empty()) { if (roots_++ || !collection) good_ = false; }
                else if (open_.back() != 2)
                {
                    if (!marked_ || (collection && open_.back() == 0)) good_ = false;
                    marked_ = false;
                }
                return good_;
            }
            void vpdone() { if (!open_.empty() && open_.back() != 2) open_.back() = 1 - open_.back(); }
            void manip(EMITTER_MANIP m)
            {
                switch (m)
                {
                    case Newline: text_ += "VPN\n"; break;
                    case Key: if (!good_ || open_.empty() || open_.back() != 0 || marked_) good_ = false; marked_ = true; break;
                    case Value: if (!good_ || open_.empty() || open_.back() != 1 || marked_) good_ = false; marked_ = true; break;
                    case BeginSeq: if (vpnode(true)) { vpadd(vp::item(vp::BSEQ)); open_.push_back(2); } break;
                    case BeginMap: if (vpnode(true)) { vpadd(vp::item(vp::BMAP)); open_.push_back(0); } break;
                    case EndSeq:
                        if (!good_ || open_.empty() || open_.back() != 2) { good_ = false; break; }
                        vpadd(vp::item(vp::ESEQ)); open_.pop_back(); vpdone(); break;
                    case EndMap:
                        if (!good_ || open_.empty() || open_.back() != 0 || marked_) { good_ = false; break; }
                        vpadd(vp::item(vp::EMAP)); open_.pop_back(); vpdone(); break;
                    default: break;
                }
            }
            void scalar(const vp::item &i) { if (vpnode(false)) { vpadd(i); vpdone(); } }
    };
    inline Emitter &operator<<(Emitter &e, EMITTER_MANIP m) { e.manip(m); return e; }
    inline Emitter &operator<<(Emitter &e, const std::string &s) { vp::item i(vp::STRING); i.s = s; e.scalar(i); return e; }
    inline Emitter &operator<<(Emitter &e, const char *s) { return e << std::string(s); }
    inline Emitter &operator<<(Emitter &e, bool b) { vp::item i(vp::BOOLEAN); i.i = b; e.scalar(i); return e; }
#define VP_YAML_INT(T) inline Emitter &operator<<(Emitter &e, T v) { vp::item i(vp::INTEGER); i.i = v; e.scalar(i); return e; }
    VP_YAML_INT(int) VP_YAML_INT(unsigned) VP_YAML_INT(short) VP_YAML_INT(unsigned short) VP_YAML_INT(long) VP_YAML_INT(unsigned long)
#undef VP_YAML_INT
    inline Emitter &operator<<(Emitter &e, double v) { vp::item i(vp::NUMBER); i.f = v; e.scalar(i); return e; }
    inline Emitter &operator<<(Emitter &e, float v) { return e << (double)v; }
    template <class T> Emitter &operator<<(Emitter &e, const std::vector<T> &v)
    {
        e << BeginSeq;
        for (std::size_t i = 0; i < v.size(); ++i) e << v[i];
        return e << EndSeq;
    }
    class Node
    {
            NodeType::value t_;
            vp::item v_;
            std::deque<Node> seq_;
            std::deque<std::pair<std::string, Node> > map_;
            friend class Parser;
        public:
            Node() : t_(NodeType::Null), v_(vp::STRING) {}
            NodeType::value Type() const { return t_; }
            std::size_t size() const { return t_ == NodeType::Sequence ? seq_.size() : t_ == NodeType::Map ? map_.size() : 0; }
            const Node *FindValue(const std::string &k) const
            {
                if (t_ != NodeType::Map) return 0;
                for (std::size_t i = 0; i < map_.size(); ++i) if (map_[i].first == k) return &map_[i].second;
                return 0;
            }
            const Node *FindValue(const char *k) const { return FindValue(std::string(k)); }
            const Node &operator[](std::size_t i) const
            {
                if (t_ != NodeType::Sequence || i >= seq_.size()) throw BadDereference();
                return seq_[i];
            }
            const vp::item &vpscalar() const { if (t_ != NodeType::Scalar) throw InvalidScalar(); return v_; }
    };
    inline void operator>>(const Node &n, double &v)
    {
        const vp::item &i = n.vpscalar();
        if (i.k == vp::NUMBER) v = i.f;
        else if (i.k == vp::INTEGER) v = (double)i.i;
        else throw InvalidScalar();
    }
    inline void operator>>(const Node &n, float &v) { double d; n >> d; v = d; }
    inline long vpinteger(const Node &n, bool is_unsigned)
    {
        const vp::item &i = n.vpscalar();
        if (i.k != vp::INTEGER) throw InvalidScalar();
        if (is_unsigned && i.i < 0) throw InvalidScalar();
        return i.i;
    }
    inline void operator>>(const Node &n, int &v) { v = vpinteger(n, false); }
    inline void operator>>(const Node &n, long &v) { v = vpinteger(n, false); }
    inline void operator>>(const Node &n, unsigned &v) { v = vpinteger(n, true); }
    inline void operator>>(const Node &n, unsigned long &v) { v = vpinteger(n, true); }
    inline void operator>>(const Node &n, bool &v)
    {
        const vp::item &i = n.vpscalar();
        if (i.k != vp::BOOLEAN) throw InvalidScalar();
        v = i.i;
    }
    inline void operator>>(const Node &n, std::string &v)
    {
        const vp::item &i = n.vpscalar();
        if (i.k == vp::STRING) v = i.s;
        else if (i.k == vp::INTEGER) v = std::to_string(i.i);
        else if (i.k == vp::BOOLEAN) v = i.i ? "true" : "false";
        else throw std::logic_error("stand-in of yaml-cpp: a number is read as a string");
    }
    template <class T> void operator>>(const Node &n, std::vector<T> &v)
    {
        v.clear();
        if (n.Type() != NodeType::Sequence) throw BadDereference();
        v.resize(n.size());
        for (std::size_t i = 0; i < n.size(); ++i) n[i] >> v[i];
    }
    class Parser
    {
            std::vector<long> ids_;      // -1: an empty line
            std::size_t at_;
            void node(Node &n)
            {
                if (at_ >= ids_.size() || ids_[at_] < 0) throw ParserException();
                const vp::item &i = vp::items()[ids_[at_++]];
                switch (i.k)
                {
                    case vp::BSEQ:
                        n.t_ = NodeType::Sequence;
                        while (!end(vp::ESEQ)) { n.seq_.push_back(Node()); node(n.seq_.back()); }
                        break;
                    case vp::BMAP: n.t_ = NodeType::Map; entries(n); break;
                    case vp::ESEQ: case vp::EMAP: throw ParserException();
                    default: n.t_ = NodeType::Scalar; n.v_ = i;
                }
            }
            bool end(vp::kind k)
            {
                if (at_ >= ids_.size() || ids_[at_] < 0) throw ParserException();
                if (vp::items()[ids_[at_]].k != k) return false;
                ++at_;
                return true;
            }
            void entries(Node &n)
            {
                while (!end(vp::EMAP))
                {
                    Node k;
                    node(k);
                    std::string s;
                    k >> s;
                    n.map_.push_back(std::make_pair(s, Node()));
                    node(n.map_.back().second);
                }
            }
        public:
            Parser() : at_(0) {}
            void Load(std::istream &in)
            {
                ids_.clear();
                at_ = 0;
                std::string l;
                while (std::getline(in, l))
                {
                    if (l == "VPN") ids_.push_back(-1);
                    else if (l.compare(0, 4, "VPO ") == 0 && atol(l.c_str() + 4) < (long)vp::items().size()) ids_.push_back(atol(l.c_str() + 4));
                    else if (l.find_first_not_of(" \t\r") == std::string::npos) ids_.push_back(-1);
                    else throw ParserException();
                }
            }
            // outputs of several emitters, separated by lines, are one document; entries of a map in the
            // block style follow each other
            bool GetNextDocument(Node &n)
            {
                n = Node();
                while (at_ < ids_.size() && ids_[at_] < 0) ++at_;
                if (at_ >= ids_.size()) return false;
                node(n);
                while (at_ < ids_.size())
                {
                    if (ids_[at_] >= 0) throw ParserException();
                    while (at_ < ids_.size() && ids_[at_] < 0) ++at_;
                    if (at_ >= ids_.size()) break;
                    if (n.t_ != NodeType::Map || n.map_.empty() || vp::items()[ids_[at_]].k != vp::BMAP) throw ParserException();
                    ++at_;
                    entries(n);
                }
                return true;
            }
    };
}
