// Stand-in for msgpack-c: objects are kept in memory, so that their values may be symbolic; a file
// contains only one line per packed object ("VPO <number>").  The behaviour follows the documentation of
// msgpack-c: types of objects, conversions (type_error when they are impossible), counts of entries.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
namespace msgpack
{
    namespace type { enum object_type { NIL, BOOLEAN, POSITIVE_INTEGER, NEGATIVE_INTEGER, FLOAT32, FLOAT64, STR, BIN, ARRAY, MAP, EXT, FLOAT = FLOAT64 }; }
    struct type_error : std::bad_cast { const char *what() const noexcept { return "std::bad_cast"; } };
    struct unpack_error : std::runtime_error { unpack_error() : std::runtime_error("parse error") {} };
    struct object;
    struct object_kv;
    struct object_array { uint32_t size; object *ptr; };
    struct object_map { uint32_t size; object_kv *ptr; };
    struct object
    {
        type::object_type type;
        struct { object_array array; object_map map; bool boolean; long i; double f64; } via;
        std::string str;
        object() : type(type::NIL) { via.array.size = 0; via.array.ptr = 0; via.map.size = 0; via.map.ptr = 0; via.boolean = false; via.i = 0; via.f64 = 0; }
        template <class T> T as() const;
    };
    struct object_kv { object key, val; };
    namespace vp
    {
        inline double number(const object &o)
        {
            if (o.type == type::FLOAT64) return o.via.f64;
            if (o.type == type::POSITIVE_INTEGER || o.type == type::NEGATIVE_INTEGER) return (double)o.via.i;
            throw type_error();
        }
        inline long integer(const object &o)
        {
            if (o.type == type::POSITIVE_INTEGER || o.type == type::NEGATIVE_INTEGER) return o.via.i;
            throw type_error();
        }
        inline long range(long v, long lo, long hi) { if (v < lo || v > hi) throw type_error(); return v; }
    }
    inline const object &operator>>(const object &o, double &v) { v = vp::number(o); return o; }
    inline const object &operator>>(const object &o, float &v) { v = vp::number(o); return o; }
    inline const object &operator>>(const object &o, int &v) { v = vp::range(vp::integer(o), -2147483647L - 1, 2147483647L); return o; }
    inline const object &operator>>(const object &o, unsigned &v) { v = vp::range(vp::integer(o), 0, 4294967295L); return o; }
    inline const object &operator>>(const object &o, long &v) { v = vp::integer(o); return o; }
    inline const object &operator>>(const object &o, unsigned long &v) { v = vp::range(vp::integer(o), 0, 9223372036854775807L); return o; }
    inline const object &operator>>(const object &o, bool &v) { if (o.type != type::BOOLEAN) throw type_error(); v = o.via.boolean; return o; }
    inline const object &operator>>(const object &o, std::string &v) { if (o.type != type::STR) throw type_error(); v = o.str; return o; }
    template <class T> const object &operator>>(const object &o, std::vector<T> &v)
    {
        if (o.type != type::ARRAY) throw type_error();
        v.resize(o.via.array.size);
        for (uint32_t i = 0; i < o.via.array.size; ++i) o.via.array.ptr[i] >> v[i];
        return o;
    }
    template <class T> T object::as() const { T v; *this >> v; return v; }

    namespace vp
    {
        // a packed item: a value, or a header of an array or of a map
        struct item { type::object_type t; std::string s; double f; long i; bool b; item() : t(type::NIL), f(0), i(0), b(false) {} };
        inline std::deque<item> &items() { static std::deque<item> x; return x; }
        inline void parse(const std::vector<long> &ids, size_t &at, object &o)
        {
            if (at >= ids.size() || ids[at] < 0 || ids[at] >= (long)items().size()) throw unpack_error();
            const item &k = items()[ids[at++]];
            o.type = k.t;
            switch (k.t)
            {
                case type::STR: o.str = k.s; break;
                case type::BOOLEAN: o.via.boolean = k.b; break;
                case type::POSITIVE_INTEGER: case type::NEGATIVE_INTEGER: o.via.i = k.i; break;
                case type::FLOAT64: o.via.f64 = k.f; break;
                case type::ARRAY:
                    o.via.array.size = k.i;
                    o.via.array.ptr = new object[k.i];
                    for (long i = 0; i < k.i; ++i) parse(ids, at, o.via.array.ptr[i]);
                    break;
                case type::MAP:
                    o.via.map.size = k.i;
                    o.via.map.ptr = new object_kv[k.i];
                    for (long i = 0; i < k.i; ++i) { parse(ids, at, o.via.map.ptr[i].key); parse(ids, at, o.via.map.ptr[i].val); }
                    break;
                default: break;
            }
        }
    }
    class object_handle
    {
            object o_;
        public:
            const object &get() const { return o_; }
            object &vpget() { return o_; }
    };
    inline void unpack(object_handle &h, const char *data, std::size_t len, std::size_t &offset)
    {
        // all numbers which follow the offset
        std::vector<long> ids;
        std::vector<size_t> ends;
        for (size_t i = offset; i < len;)
        {
            size_t e = i;
            while (e < len && data[e] != '\n') ++e;
            if (e >= len) break;
            std::string l(data + i, e - i);
            ids.push_back(l.compare(0, 4, "VPO ") == 0 ? atol(l.c_str() + 4) : -1);
            ends.push_back(e + 1);
            i = e + 1;
        }
        size_t at = 0;
        vp::parse(ids, at, h.vpget());
        offset = ends[at - 1];
    }
    template <class Stream> class packer
    {
            Stream &s_;
            packer &add(const vp::item &i)
            {
                vp::items().push_back(i);
                std::string l = "VPO " + std::to_string(vp::items().size() - 1) + "\n";
                s_.write(l.data(), l.size());
                return *this;
            }
            packer &integer(long v)
            {
                vp::item i; i.i = v; i.t = v < 0 ? type::NEGATIVE_INTEGER : type::POSITIVE_INTEGER;
                return add(i);
            }
        public:
            packer(Stream &s) : s_(s) {}
            packer(Stream *s) : s_(*s) {}
            packer &pack_map(uint32_t n) { vp::item i; i.t = type::MAP; i.i = n; return add(i); }
            packer &pack_array(uint32_t n) { vp::item i; i.t = type::ARRAY; i.i = n; return add(i); }
            packer &pack_int64(int64_t v) { return integer(v); }
            packer &pack_uint64(uint64_t v) { return integer(v); }
            packer &pack_int(int v) { return integer(v); }
            packer &pack_double(double v) { return pack(v); }
            packer &pack_nil() { return add(vp::item()); }
            packer &pack(double v) { vp::item i; i.t = type::FLOAT64; i.f = v; return add(i); }
            packer &pack(float v) { return pack((double)v); }
            packer &pack(bool v) { vp::item i; i.t = type::BOOLEAN; i.b = v; return add(i); }
            packer &pack(int v) { return integer(v); }
            packer &pack(unsigned v) { return integer(v); }
            packer &pack(long v) { return integer(v); }
            packer &pack(unsigned long v) { return integer(v); }
            packer &pack(const std::string &v) { vp::item i; i.t = type::STR; i.s = v; return add(i); }
            packer &pack(const char *v) { return pack(std::string(v)); }
            template <class T> packer &pack(const std::vector<T> &v)
            {
                pack_array(v.size());
                for (size_t i = 0; i < v.size(); ++i) pack(v[i]);
                return *this;
            }
    };
}
