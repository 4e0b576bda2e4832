// Stand-in for the URDF reader of RBDL: bodies are added depth first, children in the
// order of names of joints; floating joints become TX TY TZ RX RY RZ, planar TX TY RZ.
#pragma once
#include "../../rbdl.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace RigidBodyDynamics
{
    namespace Addons
    {
        struct VpUrdf
        {
            struct Link { double mass; Math::Vector3d com; Link() : mass(0), com(Math::Vector3d::Zero()) {} };
            struct Jnt { std::string type, parent, child; Math::Vector3d xyz, rpy, axis; double lower, upper, velocity;
                         Jnt() : xyz(Math::Vector3d::Zero()), rpy(Math::Vector3d::Zero()), axis(1, 0, 0), lower(0), upper(0), velocity(0) {} };
            std::map<std::string, Link> links;
            std::map<std::string, Jnt> joints;
            static std::string attr(const std::string &tag, const char *name)
            {
                std::string k = std::string(" ") + name + "=\"";
                std::size_t p = tag.find(k);
                if (p == std::string::npos) return "";
                p += k.size();
                return tag.substr(p, tag.find('"', p) - p);
            }
            static Math::Vector3d vec(const std::string &s)
            {
                Math::Vector3d v(0, 0, 0);
                const char *p = s.c_str();
                for (int i = 0; i < 3; ++i) { char *e; v(i) = strtod(p, &e); p = e; }
                return v;
            }
            bool load(const char *file)
            {
                FILE *f = fopen(file, "r");
                if (!f) return false;
                std::string t;
                char buf[4096];
                for (std::size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) t.append(buf, n);
                fclose(f);
                // 1: link, 2: joint; other: -
                int in = 0; bool inertial = false; std::string name;
                for (std::size_t p = 0; (p = t.find('<', p)) != std::string::npos;)
                {
                    if (t.compare(p, 4, "<!--") == 0) { p = t.find("-->", p); continue; }
                    std::size_t e = t.find('>', p);
                    std::string tag = t.substr(p + 1, e - p - 1);
                    for (std::size_t i = 0; i < tag.size(); ++i) if (tag[i] == '\n' || tag[i] == '\t') tag[i] = ' ';
                    p = e;
                    bool closed = !tag.empty() && tag[tag.size() - 1] == '/';
                    std::string id = tag.substr(0, tag.find_first_of(" /", 1));
                    if (in == 0 && id == "link") { name = attr(tag, "name"); links[name]; if (!closed) in = 1; }
                    else if (in == 0 && id == "joint" && !attr(tag, "type").empty()) { name = attr(tag, "name"); joints[name].type = attr(tag, "type"); in = 2; }
                    else if (in == 0 && (id == "gazebo" || id == "transmission") && !closed) { std::string end = "</" + id; p = t.find(end, p); }
                    else if (in == 1 && id == "inertial") inertial = true;
                    else if (in == 1 && id == "/inertial") inertial = false;
                    else if (in == 1 && inertial && id == "mass") links[name].mass = atof(attr(tag, "value").c_str());
                    else if (in == 1 && inertial && id == "origin") links[name].com = vec(attr(tag, "xyz"));
                    else if (id == "/link" || id == "/joint") in = 0;
                    else if (in == 2 && id == "parent") joints[name].parent = attr(tag, "link");
                    else if (in == 2 && id == "child") joints[name].child = attr(tag, "link");
                    else if (in == 2 && id == "axis") joints[name].axis = vec(attr(tag, "xyz"));
                    else if (in == 2 && id == "origin") { joints[name].xyz = vec(attr(tag, "xyz")); joints[name].rpy = vec(attr(tag, "rpy")); }
                    else if (in == 2 && id == "limit")
                    {
                        joints[name].lower = atof(attr(tag, "lower").c_str());
                        joints[name].upper = atof(attr(tag, "upper").c_str());
                        joints[name].velocity = atof(attr(tag, "velocity").c_str());
                    }
                }
                return !links.empty();
            }
            static Math::Matrix3d rpyMatrix(const Math::Vector3d &a)
            {
                using namespace Math;
                return Matrix3d(rotation(Vector3d::UnitZ(), a(2)) * rotation(Vector3d::UnitY(), a(1)) * rotation(Vector3d::UnitX(), a(0)));
            }
            std::vector<std::string> order; // names of the joints in the order of generalized coordinates
            void add(Model &m, const std::string &link, unsigned int id)
            {
                for (std::map<std::string, Jnt>::const_iterator i = joints.begin(); i != joints.end(); ++i)
                {
                    const Jnt &j = i->second;
                    if (j.parent != link) continue;
                    Math::SpatialTransform x(rpyMatrix(j.rpy).transpose(), j.xyz), none;
                    Body b(links[j.child].mass, links[j.child].com), empty;
                    unsigned int c = 0;
                    using Math::Vector3d;
                    if (j.type == "fixed") c = m.AddBody(id, x, Joint(JointTypeFixed), b, j.child);
                    else if (j.type == "prismatic") { c = m.AddBody(id, x, Joint(JointTypePrismatic, j.axis), b, j.child); order.push_back(i->first); }
                    else if (j.type == "floating" || j.type == "planar")
                    {
                        bool fl = j.type == "floating";
                        c = m.AddBody(id, x, Joint(JointTypePrismatic, Vector3d::UnitX()), empty);
                        c = m.AddBody(c, none, Joint(JointTypePrismatic, Vector3d::UnitY()), empty);
                        if (fl)
                        {
                            c = m.AddBody(c, none, Joint(JointTypePrismatic, Vector3d::UnitZ()), empty);
                            c = m.AddBody(c, none, Joint(JointTypeRevolute, Vector3d::UnitX()), empty);
                            c = m.AddBody(c, none, Joint(JointTypeRevolute, Vector3d::UnitY()), empty);
                        }
                        c = m.AddBody(c, none, Joint(JointTypeRevolute, Vector3d::UnitZ()), b, j.child);
                    }
                    else { c = m.AddBody(id, x, Joint(JointTypeRevolute, j.axis), b, j.child); order.push_back(i->first); }
                    add(m, j.child, c);
                }
            }
            std::string root() const
            {
                for (std::map<std::string, Link>::const_iterator l = links.begin(); l != links.end(); ++l)
                {
                    bool child = false;
                    for (std::map<std::string, Jnt>::const_iterator i = joints.begin(); i != joints.end(); ++i) child = child || i->second.child == l->first;
                    if (!child) return l->first;
                }
                return "";
            }
        };
        // models made by a harness are loaded by name
        inline std::map<std::string, Model> &vpModels() { static std::map<std::string, Model> m; return m; }
        inline bool URDFReadFromFile(const char *file, Model *m, bool, bool)
        {
            if (vpModels().count(file)) { *m = vpModels()[file]; return true; }
            VpUrdf u;
            if (!u.load(file)) return false;
            u.add(*m, u.root(), 0);
            return true;
        }
    }
}
