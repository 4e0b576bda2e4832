// Stand-in for RBDL: the data structures and conventions the interface relies on.
// Spatial vectors are (angular, linear); X = (E, r): E rotates into the child frame,
// r is the position of the child frame in the parent frame.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <limits>
#include <cmath>
#include <stdexcept>
#include <Eigen/Core>
namespace RigidBodyDynamics
{
    namespace Math
    {
        typedef Eigen::Vector3d Vector3d;
        typedef Eigen::Matrix3d Matrix3d;
        typedef Eigen::VectorXd VectorNd;
        typedef Eigen::MatrixXd MatrixNd;
        typedef Eigen::Matrix<double, 6, 1> SpatialVector;
        typedef Eigen::Matrix<double, 6, 6> SpatialMatrix;
        typedef Eigen::Matrix<double, 6, 3> Matrix63;
        struct SpatialTransform
        {
            Matrix3d E;
            Vector3d r;
            SpatialTransform() : E(Matrix3d::Identity()), r(Vector3d::Zero()) {}
            SpatialTransform(const Matrix3d &e, const Vector3d &p) : E(e), r(p) {}
            SpatialVector apply(const SpatialVector &v) const
            {
                SpatialVector x;
                Vector3d w(v(0), v(1), v(2)), l(v(3) - r(1) * v(2) + r(2) * v(1), v(4) - r(2) * v(0) + r(0) * v(2), v(5) - r(0) * v(1) + r(1) * v(0));
                x << E * w, E * l;
                return x;
            }
            SpatialTransform inverse() const { return SpatialTransform(E.transpose(), -(E * r)); }
            SpatialMatrix toMatrix() const
            {
                Matrix3d rx;
                rx << 0, -r(2), r(1), r(2), 0, -r(0), -r(1), r(0), 0;
                SpatialMatrix m;
                m << E, Matrix3d::Zero(), -(E * rx), E;
                return m;
            }
            SpatialTransform operator*(const SpatialTransform &o) const { return SpatialTransform(E * o.E, o.r + o.E.transpose() * r); }
        };
    }
    enum JointType { JointTypeUndefined = 0, JointTypeRevolute, JointTypePrismatic, JointTypeEulerXYZ, JointTypeTranslationXYZ, JointTypeFixed, JointTypeCustom };
    struct Body
    {
        double mMass;
        Math::Vector3d mCenterOfMass;
        Body() : mMass(0), mCenterOfMass(Math::Vector3d::Zero()) {}
        Body(double m, const Math::Vector3d &c) : mMass(m), mCenterOfMass(c) {}
    };
    struct FixedBody
    {
        double mMass;
        Math::Vector3d mCenterOfMass;
        unsigned int mMovableParent;
        Math::SpatialTransform mParentTransform;
    };
    struct Joint
    {
        JointType mJointType;
        unsigned int mDoFCount, q_index, custom_joint_index;
        Math::Vector3d axis;
        Joint() : mJointType(JointTypeUndefined), mDoFCount(0), q_index(0), custom_joint_index(0), axis(Math::Vector3d::Zero()) {}
        Joint(JointType t, const Math::Vector3d &a = Math::Vector3d::Zero()) : mJointType(t), mDoFCount(0), q_index(0), custom_joint_index(0), axis(a)
        {
            mDoFCount = (t == JointTypeRevolute || t == JointTypePrismatic) ? 1 : (t == JointTypeEulerXYZ || t == JointTypeTranslationXYZ) ? 3 : 0;
        }
    };
    struct CustomJoint
    {
        unsigned int mDoFCount;
        Math::SpatialTransform XJ;
        Math::MatrixNd S;
        virtual ~CustomJoint() {}
        virtual void jcalc(const double *q) = 0;
    };
    struct Model
    {
        std::vector<unsigned int> lambda;
        unsigned int q_size, dof_count, fixed_body_discriminator;
        std::vector<Joint> mJoints;
        std::vector<Math::SpatialVector> S;
        std::vector<Math::Matrix63> multdof3_S;
        std::vector<Math::SpatialTransform> X_T, X_lambda, X_base;
        std::vector<Body> mBodies;
        std::vector<FixedBody> mFixedBodies;
        std::vector<CustomJoint *> mCustomJoints;
        std::map<std::string, unsigned int> mBodyNameMap;
        Model() : q_size(0), dof_count(0), fixed_body_discriminator(std::numeric_limits<unsigned int>::max() / 2)
        {
            add(0, Math::SpatialTransform(), Joint(), Body());
            mBodyNameMap["ROOT"] = 0;
        }
        unsigned int GetBodyId(const char *n) const
        {
            std::map<std::string, unsigned int>::const_iterator i = mBodyNameMap.find(n);
            return i == mBodyNameMap.end() ? std::numeric_limits<unsigned int>::max() : i->second;
        }
        unsigned int AddBody(unsigned int parent, const Math::SpatialTransform &frame, const Joint &joint, const Body &body, const std::string &name = "")
        {
            if (!name.empty() && mBodyNameMap.count(name)) throw std::logic_error("a body with this name exists already: " + name);
            unsigned int movable = parent;
            Math::SpatialTransform x = frame;
            if (parent >= fixed_body_discriminator)
            {
                const FixedBody &p = mFixedBodies[parent - fixed_body_discriminator];
                movable = p.mMovableParent;
                x = frame * p.mParentTransform;
            }
            unsigned int id;
            if (joint.mJointType == JointTypeFixed)
            {
                FixedBody f;
                f.mMass = body.mMass; f.mCenterOfMass = body.mCenterOfMass; f.mMovableParent = movable; f.mParentTransform = x;
                Body &p = mBodies[movable];
                if (body.mMass != 0)
                {
                    double m = p.mMass + body.mMass;
                    p.mCenterOfMass = Math::Vector3d((p.mMass * p.mCenterOfMass + body.mMass * (x.E.transpose() * body.mCenterOfMass + x.r)) / m);
                    p.mMass = m;
                }
                mFixedBodies.push_back(f);
                id = fixed_body_discriminator + mFixedBodies.size() - 1;
            }
            else
            {
                id = add(movable, x, joint, body);
            }
            if (!name.empty()) mBodyNameMap[name] = id;
            return id;
        }
        unsigned int AddBodyCustomJoint(unsigned int parent, const Math::SpatialTransform &frame, CustomJoint *custom, const Body &body, const std::string &name = "")
        {
            Joint j(JointTypeCustom);
            j.mDoFCount = custom->mDoFCount;
            j.custom_joint_index = mCustomJoints.size();
            mCustomJoints.push_back(custom);
            return AddBody(parent, frame, j, body, name);
        }

      private:
        unsigned int add(unsigned int parent, const Math::SpatialTransform &frame, Joint joint, const Body &body)
        {
            joint.q_index = q_size;
            q_size += joint.mDoFCount;
            dof_count += joint.mDoFCount;
            lambda.push_back(parent);
            mJoints.push_back(joint);
            Math::SpatialVector s = Math::SpatialVector::Zero();
            if (joint.mJointType == JointTypeRevolute) s << joint.axis, 0, 0, 0;
            if (joint.mJointType == JointTypePrismatic) s << 0, 0, 0, joint.axis;
            S.push_back(s);
            multdof3_S.push_back(Math::Matrix63::Zero());
            X_T.push_back(frame);
            X_lambda.push_back(Math::SpatialTransform());
            X_base.push_back(Math::SpatialTransform());
            mBodies.push_back(body);
            return mBodies.size() - 1;
        }
    };
    namespace Math
    {
        // rotation about a unit axis
        inline Matrix3d rotation(const Vector3d &a, double q)
        {
            double s = std::sin(q), c = std::cos(q);
            Matrix3d k;
            k << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
            return Matrix3d(Matrix3d::Identity() + s * k + (1 - c) * (k * k));
        }
    }
    inline void UpdateKinematicsCustom(Model &m, const Math::VectorNd *Q, const Math::VectorNd *, const Math::VectorNd *)
    {
        using namespace Math;
        if (!Q) return;
        if ((unsigned int)Q->size() != m.q_size) throw std::logic_error("wrong number of generalized coordinates");
        for (unsigned int i = 1; i < m.mBodies.size(); ++i)
        {
            const Joint &j = m.mJoints[i];
            SpatialTransform xj;
            switch (j.mJointType)
            {
                case JointTypeRevolute: xj.E = rotation(j.axis, (*Q)(j.q_index)).transpose(); break;
                case JointTypePrismatic: xj.r = j.axis * (*Q)(j.q_index); break;
                case JointTypeTranslationXYZ:
                    for (int k = 0; k < 3; ++k) { xj.r(k) = (*Q)(j.q_index + k); m.multdof3_S[i](3 + k, k) = 1; }
                    break;
                case JointTypeEulerXYZ:
                {
                    // rotation about x, then about the new y, then about the new z
                    Matrix3d x = rotation(Vector3d::UnitX(), (*Q)(j.q_index)), y = rotation(Vector3d::UnitY(), (*Q)(j.q_index + 1)), z = rotation(Vector3d::UnitZ(), (*Q)(j.q_index + 2));
                    xj.E = (x * y * z).transpose();
                    m.multdof3_S[i].setZero();
                    m.multdof3_S[i].col(0).head(3) = (y * z).transpose().col(0);
                    m.multdof3_S[i].col(1).head(3) = z.transpose().col(1);
                    m.multdof3_S[i].col(2).head(3) = Vector3d::UnitZ();
                    break;
                }
                case JointTypeCustom:
                {
                    CustomJoint *c = m.mCustomJoints[j.custom_joint_index];
                    c->jcalc(Q->data() + j.q_index);
                    xj = c->XJ;
                    break;
                }
                default: break;
            }
            m.X_lambda[i] = xj * m.X_T[i];
            m.X_base[i] = m.lambda[i] ? m.X_lambda[i] * m.X_base[m.lambda[i]] : m.X_lambda[i];
        }
    }
}
