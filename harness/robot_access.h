// access to a generated robot model by name; a robot is selected with the macros RB (prefix of robots.h), RNS and RDIR
#pragma once
#include <Eigen/Dense>
#include <Eigen/StdVector>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "robots.h"
typedef Eigen::Matrix3d M3;
typedef Eigen::Matrix4d M4;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
template <class M, class JS>
struct NamedTransform
{
    std::string a, b;
    std::function<M(const JS&)> f;
};
// DEFINE_ROBOT(struct name, namespace, prefix of the tables)
#define DEFINE_ROBOT(NAME, NS, P)                                                                              \
    struct NAME                                                                                                \
    {                                                                                                          \
        EIGEN_MAKE_ALIGNED_OPERATOR_NEW                                                                        \
        typedef iit::NS::tpl::Traits<double> T;                                                                \
        typedef T::JointState JS;                                                                              \
        enum { N = T::joints_count, FLOATING = T::floating_base };                                             \
        T::HomogeneousTransforms h;                                                                            \
        T::MotionTransforms m;                                                                                 \
        T::ForceTransforms f;                                                                                  \
        T::Jacobians j;                                                                                        \
        T::InertiaProperties ip;                                                                               \
        T::FwdDynEngine fd;                                                                                    \
        T::InvDynEngine id;                                                                                    \
        T::JSIM js;                                                                                            \
        typedef iit::NS::LinkDataMap<V6> Ext;                                                                  \
        typedef iit::NS::LinkIdentifiers LinkId;                                                               \
        NAME() : fd(ip, m), id(ip, m), js(ip, f) {}                                                            \
        static std::string base() { return BASE_STR(P); }                                                      \
        std::vector<std::pair<std::string, std::string>> links() { return {P##_LINKS(RLINK)}; }                \
        std::vector<NamedTransform<M4, JS>> hom() { return {P##_HOMOGENEOUS(RHOM)}; }                          \
        std::vector<NamedTransform<M6, JS>> mot() { return {P##_MOTION(RMOT)}; }                               \
        std::vector<NamedTransform<M6, JS>> frc() { return {P##_FORCE(RFRC)}; }                                \
        std::vector<NamedTransform<MX, JS>> jac() { return {P##_JACOBIANS(RJAC)}; }                            \
        std::vector<M6> tensors() { return {P##_LINKS(RTENSOR)}; }                                             \
        std::vector<double> masses() { return {P##_LINKS(RMASS)}; }                                            \
        std::vector<V3> coms() { return {P##_LINKS(RCOM)}; }                                                   \
        struct Motion                                                                                          \
        {                                                                                                      \
            V6 v, a, f;                                                                                        \
        };                                                                                                     \
        std::vector<Motion> motions() { return {P##_LINKS(RMOTION)}; }                                         \
    };
#define RSTR2(x) #x
#define RSTR(x) RSTR2(x)
#define BASE_STR(P) RSTR(P##_BASE)
#define RLINK(l, p) {"fr_" #l, "fr_" #p},
#define RHOM(A, B) {#A, #B, [this](const JS& q) { return M4(h.A##_X_##B(q)); }},
#define RMOT(A, B) {#A, #B, [this](const JS& q) { return M6(m.A##_X_##B(q)); }},
#define RFRC(A, B) {#A, #B, [this](const JS& q) { return M6(f.A##_X_##B(q)); }},
#define RJAC(A, B) {#A, #B, [this](const JS& q) { return MX(j.A##_J_##B(q)); }},
#define RTENSOR(l, p) M6(ip.getTensor_##l()),
#define RMASS(l, p) ip.getMass_##l(),
#define RCOM(l, p) V3(ip.getCOM_##l()),
#define RMOTION(l, p) Motion{id.getVelocity_##l(), id.getAcceleration_##l(), id.getForce_##l()},
// what the model is (pinned): kinematic tree, frames and inertias
struct FrameData
{
    const char* name;
    int link;  // -1: base
    double pose[12];
};
struct LinkData
{
    const char* name;
    int parent;       // -1: base
    double pose[12];  // parent_X_link at q = 0, row major 3x4
    double mass, com[3], I[9];
};
