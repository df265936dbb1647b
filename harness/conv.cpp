// Conversions between representations, colors and printing.
#include "common.hpp"

#include <deque>
#include <forward_list>
#include <list>

#include <common_robotics_utilities/color_builder.hpp>
#include <common_robotics_utilities/conversions.hpp>
#include <common_robotics_utilities/print.hpp>
#if VT_PROP == 47
#include <common_robotics_utilities/ros_conversions.hpp>
#include <common_robotics_utilities/ros_helpers.hpp>
#endif

using namespace vt;
namespace cru = common_robotics_utilities;

namespace
{
using V3 = Eigen::Vector3d;
using VX = Eigen::VectorXd;
using Q = Eigen::Quaterniond;
using Iso = Eigen::Isometry3d;

uint64_t HashD(double v)
{
  uint64_t u;
  std::memcpy(&u, &v, sizeof(u));
  return u;
}

double Angle(Rng& rng)
{
  switch (rng.Int(0, 6))
  {
    case 0: return 0.0;
    case 1: return static_cast<double>(rng.Int(-8, 8)) * M_PI / 4.0;
    case 2: return M_PI / 2.0 * (rng.Chance(0.5) ? 1 : -1) + rng.Real(-1e-7, 1e-7);
    case 3: return rng.Real(-1e-8, 1e-8);
    default: return rng.Real(-7, 7);
  }
}

#if VT_PROP == 47
namespace cv = cru::conversions;
namespace rc = cru::ros_conversions;

template<typename Fn>
void Rejects(const char* key, const Fn& fn)
{
  const Thrown t = Catch(fn);
  VT_CHECK(t == Thrown::INVALID_ARGUMENT, key, static_cast<int>(t));
  Count("bad_inputs");
}

Eigen::Matrix3d Rx(double a) { Eigen::Matrix3d m; m << 1, 0, 0, 0, std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a); return m; }
Eigen::Matrix3d Ry(double a) { Eigen::Matrix3d m; m << std::cos(a), 0, std::sin(a), 0, 1, 0, -std::sin(a), 0, std::cos(a); return m; }
Eigen::Matrix3d Rz(double a) { Eigen::Matrix3d m; m << std::cos(a), -std::sin(a), 0, std::sin(a), std::cos(a), 0, 0, 0, 1; return m; }

void IsPose(const Iso& got, const V3& t, const Eigen::Matrix3d& r, const char* key, const std::string& how)
{
  VT_CHECK((got.translation() - t).norm() == 0, key, "translation ", got.translation().transpose(), " for ", how);
  VT_CHECK((got.linear() - r).norm() <= 1e-12, key, "rotation off by ", (got.linear() - r).norm(), " for ", how);
  VT_CHECK(got.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), key, "last row ", got.matrix().row(3), " for ", how);
}

void Poses(Rng& rng, uint64_t)
{
  uint64_t h = 3;
  for (int64_t k = 0; k < 8; k++)
  {
    const double R = Angle(rng), P = Angle(rng), Y = Angle(rng);
    const V3 t(rng.Wild(), rng.Wild(), rng.Wild());
    const std::string how = Str(R, " ", P, " ", Y, " at ", t.transpose());
    h = Combine(Combine(h, HashD(R)), HashD(P) ^ HashD(Y));
    const Eigen::Matrix3d fixed = Rx(R) * Ry(P) * Rz(Y), urdf = Rz(Y) * Ry(P) * Rx(R);
    VX six(6);
    six << t, R, P, Y;
    VT_CHECK((cv::QuaternionFromRPY(R, P, Y).toRotationMatrix() - fixed).norm() <= 1e-12, "rpy-quaternion", how);
    VT_CHECK((cv::QuaternionFromUrdfRPY(R, P, Y).toRotationMatrix() - urdf).norm() <= 1e-12, "urdf-quaternion", how);
    const Iso pose = cv::TransformFromRPY(six);
    IsPose(pose, t, fixed, "rpy-transform-vector", how);
    IsPose(cv::TransformFromRPY(t, V3(R, P, Y)), t, fixed, "rpy-transform", how);
    IsPose(cv::TransformFromXYZRPY(t.x(), t.y(), t.z(), R, P, Y), t, fixed, "xyzrpy-transform", how);
    IsPose(cv::TransformFromUrdfRPY(six), t, urdf, "urdf-transform-vector", how);
    IsPose(cv::TransformFromUrdfRPY(t, V3(R, P, Y)), t, urdf, "urdf-transform", how);
    IsPose(cv::TransformFromUrdfXYZRPY(t.x(), t.y(), t.z(), R, P, Y), t, urdf, "urdf-xyzrpy-transform", how);
    // Angles recovered from a rotation rebuild it, also at gimbal lock.
    const VX back = cv::TransformToRPY(pose);
    VT_CHECK(back.size() == 6 && back.head<3>() == t, "to-rpy-translation", back.transpose(), " for ", how);
    VT_CHECK((cv::TransformFromRPY(back).linear() - fixed).norm() <= 1e-7, "to-rpy-round-trip", back.transpose(), " for ", how);
    for (const V3& e : {cv::EulerAnglesFromRotationMatrix(fixed), cv::EulerAnglesFromQuaternion(Q(fixed)), cv::EulerAnglesFromIsometry3d(pose)})
    {
      VT_CHECK(e.allFinite() && (Rx(e.x()) * Ry(e.y()) * Rz(e.z()) - fixed).norm() <= 1e-7, "euler-angles", e.transpose(), " for ", how);
    }
    Count("poses");

    // ROS messages.
    const Q q = Q(fixed);
    const Q negated(-q.w(), -q.x(), -q.y(), -q.z());
    const Q sent = rng.Chance(0.5) ? q : negated;
    const auto quat = rc::EigenQuaterniondToGeometryQuaternion(sent);
    VT_CHECK(quat.w == sent.w() && quat.x == sent.x() && quat.y == sent.y() && quat.z == sent.z(), "ros-quaternion", how);
    VT_CHECK(rc::GeometryQuaternionToEigenQuaterniond(quat).coeffs() == sent.coeffs(), "ros-quaternion-back", how);
    const auto msg = rc::EigenIsometry3dToGeometryPose(pose);
    VT_CHECK(msg.position.x == t.x() && msg.position.y == t.y() && msg.position.z == t.z(), "ros-pose-position", how);
    IsPose(rc::GeometryPoseToEigenIsometry3d(msg), t, fixed, "ros-pose-round-trip", how);
    const auto tf = rc::EigenIsometry3dToGeometryTransform(pose);
    VT_CHECK(tf.translation.x == t.x() && tf.translation.y == t.y() && tf.translation.z == t.z(), "ros-transform-translation", how);
    IsPose(rc::GeometryTransformToEigenIsometry3d(tf), t, fixed, "ros-transform-round-trip", how);
    const Q mq(msg.orientation.w, msg.orientation.x, msg.orientation.y, msg.orientation.z);
    VT_CHECK((mq.toRotationMatrix() - fixed).norm() <= 1e-12, "ros-pose-orientation", how);
    const auto stamped = rc::EigenIsometry3dToGeometryPoseStamped(pose, "frame" + std::to_string(k));
    VT_CHECK(stamped.header.frame_id == "frame" + std::to_string(k), "ros-pose-frame", stamped.header.frame_id);
    IsPose(rc::GeometryPoseToEigenIsometry3d(stamped.pose), t, fixed, "ros-pose-stamped", how);
    const auto tfs = rc::EigenIsometry3dToGeometryTransformStamped(pose, "parent", "child" + std::to_string(k));
    VT_CHECK(tfs.header.frame_id == "parent" && tfs.child_frame_id == "child" + std::to_string(k), "ros-transform-frames", tfs.header.frame_id);
    IsPose(rc::GeometryTransformToEigenIsometry3d(tfs.transform), t, fixed, "ros-transform-stamped", how);
    const auto ps = rc::EigenVector3dToGeometryPointStamped(t, "world");
    VT_CHECK(ps.header.frame_id == "world" && rc::GeometryPointToEigenVector3d(ps.point) == t, "ros-point-stamped", how);
    const Eigen::Vector4d p4(t.x(), t.y(), t.z(), 1.0), v4(t.x(), t.y(), t.z(), 0.0);
    VT_CHECK(rc::GeometryPointToEigenVector4d(rc::EigenVector4dToGeometryPoint(p4)) == p4, "ros-point-4d", how);
    VT_CHECK(rc::GeometryPointToEigenVector3d(rc::EigenVector3dToGeometryPoint(t)) == t, "ros-point-3d", how);
    VT_CHECK(rc::GeometryVector3ToEigenVector4d(rc::EigenVector4dToGeometryVector3(v4)) == v4, "ros-vector-4d", how);
    VT_CHECK(rc::GeometryVector3ToEigenVector3d(rc::EigenVector3dToGeometryVector3(t)) == t, "ros-vector-3d", how);
    Count("messages");
  }
  Nontrivial(h);
}

void Containers(Rng& rng, uint64_t)
{
  uint64_t h = 5;
  const size_t n = rng.Size(0, 8);
  std::vector<double> v;
  for (size_t i = 0; i < n; i++)
  {
    v.push_back(rng.Wild());
    h = Combine(h, HashD(v.back()));
  }
  const VX x = cv::StdVectorDoubleToEigenVectorXd(v);
  VT_CHECK(static_cast<size_t>(x.size()) == n, "vector-size", x.size());
  for (size_t i = 0; i < n; i++) { VT_CHECK(x(static_cast<ssize_t>(i)) == v[i], "vector-element", i); }
  VT_CHECK(cv::EigenVectorXdToStdVectorDouble(x) == v, "vector-round-trip", n);
  if (n == 3)
  {
    const V3 t = cv::StdVectorDoubleToEigenVector3d(v);
    VT_CHECK(t.x() == v[0] && t.y() == v[1] && t.z() == v[2] && cv::EigenVector3dToStdVectorDouble(t) == v, "vector3-round-trip", t.transpose());
  }
  else { Rejects("vector3-size", [&] { cv::StdVectorDoubleToEigenVector3d(v); }); }
  if (n == 4)
  {
    const Q q = cv::StdVectorDoubleToEigenQuaterniond(v);
    VT_CHECK(q.x() == v[0] && q.y() == v[1] && q.z() == v[2] && q.w() == v[3], "quaternion-order", q.coeffs().transpose());
    VT_CHECK(cv::EigenQuaterniondToStdVectorDouble(q) == v, "quaternion-round-trip", q.coeffs().transpose());
  }
  else { Rejects("quaternion-size", [&] { cv::StdVectorDoubleToEigenQuaterniond(v); }); }
  if (n != 6)
  {
    Rejects("rpy-size", [&] { cv::TransformFromRPY(x); });
    Rejects("rpy-size", [&] { cv::TransformFromUrdfRPY(x); });
  }
  Count("vectors");

  // Lists of messages, element by element.
  cru::math::VectorVector3d points;
  cru::math::VectorIsometry3d poses;
  std::vector<rc::GeometryVector3> directions;
  Eigen::Matrix3Xd matrix(3, n);
  for (size_t i = 0; i < n; i++)
  {
    points.push_back(V3(rng.Wild(), rng.Wild(), rng.Wild()));
    matrix.col(static_cast<ssize_t>(i)) = points.back();
    poses.push_back(Eigen::Translation3d(points.back()) * Q(Eigen::AngleAxisd(Angle(rng), V3(0.6, 0, 0.8))));
    directions.push_back(rc::EigenVector3dToGeometryVector3(points.back()));
  }
  const auto messages = rc::VectorEigenVector3dToVectorGeometryPoint(points);
  VT_CHECK(messages.size() == n && rc::VectorGeometryPointToVectorEigenVector3d(messages) == points, "ros-points", n);
  VT_CHECK(rc::VectorGeometryVector3ToEigenVector3d(directions) == points, "ros-vectors", n);
  const Eigen::Matrix3Xd m = rc::VectorGeometryPointToEigenMatrix3Xd(messages);
  VT_CHECK(m.cols() == matrix.cols() && m == matrix, "ros-matrix", n);
  const auto again = rc::EigenMatrix3XdToVectorGeometryPoint(matrix);
  VT_CHECK(again.size() == n && rc::VectorGeometryPointToVectorEigenVector3d(again) == points, "ros-matrix-back", n);
  const auto pose_msgs = rc::VectorIsometry3dToVectorGeometryPose(poses);
  const auto tf_msgs = rc::VectorIsometry3dToVectorGeometryTransform(poses);
  const auto back1 = rc::VectorGeometryPoseToVectorIsometry3d(pose_msgs);
  const auto back2 = rc::VectorGeometryPoseToVectorIsometry3d(tf_msgs);
  VT_CHECK(pose_msgs.size() == n && tf_msgs.size() == n && back1.size() == n && back2.size() == n, "ros-poses-size", n);
  for (size_t i = 0; i < n; i++)
  {
    IsPose(back1[i], points[i], poses[i].linear(), "ros-poses", Str(i));
    IsPose(back2[i], points[i], poses[i].linear(), "ros-transforms", Str(i));
  }
  visualization_msgs::MarkerArray markers;
  markers.markers.resize(n);
  for (size_t i = 0; i < n; i++) { markers.markers[i].id = static_cast<int32_t>(i); }
  ros::Time stamp;
  stamp.sec = static_cast<uint32_t>(rng.Int(1, 1000));
  cru::ros_helpers::SetMessageTimestamps(markers, stamp);
  for (size_t i = 0; i < n; i++) { VT_CHECK(markers.markers[i].header.stamp == stamp && markers.markers[i].id == static_cast<int32_t>(i), "ros-timestamps", i); }
  std::vector<geometry_msgs::PointStamped> stamped(n);
  cru::ros_helpers::SetMessageTimestamps<geometry_msgs::PointStamped>(stamped, stamp);
  for (const auto& s : stamped) { VT_CHECK(s.header.stamp == stamp, "ros-timestamps-vector", n); }
  Nontrivial(h);
}
#endif

#if VT_PROP == 48
namespace cb = cru::color_builder;
using Color = cb::RGBAColor;

struct PlainColor { float r = -1, g = -1, b = -1, a = -1; };
struct DoubleColor { double r = -1, g = -1, b = -1, a = -1; };

float Channel(Rng& rng)
{
  switch (rng.Int(0, 5))
  {
    case 0: return static_cast<float>(rng.Int(-2, 3));
    case 1: return static_cast<float>(rng.Real(-10, 10));
    case 2: return static_cast<float>(rng.Int(0, 510)) / 510.0f;
    case 3: return rng.Chance(0.5) ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::infinity();
    default: return static_cast<float>(rng.Unit());
  }
}
float Clamped(float v) { return v < 0 ? 0.0f : v > 1 ? 1.0f : v; }

template<typename C>
void IsColor(const C& c, float r, float g, float b, float a, const char* key)
{
  VT_CHECK(c.r == r && c.g == g && c.b == b && c.a == a, key, c.r, " ", c.g, " ", c.b, " ", c.a, " not ", r, " ", g, " ", b, " ", a);
}

void Colors(Rng& rng, uint64_t)
{
  const float r = Channel(rng), g = Channel(rng), b = Channel(rng), a = Channel(rng);
  uint64_t h = Combine(HashD(r), HashD(g) ^ HashD(b));
  const auto byte = [&] { return static_cast<uint8_t>(rng.Int(0, 255)); };
  const uint8_t hr = byte(), hg = byte(), hb = byte(), ha = byte();
  auto f = [](uint8_t v) { return static_cast<float>(v) / 255.0f; };
  IsColor(Color(r, g, b, a), Clamped(r), Clamped(g), Clamped(b), Clamped(a), "color-floats");
  IsColor(Color(r, g, b), Clamped(r), Clamped(g), Clamped(b), 1.0f, "color-floats-opaque");
  IsColor(Color(hr, hg, hb, ha), f(hr), f(hg), f(hb), f(ha), "color-bytes");
  IsColor(Color(hr, hg, hb), f(hr), f(hg), f(hb), 1.0f, "color-bytes-opaque");
  IsColor(Color(hr, hg, hb, a), f(hr), f(hg), f(hb), Clamped(a), "color-mixed");
  IsColor(cb::MakeFromFloatColors<PlainColor>(r, g, b, a), Clamped(r), Clamped(g), Clamped(b), Clamped(a), "make-floats");
  IsColor(cb::MakeFromHexColors<PlainColor>(hr, hg, hb, ha), f(hr), f(hg), f(hb), f(ha), "make-bytes");
  IsColor(cb::MakeFromMixedColors<PlainColor>(hr, hg, hb, a), f(hr), f(hg), f(hb), Clamped(a), "make-mixed");
  const DoubleColor d = cb::ConvertColor<Color, DoubleColor>(Color(r, g, b, a));
  VT_CHECK(d.r == Clamped(r) && d.g == Clamped(g) && d.b == Clamped(b) && d.a == Clamped(a), "convert-color", d.r, " ", d.g, " ", d.b, " ", d.a);
  const Color c(hr, hg, hb, ha);
  VT_CHECK(c.GetRHex() == hr && c.GetGHex() == hg && c.GetBHex() == hb && c.GetAHex() == ha, "color-bytes-round-trip", +hr, " ", +hg, " ", +hb, " ", +ha);
  Color s;
  s.SetR(r); s.SetG(g); s.SetB(b); s.SetA(a);
  IsColor(s, Clamped(r), Clamped(g), Clamped(b), Clamped(a), "color-set");
  VT_CHECK(s.R() == s.r && s.G() == s.g && s.B() == s.b && s.A() == s.a, "color-get", s.r);
  VT_CHECK(s.GetRHex() == static_cast<uint8_t>(std::floor(static_cast<double>(Clamped(r)) * 255.0 + 0.5))
               || std::abs(Clamped(r) * 255.0 - std::floor(Clamped(r) * 255.0) - 0.5) < 1e-4,
           "color-nearest-byte", +s.GetRHex(), " for ", r);
  s.SetRHex(hg); s.SetGHex(hb); s.SetBHex(ha); s.SetAHex(hr);
  IsColor(s, f(hg), f(hb), f(ha), f(hr), "color-set-bytes");
  const float tol = static_cast<float>(rng.Int(0, 4)) * 0.125f;
  const Color e(0.5f, 0.5f, 0.5f, 0.5f);
  Color o = e;
  const float delta = static_cast<float>(rng.Int(-4, 4)) * 0.125f;
  switch (rng.Int(0, 3)) { case 0: o.r += delta; break; case 1: o.g += delta; break; case 2: o.b += delta; break; default: o.a += delta; }
  VT_CHECK(cb::ColorsEqual(e, o, tol) == (std::abs(delta) <= tol) && cb::ColorsEqual(o, e, tol) == (std::abs(delta) <= tol), "colors-equal", delta, " tolerance ", tol);
  Count("colors");

  // Hot to cold: within range, blue at the bottom, red at the top, no jumps.
  const double lo = rng.Wild(100), span = rng.Chance(0.1) ? 0.0 : rng.Real(0.01, 50), hi = lo + span;
  const PlainColor bottom = cb::InterpolateHotToCold<PlainColor>(lo, lo, hi);
  if (span > 0)
  {
    IsColor(bottom, 0, 0, 1, 1, "hot-to-cold-bottom");
    const PlainColor top = cb::InterpolateHotToCold<PlainColor>(hi, lo, hi);
    VT_CHECK(top.r == 1 && std::abs(top.g) <= 1e-5 && top.b == 0 && top.a == 1, "hot-to-cold-top", top.r, " ", top.g, " ", top.b);
  }
  PlainColor before = bottom;
  for (int k = 0; k <= 64; k++)
  {
    const double u = k / 64.0;
    const PlainColor p = cb::InterpolateHotToCold<PlainColor>(lo + u * span, lo, hi);
    const float all[4] = {p.r, p.g, p.b, p.a};
    for (const float x : all) { VT_CHECK(x >= 0 && x <= 1, "hot-to-cold-out-of-range", x, " at ", u, " span ", span); }
    VT_CHECK(p.a == 1 && p.r >= before.r - 1e-5 && p.b <= before.b + 1e-5, "hot-to-cold-not-monotone", p.r, " ", p.b, " at ", u);
    VT_CHECK(std::abs(p.r - before.r) + std::abs(p.g - before.g) + std::abs(p.b - before.b) <= 4.0 / 64 + 1e-4, "hot-to-cold-jumps", "at ", u, " span ", span);
    before = p;
    if (span > 0)
    {
      const double quarter = 4.0 * u;
      const double wr = quarter < 2 ? 0 : quarter < 3 ? quarter - 2 : 1;
      const double wg = quarter < 1 ? quarter : quarter < 3 ? 1 : 4 - quarter;
      const double wb = quarter < 1 ? 1 : quarter < 2 ? 2 - quarter : 0;
      VT_CHECK(std::abs(p.r - wr) <= 1e-4 && std::abs(p.g - wg) <= 1e-4 && std::abs(p.b - wb) <= 1e-4, "hot-to-cold-color", p.r, " ", p.g, " ", p.b, " at ", u);
    }
  }
  if (span > 0)
  {
    const PlainColor under = cb::InterpolateHotToCold<PlainColor>(lo - rng.Real(0, 9), lo, hi);
    IsColor(under, 0, 0, 1, 1, "hot-to-cold-below");
    const PlainColor over = cb::InterpolateHotToCold<PlainColor>(hi + rng.Real(0, 9), lo, hi);
    VT_CHECK(over.r == 1 && std::abs(over.g) <= 1e-5 && over.b == 0, "hot-to-cold-above", over.r, " ", over.g, " ", over.b);
  }
  Count(span > 0 ? "gradients" : "empty_gradients");

  // Unique colors.
  std::set<std::vector<float>> seen;
  for (uint32_t code = 1; code <= 20; code++)
  {
    const Color u = cb::LookupUniqueColor<Color>(code, a);
    VT_CHECK(u.a == Clamped(a), "unique-color-alpha", u.a, " not ", a);
    VT_CHECK(seen.insert({u.r, u.g, u.b}).second && (u.r > 0 || u.g > 0 || u.b > 0), "unique-color-repeated", code);
  }
  IsColor(cb::LookupUniqueColor<Color>(0, a), 1, 1, 1, 0, "unique-color-zero");
  IsColor(cb::LookupUniqueColor<Color>(static_cast<uint32_t>(rng.Int(21, 4294967295ll)), a), 0, 0, 0, Clamped(a), "unique-color-beyond");
  Nontrivial(h);
}

////////////////////////////////////////////////////////////////////// Printing

std::string G12(double v)
{
  char buf[64];
  std::snprintf(buf, sizeof(buf), "%.12g", v);
  return buf;
}
std::string G6(double v)
{
  char buf[64];
  std::snprintf(buf, sizeof(buf), "%g", v);
  return buf;
}

// An independent rendering.
struct Style { bool delimiters; std::string separator; };
std::string Show(int v, const Style&) { return std::to_string(v); }
std::string Show(double v, const Style&) { return G6(v); }
std::string Show(bool v, const Style&) { return v ? "true" : "false"; }
std::string Show(uint8_t v, const Style&) { return std::to_string(static_cast<int>(v)); }
std::string Show(const std::string& v, const Style&) { return v; }
std::string Show(const V3& v, const Style&) { return "Vector3d: <x: " + G12(v.x()) + " y: " + G12(v.y()) + " z: " + G12(v.z()) + ">"; }
template<typename A, typename B> std::string Show(const std::pair<A, B>& p, const Style& s);
template<typename C> std::string Sequence(const C& c, const Style& s, const char* open, const char* close);
template<typename T> std::string Show(const std::vector<T>& v, const Style& s) { return Sequence(v, s, "[", "]"); }
template<typename T> std::string Show(const std::list<T>& v, const Style& s) { return Sequence(v, s, "[", "]"); }
template<typename T> std::string Show(const std::forward_list<T>& v, const Style& s) { return Sequence(v, s, "[", "]"); }
template<typename T> std::string Show(const std::deque<T>& v, const Style& s) { return Sequence(v, s, "[", "]"); }
template<typename T, size_t N> std::string Show(const std::array<T, N>& v, const Style& s) { return Sequence(v, s, "[", "]"); }
template<typename T> std::string Show(const std::set<T>& v, const Style& s) { return Sequence(v, s, "(", ")"); }
template<typename T> std::string Show(const std::multiset<T>& v, const Style& s) { return Sequence(v, s, "(", ")"); }
template<typename T> std::string Show(const std::unordered_set<T>& v, const Style& s) { return Sequence(v, s, "(", ")"); }
template<typename T> std::string Show(const std::unordered_multiset<T>& v, const Style& s) { return Sequence(v, s, "(", ")"); }
template<typename A, typename B> std::string Show(const std::map<A, B>& v, const Style& s) { return Sequence(v, s, "{", "}"); }
template<typename A, typename B> std::string Show(const std::multimap<A, B>& v, const Style& s) { return Sequence(v, s, "{", "}"); }
template<typename A, typename B> std::string Show(const std::unordered_map<A, B>& v, const Style& s) { return Sequence(v, s, "{", "}"); }
template<typename A, typename B> std::string Show(const std::unordered_multimap<A, B>& v, const Style& s) { return Sequence(v, s, "{", "}"); }
template<typename A, typename B> std::string Show(const std::pair<A, B>& p, const Style& s)
{
  const std::string inner = Show(p.first, s) + ": " + Show(p.second, s);
  return s.delimiters ? "<" + inner + ">" : inner;
}
template<typename C> std::string Sequence(const C& c, const Style& s, const char* open, const char* close)
{
  std::string out;
  bool first = true;
  for (const auto& e : c)
  {
    if (!first) { out += s.separator; }
    out += Show(e, s);
    first = false;
  }
  if (first) { return ""; }
  return s.delimiters ? open + out + close : out;
}

// Random values of any of the types.
template<typename T> struct Make;
template<> struct Make<int> { static int Of(Rng& r) { return static_cast<int>(r.Int(-50, 50)); } };
template<> struct Make<double> { static double Of(Rng& r) { return r.Wild(); } };
template<> struct Make<bool> { static bool Of(Rng& r) { return r.Chance(0.5); } };
template<> struct Make<uint8_t> { static uint8_t Of(Rng& r) { return static_cast<uint8_t>(r.Int(0, 255)); } };
template<> struct Make<std::string> { static std::string Of(Rng& r) { return r.Pick(std::vector<std::string>{"", "a", ", ", "<x: ", "long name"}); } };
template<> struct Make<V3> { static V3 Of(Rng& r) { return V3(r.Wild(), r.Wild() / 3.0, r.Wild()); } };
template<typename A, typename B> struct Make<std::pair<A, B>> { static std::pair<A, B> Of(Rng& r) { A a = Make<typename std::remove_const<A>::type>::Of(r); return {a, Make<B>::Of(r)}; } };
template<typename T, size_t N> struct Make<std::array<T, N>> { static std::array<T, N> Of(Rng& r) { std::array<T, N> a; for (T& e : a) { e = Make<T>::Of(r); } return a; } };
template<typename T> struct Make<std::forward_list<T>> { static std::forward_list<T> Of(Rng& r) { std::forward_list<T> c; for (int64_t k = r.Int(0, 3); k > 0; k--) { c.push_front(Make<T>::Of(r)); } return c; } };
template<typename C> struct Make
{
  static C Of(Rng& r)
  {
    C c;
    for (int64_t k = r.Int(0, 3); k > 0; k--) { c.insert(c.end(), Make<typename C::value_type>::Of(r)); }
    return c;
  }
};

template<typename T>
void Prints(Rng& rng, uint64_t& h)
{
  const T value = Make<T>::Of(rng);
  const Style s{rng.Chance(0.5), rng.Pick(std::vector<std::string>{", ", "\n", "", " | "})};
  const std::string want = Show(value, s);
  const std::string got = cru::print::Print(value, s.delimiters, s.separator);
  VT_CHECK(got == want, "print", Quote(got), " not ", Quote(want));
  VT_CHECK(cru::print::Print(value) == Show(value, {false, ", "}), "print-default", Quote(cru::print::Print(value)));
  h = Combine(h, HashStr(want));
  Count("printed");
  if (!want.empty()) { Count("printed_nonempty"); }
}

void Printing(Rng& rng, uint64_t)
{
  uint64_t h = 7;
  Prints<int>(rng, h);
  Prints<double>(rng, h);
  Prints<bool>(rng, h);
  Prints<uint8_t>(rng, h);
  Prints<std::string>(rng, h);
  Prints<V3>(rng, h);
  Prints<std::pair<int, std::string>>(rng, h);
  Prints<std::vector<int>>(rng, h);
  Prints<std::vector<bool>>(rng, h);
  Prints<std::vector<uint8_t>>(rng, h);
  Prints<std::vector<V3>>(rng, h);
  Prints<std::array<double, 3>>(rng, h);
  Prints<std::list<std::string>>(rng, h);
  Prints<std::forward_list<int>>(rng, h);
  Prints<std::deque<double>>(rng, h);
  Prints<std::set<int>>(rng, h);
  Prints<std::multiset<int>>(rng, h);
  Prints<std::unordered_set<int>>(rng, h);
  Prints<std::unordered_multiset<int>>(rng, h);
  Prints<std::map<int, std::string>>(rng, h);
  Prints<std::multimap<int, bool>>(rng, h);
  Prints<std::unordered_map<int, uint8_t>>(rng, h);
  Prints<std::unordered_multimap<int, double>>(rng, h);
  // Nested.
  Prints<std::vector<std::vector<uint8_t>>>(rng, h);
  Prints<std::map<std::string, std::vector<std::pair<int, bool>>>>(rng, h);
  Prints<std::vector<std::map<int, std::set<int>>>>(rng, h);
  Prints<std::pair<std::list<std::deque<int>>, std::multimap<int, std::vector<double>>>>(rng, h);
  Prints<std::array<std::unordered_map<int, std::multiset<int>>, 2>>(rng, h);
  Prints<std::forward_list<std::unordered_set<int>>>(rng, h);
  // Every kind of container around another one.
  using Inner = std::vector<int>;
  Prints<std::deque<Inner>>(rng, h);
  Prints<std::list<Inner>>(rng, h);
  Prints<std::forward_list<Inner>>(rng, h);
  Prints<std::array<Inner, 3>>(rng, h);
  Prints<std::set<Inner>>(rng, h);
  Prints<std::multiset<Inner>>(rng, h);
  Prints<std::unordered_set<std::vector<bool>>>(rng, h);
  Prints<std::unordered_multiset<std::vector<bool>>>(rng, h);
  Prints<std::map<Inner, Inner>>(rng, h);
  Prints<std::multimap<Inner, Inner>>(rng, h);
  Prints<std::unordered_map<std::vector<bool>, Inner>>(rng, h);
  Prints<std::unordered_multimap<std::vector<bool>, Inner>>(rng, h);
  Prints<std::pair<Inner, Inner>>(rng, h);
  Prints<std::vector<std::pair<Inner, std::pair<Inner, int>>>>(rng, h);
  Prints<std::deque<V3>>(rng, h);
  Prints<std::map<int, V3>>(rng, h);

  const auto& P = [](const auto& v) { return cru::print::Print(v); };
  const Eigen::Vector2d v2(rng.Wild(), rng.Wild() / 7.0);
  VT_CHECK(P(v2) == "Vector2d: <x: " + G12(v2(0)) + " y: " + G12(v2(1)) + ">", "print-vector2", P(v2));
  const Eigen::Vector4d v4(rng.Wild(), rng.Wild() / 7.0, rng.Wild(), rng.Wild());
  VT_CHECK(P(v4) == "Vector4d: <x: " + G12(v4(0)) + " y: " + G12(v4(1)) + " z: " + G12(v4(2)) + " w: " + G12(v4(3)) + ">", "print-vector4", P(v4));
  VX x(rng.Chance(0.05) ? rng.Int(6, 60) : rng.Int(0, 5));
  std::string want = "VectorXd: <";
  for (ssize_t i = 0; i < x.size(); i++) { x(i) = rng.Wild() / 3.0; want += (i > 0 ? ", " : "") + G12(x(i)); }
  VT_CHECK(P(x) == want + ">", "print-vectorx", P(x));
  const bool big = rng.Chance(0.05);
  Eigen::MatrixXd m(rng.Int(0, big ? 40 : 4), rng.Int(0, big ? 40 : 4));
  want = "MatrixXd:\n[";
  for (ssize_t i = 0; i < m.rows(); i++)
  {
    for (ssize_t j = 0; j < m.cols(); j++)
    {
      m(i, j) = rng.Wild() / 3.0;
      want += (j > 0 ? ", " : i > 0 ? "\n" : "") + G12(m(i, j));
    }
  }
  VT_CHECK(P(m) == want + "]", "print-matrix", P(m));
  const Q q(Eigen::AngleAxisd(Angle(rng), V3(0.6, 0.8, 0)));
  auto qs = [](const Q& o) { return "<x: " + G12(o.x()) + " y: " + G12(o.y()) + " z: " + G12(o.z()) + " w: " + G12(o.w()) + ">"; };
  VT_CHECK(P(q) == "Quaterniond: " + qs(q), "print-quaternion", P(q));
  const V3 t(rng.Wild(), rng.Wild(), rng.Wild());
  const Iso iso = Eigen::Translation3d(t) * q;
  double num[7];
  const std::string it = P(iso);
  VT_CHECK(std::sscanf(it.c_str(), "Isometry3d: <x: %lf y: %lf z: %lf>, <x: %lf y: %lf z: %lf w: %lf>", num, num + 1, num + 2, num + 3, num + 4, num + 5, num + 6) == 7,
           "print-transform", it);
  VT_CHECK(std::abs(num[0] - t.x()) + std::abs(num[1] - t.y()) + std::abs(num[2] - t.z()) <= 1e-10 * (1 + t.norm()), "print-transform-translation", it);
  VT_CHECK((Q(num[6], num[3], num[4], num[5]).toRotationMatrix() - q.toRotationMatrix()).norm() <= 1e-10, "print-transform-rotation", it);
  VT_CHECK(it.find('(') == std::string::npos && it.back() == '>', "print-transform-tail", it);
  Nontrivial(h);
}
#endif
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 47
  return vt::Main(argc, argv, {{"poses", 20000, 2500000, Poses}, {"containers", 20000, 2500000, Containers}});
#else
  return vt::Main(argc, argv, {{"colors", 12000, 2000000, Colors}, {"printing", 10000, 1000000, Printing}});
#endif
}
