// Scalar, vector, rotation and plane mathematics against long double references.
#include "common.hpp"

#include <common_robotics_utilities/math.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace m = cru::math;

namespace
{
using LD = long double;
constexpr LD kTwoPi = 2.0L * static_cast<LD>(M_PI);
constexpr double kEps = std::numeric_limits<double>::epsilon();
using VX = Eigen::VectorXd;
using V3 = Eigen::Vector3d;
using Q = Eigen::Quaterniond;
using Iso = Eigen::Isometry3d;

uint64_t HashD(double v)
{
  uint64_t u;
  std::memcpy(&u, &v, sizeof(u));
  return u;
}

V3 RandomV3(Rng& rng, double scale)
{
  return V3(rng.Real(-scale, scale), rng.Real(-scale, scale), rng.Real(-scale, scale));
}

V3 RandomAxis(Rng& rng)
{
  if (rng.Chance(0.2)) { V3 v = V3::Zero(); v(rng.Int(0, 2)) = rng.Chance(0.5) ? 1.0 : -1.0; return v; }
  V3 v;
  do { v = RandomV3(rng, 1.0); } while (v.norm() < 1e-3 || v.norm() > 1.0);
  return v.normalized();
}

double RandomAngle(Rng& rng)
{
  switch (rng.Int(0, 6))
  {
    case 0: return 0.0;
    case 1: return rng.Real(-1e-6, 1e-6);
    case 2: return M_PI * static_cast<double>(rng.Int(-4, 4)) / 4.0;
    case 3: return M_PI + rng.Real(-1e-6, 1e-6);
    default: return rng.Real(-M_PI, M_PI);
  }
}

Q RandomQ(Rng& rng)
{
  const Q q(Eigen::AngleAxisd(RandomAngle(rng), RandomAxis(rng)));
  return rng.Chance(0.5) ? q : Q(-q.w(), -q.x(), -q.y(), -q.z());
}

Iso RandomIso(Rng& rng, double scale)
{
  return Eigen::Translation3d(RandomV3(rng, scale)) * RandomQ(rng);
}

// Angle of the rotation between two unit quaternions.
double AngleBetween(const Q& a, const Q& b)
{
  const LD w = static_cast<LD>(a.w()) * b.w() + static_cast<LD>(a.x()) * b.x() + static_cast<LD>(a.y()) * b.y()
               + static_cast<LD>(a.z()) * b.z();
  const LD x = static_cast<LD>(a.w()) * b.x() - static_cast<LD>(a.x()) * b.w() - static_cast<LD>(a.y()) * b.z()
               + static_cast<LD>(a.z()) * b.y();
  const LD y = static_cast<LD>(a.w()) * b.y() + static_cast<LD>(a.x()) * b.z() - static_cast<LD>(a.y()) * b.w()
               - static_cast<LD>(a.z()) * b.x();
  const LD z = static_cast<LD>(a.w()) * b.z() - static_cast<LD>(a.x()) * b.y() + static_cast<LD>(a.y()) * b.x()
               - static_cast<LD>(a.z()) * b.w();
  return static_cast<double>(2.0L * std::atan2(std::sqrt(x * x + y * y + z * z), std::abs(w)));
}

template<typename Fn>
void Rejects(const char* key, const Fn& fn)
{
  const Thrown t = Catch(fn);
  VT_CHECK(t == Thrown::INVALID_ARGUMENT, key, static_cast<int>(t));
  Count("bad_inputs");
}

/////////////////////////////////////////////////////////////////// Revolute

// Distance around the circle whose length is twice the double nearest to pi.
double Circ(LD a, LD b) { return static_cast<double>(std::abs(std::remainder(a - b, kTwoPi))); }

double RandomRevolute(Rng& rng)
{
  double v = 0;
  switch (rng.Int(0, 7))
  {
    case 0: v = static_cast<double>(rng.Int(-6, 6)) * M_PI; break;
    case 1: v = static_cast<double>(rng.Int(-40, 40)) * M_PI / 4.0; break;
    case 2: v = rng.Real(-1e6, 1e6); break;
    case 3: v = rng.Real(-1.0, 1.0) * std::pow(10.0, static_cast<double>(rng.Int(-300, 15))); break;
    case 4: v = rng.Wild(100.0); break;
    default: v = rng.Real(-2.0 * M_PI, 2.0 * M_PI); break;
  }
  for (int64_t k = rng.Chance(0.5) ? 0 : rng.Int(0, 3); k > 0; k--)
  {
    v = std::nextafter(v, rng.Chance(0.5) ? 1e300 : -1e300);
  }
  return v;
}

double RevTol(double a, double b = 0, double c = 0) { return 8e-15 + 4.0 * kEps * (std::abs(a) + std::abs(b) + std::abs(c)); }

void CheckInBounds(double v, const char* key, const std::string& how)
{
  VT_CHECK(v >= -M_PI && v < M_PI, key, std::hexfloat, v, " from ", how);
}

void Revolute(Rng& rng, uint64_t)
{
  uint64_t h = 3;
  for (int64_t k = 0; k < 40; k++)
  {
    const double a = RandomRevolute(rng);
    const double b = rng.Chance(0.1) ? a : rng.Chance(0.1) ? a + M_PI : RandomRevolute(rng);
    const double c = RandomRevolute(rng);
    const std::string how = Str(std::hexfloat, a, " ", b, " ", c);
    h = Combine(Combine(h, HashD(a)), HashD(b));
    const double ea = m::EnforceContinuousRevoluteBounds(a);
    CheckInBounds(ea, "revolute-out-of-bounds", how);
    VT_CHECK(Circ(ea, a) <= RevTol(a), "revolute-wrap-changed-angle", std::hexfloat, ea, " from ", a);
    if (a >= -M_PI && a < M_PI) { VT_CHECK(Circ(ea, a) <= 1e-15, "revolute-wrap-changed-in-bounds", std::hexfloat, ea, " from ", a); Count("already_wrapped"); }

    const double d = m::ContinuousRevoluteSignedDistance(a, b);
    CheckInBounds(d, "revolute-signed-distance-out-of-bounds", how);
    VT_CHECK(Circ(static_cast<LD>(a) + d, b) <= RevTol(a, b), "revolute-signed-distance-misses", d, " ", how);
    const double dist = m::ContinuousRevoluteDistance(a, b);
    VT_CHECK(std::abs(dist - Circ(a, b)) <= RevTol(a, b), "revolute-distance", dist, " is ", Circ(a, b), " ", how);
    VT_CHECK(std::abs(dist - m::ContinuousRevoluteDistance(b, a)) <= RevTol(a, b), "revolute-distance-asymmetric", how);
    Count("distances");

    const double sum = m::AddContinuousRevoluteValues(a, b);
    CheckInBounds(sum, "revolute-add-out-of-bounds", how);
    VT_CHECK(Circ(sum, static_cast<LD>(a) + b) <= RevTol(a, b), "revolute-add", std::hexfloat, sum, " ", how);

    const double range = m::GetContinuousRevoluteRange(a, b);
    VT_CHECK(range >= 0 && range <= 2.0 * M_PI, "revolute-range-out-of-bounds", std::hexfloat, range, " ", how);
    VT_CHECK(Circ(static_cast<LD>(a) + range, b) <= RevTol(a, b), "revolute-range-misses", range, " ", how);

    // Membership, away from the ends by more than rounding, and at the ends.
    LD from_start = std::fmod(static_cast<LD>(c) - a, kTwoPi);
    if (from_start < 0) { from_start += kTwoPi; }
    LD arc = std::fmod(static_cast<LD>(b) - a, kTwoPi);
    if (arc < 0) { arc += kTwoPi; }
    const double slack = RevTol(a, b, c);
    const bool near = std::abs(from_start - arc) <= slack || from_start <= slack || kTwoPi - from_start <= slack
                      || arc <= slack || kTwoPi - arc <= slack;
    if (!near)
    {
      const bool in = m::CheckInContinuousRevoluteBounds(a, b, c);
      VT_CHECK(in == (from_start < arc), "revolute-bounds-membership", "in=", in, " start ", a, " end ", b, " val ", c);
      Count(in ? "inside" : "outside");
      const double r = rng.Real(0, 2.0 * M_PI);
      if (std::abs(static_cast<double>(from_start) - r) > slack)
      {
        VT_CHECK(m::CheckInContinuousRevoluteRange(a, r, c) == (from_start < r), "revolute-range-membership", "start ", a,
                 " range ", r, " val ", c);
      }
    }
    // A range that ends where it starts holds nothing but its one angle.
    VT_CHECK(m::GetContinuousRevoluteRange(a, a) == 0.0, "revolute-range-to-itself", m::GetContinuousRevoluteRange(a, a), " at ", how);
    if (from_start > slack && kTwoPi - from_start > slack)
    {
      VT_CHECK(!m::CheckInContinuousRevoluteBounds(a, a, c), "revolute-bounds-to-itself", "start and end ", a, " val ", c);
      Count("degenerate_ranges");
    }
    VT_CHECK(m::CheckInContinuousRevoluteBounds(a, b, a), "revolute-start-not-inside", how);
    VT_CHECK(m::CheckInContinuousRevoluteBounds(a, b, b), "revolute-end-not-inside", how);

    // Interpolation runs the short way at constant rate.
    const double t = rng.Chance(0.2) ? rng.Real(-2, 3) : rng.Chance(0.1) ? static_cast<double>(rng.Int(0, 1)) : rng.Unit();
    const double tc = std::min(1.0, std::max(0.0, t));
    const double i = m::InterpolateContinuousRevolute(a, b, t);
    CheckInBounds(i, "revolute-interpolate-out-of-bounds", how);
    VT_CHECK(Circ(i, static_cast<LD>(a) + static_cast<LD>(tc) * d) <= RevTol(a, b), "revolute-interpolate", i, " at ", t, " of ", how);
    VT_CHECK(std::abs(Circ(i, a) - tc * dist) <= RevTol(a, b) && std::abs(Circ(i, b) - (1 - tc) * dist) <= RevTol(a, b),
             "revolute-interpolate-rate", i, " at ", t, " of ", how);
    Count("interpolations");
  }
  Nontrivial(h);
}

//////////////////////////////////////////////////////////////// Interpolation

bool Near(double a, LD b, double scale) { return std::abs(a - b) <= 16.0 * kEps * scale + 1e-300; }

double RandomScalar(Rng& rng)
{
  if (rng.Chance(0.1)) { return rng.Real(-1, 1) * std::pow(10.0, static_cast<double>(rng.Int(-100, 100))); }
  return rng.Wild();
}

double RandomRatio(Rng& rng)
{
  switch (rng.Int(0, 5))
  {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return rng.Real(-3, 4);
    default: return rng.Unit();
  }
}

void CheckLerp(double got, double a, double b, double t, const char* key)
{
  const double tc = std::min(1.0, std::max(0.0, t));
  if (tc == 0.0) { VT_CHECK(got == a, key, "start: ", got, " not ", a); }
  if (tc == 1.0) { VT_CHECK(got == b, key, "end: ", got, " not ", b); }
  VT_CHECK(Near(got, static_cast<LD>(a) + static_cast<LD>(tc) * (static_cast<LD>(b) - a), std::abs(a) + std::abs(b)), key,
           got, " at ", t, " from ", a, " to ", b);
}

void Interpolation(Rng& rng, uint64_t)
{
  uint64_t h = 5;
  for (int64_t k = 0; k < 20; k++)
  {
    const double t = RandomRatio(rng);
    const double tc = std::min(1.0, std::max(0.0, t));
    h = Combine(h, HashD(t));
    const double a = RandomScalar(rng), b = rng.Chance(0.1) ? a : RandomScalar(rng);
    CheckLerp(m::Interpolate(a, b, t), a, b, t, "interpolate-scalar");
    const size_t n = rng.Size(0, 6);
    std::vector<double> va, vb;
    VX xa(n), xb(n);
    for (size_t i = 0; i < n; i++)
    {
      va.push_back(RandomScalar(rng));
      vb.push_back(RandomScalar(rng));
      xa(static_cast<ssize_t>(i)) = va.back();
      xb(static_cast<ssize_t>(i)) = vb.back();
      h = Combine(h, HashD(va.back()));
    }
    const std::vector<double> vi = m::Interpolate(va, vb, t);
    const VX xi = m::InterpolateXd(xa, xb, t);
    VT_CHECK(vi.size() == n && static_cast<size_t>(xi.size()) == n, "interpolate-size", vi.size(), " ", xi.size(), " of ", n);
    LD sq = 0;
    for (size_t i = 0; i < n; i++)
    {
      CheckLerp(vi[i], va[i], vb[i], t, "interpolate-vector");
      CheckLerp(xi(static_cast<ssize_t>(i)), va[i], vb[i], t, "interpolate-xd");
      sq += (static_cast<LD>(va[i]) - vb[i]) * (static_cast<LD>(va[i]) - vb[i]);
    }
    const LD rel = 64 * kEps;
    VT_CHECK(std::abs(m::SquaredDistance(va, vb) - sq) <= rel * sq, "squared-distance-vector", m::SquaredDistance(va, vb), " ", static_cast<double>(sq));
    VT_CHECK(std::abs(m::SquaredDistance(xa, xb) - sq) <= rel * sq, "squared-distance-xd", m::SquaredDistance(xa, xb), " ", static_cast<double>(sq));
    VT_CHECK(std::abs(m::Distance(va, vb) - std::sqrt(sq)) <= rel * std::sqrt(sq), "distance-vector", m::Distance(va, vb));
    VT_CHECK(std::abs(m::Distance(xa, xb) - std::sqrt(sq)) <= rel * std::sqrt(sq), "distance-xd", m::Distance(xa, xb));
    VT_CHECK(m::Distance(va, va) == 0 && m::Distance(xa, xa) == 0, "distance-to-itself", n);
    {
      std::vector<double> longer = vb;
      longer.push_back(1.0);
      VX xl(n + 1);
      xl.setOnes();
      Rejects("interpolate-mismatch", [&] { m::Interpolate(va, longer, t); });
      Rejects("interpolate-mismatch", [&] { m::InterpolateXd(xl, xb, t); });
      Rejects("distance-mismatch", [&] { m::Distance(va, longer); });
      Rejects("distance-mismatch", [&] { m::SquaredDistance(longer, vb); });
      Rejects("distance-mismatch", [&] { m::Distance(xl, xb); });
    }
    const Eigen::Vector4d fa = Eigen::Vector4d(RandomScalar(rng), RandomScalar(rng), RandomScalar(rng), RandomScalar(rng));
    const Eigen::Vector4d fb = Eigen::Vector4d(RandomScalar(rng), RandomScalar(rng), RandomScalar(rng), RandomScalar(rng));
    const V3 ta = fa.head<3>(), tb = fb.head<3>();
    const Eigen::Vector2d wa = fa.head<2>(), wb = fb.head<2>();
    const Eigen::Vector4d fi = m::Interpolate4d(fa, fb, t);
    const V3 ti = m::Interpolate3d(ta, tb, t);
    for (ssize_t i = 0; i < 4; i++)
    {
      CheckLerp(fi(i), fa(i), fb(i), t, "interpolate-4d");
      if (i < 3) { CheckLerp(ti(i), ta(i), tb(i), t, "interpolate-3d"); }
    }
    auto squared = [&](ssize_t upto)
    {
      LD s = 0;
      for (ssize_t i = 0; i < upto; i++) { s += (static_cast<LD>(fa(i)) - fb(i)) * (static_cast<LD>(fa(i)) - fb(i)); }
      return s;
    };
    VT_CHECK(std::abs(m::SquaredDistance(ta, tb) - squared(3)) <= rel * squared(3), "squared-distance-3d", m::SquaredDistance(ta, tb));
    VT_CHECK(std::abs(m::SquaredDistance(wa, wb) - squared(2)) <= rel * squared(2), "squared-distance-2d", m::SquaredDistance(wa, wb));
    VT_CHECK(std::abs(m::Distance(ta, tb) - std::sqrt(squared(3))) <= rel * std::sqrt(squared(3)), "distance-3d", m::Distance(ta, tb));
    VT_CHECK(std::abs(m::Distance(wa, wb) - std::sqrt(squared(2))) <= rel * std::sqrt(squared(2)), "distance-2d", m::Distance(wa, wb));
    VT_CHECK(m::Equal3d(ta, ta) && m::Equal4d(fa, fa), "equal-itself", ta.transpose());
    {
      V3 t2 = ta;
      Eigen::Vector4d f2 = fa;
      const ssize_t i3 = rng.Int(0, 2), i4 = rng.Int(0, 3);
      t2(i3) = std::nextafter(t2(i3), 1e300);
      f2(i4) = std::nextafter(f2(i4), 1e300);
      VT_CHECK(!m::Equal3d(ta, t2) && !m::Equal4d(fa, f2), "equal-different", i3, " ", i4);
      const double delta = std::abs(t2(i3) - ta(i3));
      VT_CHECK(m::CloseEnough(ta, t2, delta) && m::CloseEnough(ta, t2, -delta), "close-enough-3d", delta);
      VT_CHECK(!m::CloseEnough(ta, t2, 0.0), "close-enough-3d-zero", delta);
      const double gap = std::abs(b - a);
      VT_CHECK(m::CloseEnough(a, b, gap) && m::CloseEnough(b, a, -gap), "close-enough", gap);
      if (gap > 0) { VT_CHECK(!m::CloseEnough(a, b, std::nextafter(gap, 0.0)), "close-enough-far", gap); }
    }
    Count("interpolations", 5);

    const Q qa = RandomQ(rng), qb = rng.Chance(0.1) ? qa : RandomQ(rng);
    const double angle = AngleBetween(qa, qb);
    VT_CHECK(std::abs(m::Distance(qa, qb) - angle) <= 1e-7, "quaternion-distance", m::Distance(qa, qb), " not ", angle);
    VT_CHECK(m::Distance(qa, qb) == m::Distance(qb, qa), "quaternion-distance-asymmetric", angle);
    const Q qi = m::Interpolate(qa, qb, t);
    VT_CHECK(std::abs(qi.norm() - 1.0) <= 1e-12, "quaternion-interpolate-norm", qi.norm(), " at ", t, " angle ", angle);
    VT_CHECK(std::abs(AngleBetween(qa, qi) - tc * angle) <= 1e-7 && std::abs(AngleBetween(qi, qb) - (1 - tc) * angle) <= 1e-7,
             "quaternion-interpolate-rate", "at ", t, " of ", angle, ": ", AngleBetween(qa, qi), " then ", AngleBetween(qi, qb));

    const double scale = rng.Pick(std::vector<double>{1.0, 100.0});
    const Iso ia = Eigen::Translation3d(RandomV3(rng, scale)) * qa;
    const Iso ib = Eigen::Translation3d(RandomV3(rng, scale)) * qb;
    const Iso ii = m::Interpolate(ia, ib, t);
    const V3 at = ia.translation() + tc * (ib.translation() - ia.translation());
    VT_CHECK((ii.translation() - at).norm() <= 1e-12 * scale, "transform-interpolate-translation", ii.translation().transpose(), " not ", at.transpose());
    const Q ri(ii.linear());
    VT_CHECK((ii.linear() * ii.linear().transpose() - Eigen::Matrix3d::Identity()).norm() <= 1e-11 && ii.linear().determinant() > 0,
             "transform-interpolate-not-rigid", ii.linear().determinant());
    VT_CHECK(std::abs(AngleBetween(qa, ri) - tc * angle) <= 1e-6 && std::abs(AngleBetween(ri, qb) - (1 - tc) * angle) <= 1e-6,
             "transform-interpolate-rate", "at ", t, " of ", angle, ": ", AngleBetween(qa, ri), " then ", AngleBetween(ri, qb));
    const double alpha = rng.Chance(0.2) ? rng.Real(-1, 2) : rng.Unit();
    const double ac = std::min(1.0, std::max(0.0, alpha));
    const double linear = (ia.translation() - ib.translation()).norm();
    VT_CHECK(std::abs(m::Distance(ia, ib, alpha) - ((1 - ac) * linear + ac * angle)) <= 1e-6 + 1e-12 * linear, "transform-distance",
             m::Distance(ia, ib, alpha), " translation ", linear, " rotation ", angle, " alpha ", alpha);
    VT_CHECK(std::abs(m::Distance(ia, ib) - 0.5 * (linear + angle)) <= 1e-6 + 1e-12 * linear, "transform-distance-default", m::Distance(ia, ib));
    Count("rotations");
  }
  Nontrivial(h);
}

// Functions that are linear in each coordinate are reproduced everywhere.
void Multilinear(Rng& rng, uint64_t)
{
  std::vector<double> coef(8);
  for (double& c : coef) { c = rng.Real(-10, 10); }
  auto f = [&](double x, double y, double z)
  {
    LD s = 0;
    for (int64_t k = 0; k < 8; k++)
    {
      s += static_cast<LD>(coef[static_cast<size_t>(k)]) * ((k & 1) ? x : 1.0L) * ((k & 2) ? y : 1.0L) * ((k & 4) ? z : 1.0L);
    }
    return static_cast<double>(s);
  };
  const V3 lo = RandomV3(rng, 5.0);
  V3 hi = lo + V3(rng.Real(0.1, 4), rng.Real(0.1, 4), rng.Real(0.1, 4));
  if (rng.Chance(0.1)) { hi = lo - (hi - lo); }
  uint64_t h = HashD(lo.x());
  for (int64_t k = 0; k < 10; k++)
  {
    V3 p;
    for (ssize_t i = 0; i < 3; i++)
    {
      const double u = rng.Chance(0.3) ? static_cast<double>(rng.Int(0, 1)) : rng.Chance(0.1) ? rng.Real(-1, 2) : rng.Unit();
      p(i) = u == 0.0 ? lo(i) : u == 1.0 ? hi(i) : lo(i) + u * (hi(i) - lo(i));
    }
    h = Combine(h, HashD(p.x() + p.y() * 3 + p.z() * 7));
    auto c = [&](int x, int y, int z) { return f(x ? hi.x() : lo.x(), y ? hi.y() : lo.y(), z ? hi.z() : lo.z()); };
    const double tol = 1e-7;
    const double one = m::LinearInterpolate<double>(lo.x(), hi.x(), c(0, 0, 0), c(1, 0, 0), p.x());
    VT_CHECK(std::abs(one - f(p.x(), lo.y(), lo.z())) <= tol, "linear-interpolate", one, " not ", f(p.x(), lo.y(), lo.z()));
    const double two = m::BilinearInterpolate<double>(lo.head<2>(), hi.head<2>(), c(0, 0, 0), c(0, 1, 0), c(1, 0, 0), c(1, 1, 0), p.head<2>());
    VT_CHECK(std::abs(two - f(p.x(), p.y(), lo.z())) <= tol, "bilinear-interpolate", two, " not ", f(p.x(), p.y(), lo.z()));
    const double three = m::TrilinearInterpolate<double>(lo, hi, c(0, 0, 0), c(0, 0, 1), c(0, 1, 0), c(0, 1, 1), c(1, 0, 0), c(1, 0, 1), c(1, 1, 0), c(1, 1, 1), p);
    VT_CHECK(std::abs(three - f(p.x(), p.y(), p.z())) <= tol, "trilinear-interpolate", three, " not ", f(p.x(), p.y(), p.z()));
    // The same with vector values.
    auto v = [&](int x, int y, int z) { return V3(c(x, y, z), -c(x, y, z), 2.0 * c(x, y, z) + 1.0); };
    const V3 want(f(p.x(), p.y(), p.z()), -f(p.x(), p.y(), p.z()), 2.0 * f(p.x(), p.y(), p.z()) + 1.0);
    const V3 got = m::TrilinearInterpolate<V3>(lo, hi, v(0, 0, 0), v(0, 0, 1), v(0, 1, 0), v(0, 1, 1), v(1, 0, 0), v(1, 0, 1), v(1, 1, 0), v(1, 1, 1), p);
    VT_CHECK((got - want).norm() <= 4 * tol, "trilinear-interpolate-vector", got.transpose(), " not ", want.transpose());
    Count("multilinear_queries", 4);
  }
  Nontrivial(h);
}

/////////////////////////////////////////////////////////// Vectors, averages

std::vector<double> RandomWeights(Rng& rng, size_t n)
{
  std::vector<double> w;
  for (size_t i = 0; i < n; i++) { w.push_back(rng.Chance(0.3) ? 0.0 : rng.Chance(0.2) ? -rng.Real(0.1, 5) : rng.Real(0.1, 5)); }
  if (rng.Chance(0.3)) { for (double& x : w) { x = 2.5; } }
  // Only the proportions of weights matter.
  if (rng.Chance(0.2))
  {
    const double unit = std::pow(10.0, static_cast<double>(rng.Int(-60, 60)));
    for (double& x : w) { x *= unit; }
    Count("tiny_or_huge_weights");
  }
  return w;
}

// Largest eigenvalue of a symmetric 4x4 matrix and the gap to the next, by Jacobi rotations.
std::pair<LD, LD> LargestEigenvalue(const Eigen::Matrix4d& a, LD& gap)
{
  LD s[4][4];
  for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { s[i][j] = a(i, j); } }
  for (int sweep = 0; sweep < 60; sweep++)
  {
    for (int p = 0; p < 4; p++)
    {
      for (int q = p + 1; q < 4; q++)
      {
        if (s[p][q] == 0) { continue; }
        const LD theta = 0.5L * std::atan2(2 * s[p][q], s[q][q] - s[p][p]);
        const LD c = std::cos(theta), sn = std::sin(theta);
        for (int k = 0; k < 4; k++)
        {
          const LD x = s[k][p], y = s[k][q];
          s[k][p] = c * x - sn * y;
          s[k][q] = sn * x + c * y;
        }
        for (int k = 0; k < 4; k++)
        {
          const LD x = s[p][k], y = s[q][k];
          s[p][k] = c * x - sn * y;
          s[q][k] = sn * x + c * y;
        }
      }
    }
  }
  std::vector<LD> d{s[0][0], s[1][1], s[2][2], s[3][3]};
  std::sort(d.begin(), d.end());
  gap = d[3] - d[2];
  return {d[3], d[2]};
}

void Averages(Rng& rng, uint64_t)
{
  uint64_t h = 7;
  const size_t n = rng.Chance(0.2) ? 1 : rng.Chance(0.03) ? rng.Size(13, 150) : rng.Size(1, 12);
  if (n > 12) { Count("long_averages"); }
  const bool weighted = rng.Chance(0.6);
  std::vector<double> w = weighted ? RandomWeights(rng, n) : std::vector<double>();
  LD wsum = 0;
  for (size_t i = 0; i < n; i++) { wsum += weighted ? std::abs(static_cast<LD>(w[i])) : 1.0L; }
  const bool usable = wsum > 0;
  h = Combine(h, HashD(static_cast<double>(wsum)) + n);

  // Components.
  const ssize_t dims = rng.Int(1, 5);
  std::vector<std::vector<double>> cols(static_cast<size_t>(dims));
  std::vector<VX> xs;
  m::VectorVector3d threes;
  m::VectorVector4d fours;
  for (size_t i = 0; i < n; i++)
  {
    VX x(dims);
    for (ssize_t d = 0; d < dims; d++)
    {
      x(d) = rng.Wild(1e3);
      cols[static_cast<size_t>(d)].push_back(x(d));
      h = Combine(h, HashD(x(d)));
    }
    xs.push_back(x);
    threes.push_back(RandomV3(rng, 10));
    fours.push_back(Eigen::Vector4d(rng.Wild(), rng.Wild(), 1.0, rng.Wild()));
  }
  auto mean_of = [&](const std::function<double(size_t)>& get)
  {
    LD s = 0;
    for (size_t i = 0; i < n; i++) { s += (weighted ? std::abs(static_cast<LD>(w[i])) : 1.0L) * get(i); }
    return s / wsum;
  };
  if (!usable)
  {
    Rejects("average-zero-weights", [&] { m::AverageStdVectorDouble(cols[0], w); });
    Rejects("average-zero-weights", [&] { m::AverageContinuousRevolute(cols[0], w); });
    Rejects("average-zero-weights", [&] { m::AverageEigenVectorXd(xs, w); });
    Rejects("average-zero-weights", [&] { m::AverageEigenVector3d(threes, w); });
    Count("zero_weights");
  }
  else
  {
    for (ssize_t d = 0; d < dims; d++)
    {
      const std::vector<double>& c = cols[static_cast<size_t>(d)];
      const LD want = mean_of([&](size_t i) { return c[i]; });
      const double biggest = std::abs(*std::max_element(c.begin(), c.end(), [](double a, double b) { return std::abs(a) < std::abs(b); }));
      const double got = m::AverageStdVectorDouble(c, w);
      VT_CHECK(std::abs(got - want) <= (1e-13 + 2e-15 * static_cast<double>(n)) * biggest, "average-scalar", got, " not ", static_cast<double>(want), " of ", n);
      VT_CHECK(m::AverageContinuousRevolute(c, w) == got, "average-revolute", got);
      const double vec = m::AverageEigenVectorXd(xs, w)(d);
      VT_CHECK(std::abs(vec - want) <= (1e-13 + 2e-15 * static_cast<double>(n)) * biggest, "average-xd", vec, " not ", static_cast<double>(want), " of ", n);
      LD ss = 0, mean = 0;
      for (const double v : c) { mean += v; }
      mean /= static_cast<LD>(n);
      for (const double v : c) { ss += (v - mean) * (v - mean); }
      const LD sd = n > 1 ? std::sqrt(ss / static_cast<LD>(n - 1)) : 0.0L;
      VT_CHECK(std::abs(m::ComputeStdDevStdVectorDouble(c) - sd) <= 1e-11 * biggest, "standard-deviation", m::ComputeStdDevStdVectorDouble(c),
               " not ", static_cast<double>(sd), " of ", n);
      VT_CHECK(std::abs(m::ComputeStdDevStdVectorDouble(c, static_cast<double>(mean)) - sd) <= 1e-11 * biggest, "standard-deviation-given-mean", static_cast<double>(sd));
      // Far from zero the spread is still that of the differences.
      const double far = (rng.Chance(0.5) ? 1.0 : -1.0) * std::ldexp(1.0, static_cast<int>(rng.Int(10, 40)));
      std::vector<double> moved;
      for (const double v : c) { moved.push_back(far + v); }
      LD msum = 0, mss = 0;
      for (const double v : moved) { msum += v; }
      const LD mmean = msum / static_cast<LD>(n);
      for (const double v : moved) { mss += (v - mmean) * (v - mmean); }
      const LD msd = n > 1 ? std::sqrt(mss / static_cast<LD>(n - 1)) : 0.0L;
      const double slack = 1e-11 * static_cast<double>(msd) + 1e-15 * static_cast<double>(n) * std::abs(far);
      VT_CHECK(std::abs(m::ComputeStdDevStdVectorDouble(moved) - msd) <= slack, "standard-deviation-far-from-zero",
               m::ComputeStdDevStdVectorDouble(moved), " not ", static_cast<double>(msd), " of ", n, " values around ", far);
      Count("spreads_far_from_zero");
    }
    const V3 a3 = m::AverageEigenVector3d(threes, w);
    const Eigen::Vector4d a4 = m::AverageEigenVector4d(fours, w);
    for (ssize_t d = 0; d < 4; d++)
    {
      if (d < 3) { VT_CHECK(std::abs(a3(d) - mean_of([&](size_t i) { return threes[i](d); })) <= 1e-12, "average-3d", a3.transpose()); }
      VT_CHECK(std::abs(a4(d) - mean_of([&](size_t i) { return fours[i](d); })) <= 1e-7, "average-4d", a4.transpose());
    }
    Count("averages");
  }
  std::vector<double> wrong = w;
  wrong.resize(n + 1, 1.0);
  Rejects("average-mismatch", [&] { m::AverageStdVectorDouble(cols[0], wrong); });
  Rejects("average-mismatch", [&] { m::AverageEigenVectorXd(xs, wrong); });
  Rejects("average-empty", [&] { m::AverageStdVectorDouble({}, {}); });
  Rejects("average-empty", [&] { m::AverageEigenVectorXd({}, {}); });
  Rejects("average-empty", [&] { m::ComputeStdDevStdVectorDouble(std::vector<double>()); });

  // Rotations.
  m::VectorQuaterniond qs;
  m::VectorIsometry3d isos;
  const int64_t kind = rng.Int(0, 5);
  const Q base = RandomQ(rng);
  for (size_t i = 0; i < n; i++)
  {
    Q q = RandomQ(rng);
    if (kind == 0) { q = base; }
    if (kind == 1) { q = base * Q(Eigen::AngleAxisd(rng.Real(-0.5, 0.5), RandomAxis(rng))); }
    // All the same distance apart: nothing is preferred.
    if (kind == 2 && i < 4) { q = Q(i == 0, i == 1, i == 2, i == 3); }
    if (kind == 3) { q = Q(i % 2 == 0, i % 2 == 1, 0, 0); }
    if (rng.Chance(0.4)) { q = Q(-q.w(), -q.x(), -q.y(), -q.z()); }
    qs.push_back(q);
    isos.push_back(Eigen::Translation3d(threes[i]) * q);
  }
  if (!usable)
  {
    Rejects("average-quaternion-zero-weights", [&] { m::AverageEigenQuaterniond(qs, w); });
    Rejects("average-transform-zero-weights", [&] { m::AverageEigenIsometry3d(isos, w); });
  }
  else
  {
    Eigen::Matrix4d sum = Eigen::Matrix4d::Zero();
    for (size_t i = 0; i < n; i++)
    {
      const double s = weighted ? w[i] * w[i] : 1.0;
      const Eigen::Vector4d v(qs[i].w(), qs[i].x(), qs[i].y(), qs[i].z());
      sum += s * v * v.transpose();
    }
    LD gap = 0;
    const LD best = LargestEigenvalue(sum, gap).first;
    const Q avg = m::AverageEigenQuaterniond(qs, w);
    const Eigen::Vector4d v(avg.w(), avg.x(), avg.y(), avg.z());
    VT_CHECK(std::abs(v.norm() - 1.0) <= 1e-9, "average-quaternion-not-unit", v.transpose(), " of ", n, " kind ", kind);
    VT_CHECK(v.dot(sum * v) >= static_cast<double>(best) * (1 - 1e-9), "average-quaternion-not-best", v.dot(sum * v), " best ",
             static_cast<double>(best), " of ", n, " kind ", kind);
    Count("quaternion_averages");
    if (gap > 1e-3L * best)
    {
      // Neither signs nor order matter when there is one best answer.
      m::VectorQuaterniond other;
      std::vector<double> ow;
      std::vector<size_t> order;
      for (size_t i = 0; i < n; i++) { order.push_back(i); }
      rng.Shuffle(order);
      for (const size_t i : order)
      {
        other.push_back(rng.Chance(0.5) ? qs[i] : Q(-qs[i].w(), -qs[i].x(), -qs[i].y(), -qs[i].z()));
        if (weighted) { ow.push_back(w[i] * (rng.Chance(0.5) ? 1 : -1)); }
      }
      const Q again = m::AverageEigenQuaterniond(other, ow);
      VT_CHECK(AngleBetween(avg, again) <= 1e-6, "average-quaternion-order-or-sign", AngleBetween(avg, again), " of ", n);
      Count("unique_quaternion_averages");
      const Iso ia = m::AverageEigenIsometry3d(isos, w);
      VT_CHECK(AngleBetween(Q(ia.linear()), avg) <= 1e-6, "average-transform-rotation", AngleBetween(Q(ia.linear()), avg));
    }
    const Iso ia = m::AverageEigenIsometry3d(isos, w);
    const V3 a3 = m::AverageEigenVector3d(threes, w);
    VT_CHECK((ia.translation() - a3).norm() <= 1e-12, "average-transform-translation", ia.translation().transpose(), " not ", a3.transpose());
    VT_CHECK((ia.linear() * ia.linear().transpose() - Eigen::Matrix3d::Identity()).norm() <= 1e-9, "average-transform-not-rigid", n, " kind ", kind);
  }
  Rejects("average-quaternion-empty", [&] { m::AverageEigenQuaterniond({}); });
  Rejects("average-quaternion-mismatch", [&] { m::AverageEigenQuaterniond(qs, wrong); });
  Rejects("average-transform-empty", [&] { m::AverageEigenIsometry3d({}); });
  Rejects("average-transform-mismatch", [&] { m::AverageEigenIsometry3d(isos, wrong); });
  Nontrivial(h);
}

void Arithmetic(Rng& rng, uint64_t)
{
  const size_t n = rng.Size(0, 9);
  std::vector<double> a, b;
  VX xa(n), xb(n), xw(n);
  uint64_t h = n;
  for (size_t i = 0; i < n; i++)
  {
    a.push_back(RandomScalar(rng));
    b.push_back(RandomScalar(rng));
    xa(static_cast<ssize_t>(i)) = rng.Wild(1e3);
    xb(static_cast<ssize_t>(i)) = rng.Wild(1e3);
    xw(static_cast<ssize_t>(i)) = rng.Chance(0.2) ? 0.0 : rng.Real(0, 4);
    h = Combine(h, HashD(a.back()) ^ HashD(xa(static_cast<ssize_t>(i))));
  }
  const double s = RandomScalar(rng);
  const auto sum = m::Add(a, b), dif = m::Sub(a, b), mul = m::Multiply(a, b), div = m::Divide(a, b);
  const auto sums = m::Add(a, s), difs = m::Sub(a, s), muls = m::Multiply(a, s), divs = m::Divide(a, s), abs = m::Abs(a);
  LD total = 0, magnitude = 0, sq = 0;
  VT_CHECK(sum.size() == n && dif.size() == n && mul.size() == n && div.size() == n && sums.size() == n && difs.size() == n
               && muls.size() == n && divs.size() == n && abs.size() == n,
           "arithmetic-size", n);
  auto same = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  for (size_t i = 0; i < n; i++)
  {
    VT_CHECK(same(sum[i], a[i] + b[i]) && same(dif[i], a[i] - b[i]) && same(mul[i], a[i] * b[i]) && same(div[i], a[i] / b[i]),
             "arithmetic-pair", a[i], " ", b[i]);
    VT_CHECK(same(sums[i], a[i] + s) && same(difs[i], a[i] - s) && same(muls[i], a[i] * s) && same(abs[i], std::abs(a[i])),
             "arithmetic-scalar", a[i], " ", s);
    if (s != 0.0) { VT_CHECK(Near(divs[i], static_cast<LD>(a[i]) / s, std::abs(a[i] / s)), "arithmetic-divide", a[i], " ", s, " ", divs[i]); }
    total += a[i];
    magnitude += std::abs(static_cast<LD>(a[i]));
    sq += static_cast<LD>(a[i]) * a[i];
  }
  VT_CHECK(std::abs(m::Sum(a) - total) <= 32 * kEps * magnitude, "vector-sum", m::Sum(a));
  VT_CHECK(std::abs(m::SquaredNorm(a) - sq) <= 32 * kEps * sq + 1e-300L, "vector-squared-norm", m::SquaredNorm(a));
  VT_CHECK(std::abs(m::Norm(a) - std::sqrt(sq)) <= 32 * kEps * std::sqrt(sq) + 1e-150L, "vector-norm", m::Norm(a));
  std::vector<double> longer = b;
  longer.push_back(1.0);
  Rejects("arithmetic-mismatch", [&] { m::Add(a, longer); });
  Rejects("arithmetic-mismatch", [&] { m::Sub(longer, a); });
  Rejects("arithmetic-mismatch", [&] { m::Multiply(a, longer); });
  Rejects("arithmetic-mismatch", [&] { m::Divide(longer, a); });
  Count("arithmetic");

  LD dot = 0, na = 0, nb = 0, mag = 0;
  for (ssize_t i = 0; i < xa.size(); i++)
  {
    dot += static_cast<LD>(xw(i)) * xa(i) * xb(i);
    mag += std::abs(static_cast<LD>(xw(i)) * xa(i) * xb(i));
    na += static_cast<LD>(xw(i)) * xa(i) * xa(i);
    nb += static_cast<LD>(xw(i)) * xb(i) * xb(i);
  }
  VT_CHECK(std::abs(m::WeightedDotProduct(xa, xb, xw) - dot) <= 32 * kEps * mag, "weighted-dot", m::WeightedDotProduct(xa, xb, xw));
  VT_CHECK(std::abs(m::WeightedSquaredNorm(xa, xw) - na) <= 32 * kEps * na, "weighted-squared-norm", m::WeightedSquaredNorm(xa, xw));
  VT_CHECK(std::abs(m::WeightedNorm(xa, xw) - std::sqrt(na)) <= 32 * kEps * std::sqrt(na), "weighted-norm", m::WeightedNorm(xa, xw));
  if (na > 0 && nb > 0)
  {
    const LD cosine = std::max(-1.0L, std::min(1.0L, dot / std::sqrt(na) / std::sqrt(nb)));
    const double c = m::WeightedCosineAngleBetweenVectors(xa, xb, xw);
    VT_CHECK(c >= -1.0 && c <= 1.0 && std::abs(c - cosine) <= 1e-12L, "weighted-cosine", c, " not ", static_cast<double>(cosine));
    const double angle = m::WeightedAngleBetweenVectors(xa, xb, xw);
    VT_CHECK(std::isfinite(angle) && std::abs(angle - std::acos(cosine)) <= 1e-5L, "weighted-angle", angle, " cosine ", c);
    const double self = m::WeightedAngleBetweenVectors(xa, xa, xw);
    VT_CHECK(self >= 0 && self <= 1e-5, "weighted-angle-self", self);
    const double away = m::WeightedAngleBetweenVectors(xa, -xa, xw);
    VT_CHECK(std::abs(away - M_PI) <= 1e-5, "weighted-angle-opposite", away);
    Count("angles");
  }
  else if (na == 0 || nb == 0)
  {
    Rejects("weighted-angle-zero", [&] { m::WeightedAngleBetweenVectors(xa, xb, xw); });
  }

  const double limit = rng.Chance(0.2) ? xa.norm() : rng.Real(0, 2.0 * xa.norm() + 1e-3);
  const VX clamped = m::ClampNorm(xa, limit);
  VT_CHECK(clamped.size() == xa.size() && clamped.norm() <= limit * (1 + 8 * kEps), "clamp-norm-exceeds", clamped.norm(), " limit ", limit);
  if (xa.norm() <= limit) { VT_CHECK(clamped == xa, "clamp-norm-changed", xa.norm(), " limit ", limit); }
  else
  {
    VT_CHECK((clamped - xa * (limit / xa.norm())).norm() <= 1e-12 * limit, "clamp-norm-direction", clamped.transpose());
    Count("clamped");
  }
  Nontrivial(h);
}

////////////////////////////////////////////////////////////////////// Twists

using Twist = Eigen::Matrix<double, 6, 1>;
using M4L = Eigen::Matrix<LD, 4, 4>;

M4L Hat(const Twist& t)
{
  M4L r = M4L::Zero();
  r(0, 1) = -t(5); r(0, 2) = t(4); r(1, 0) = t(5);
  r(1, 2) = -t(3); r(2, 0) = -t(4); r(2, 1) = t(3);
  r(0, 3) = t(0); r(1, 3) = t(1); r(2, 3) = t(2);
  return r;
}

// Scaling, a Taylor series and squaring.
M4L Exp(const Twist& t, double dt)
{
  M4L a = Hat(t) * static_cast<LD>(dt);
  int squarings = 0;
  LD norm = a.cwiseAbs().maxCoeff();
  while (norm > 0.01L) { norm *= 0.5L; squarings++; }
  a *= std::pow(0.5L, static_cast<LD>(squarings));
  M4L term = M4L::Identity(), sum = M4L::Identity();
  for (int k = 1; k < 16; k++)
  {
    term = (term * a / static_cast<LD>(k)).eval();
    sum += term;
  }
  for (; squarings > 0; squarings--) { sum = (sum * sum).eval(); }
  return sum;
}

double Diff(const Eigen::Matrix4d& a, const M4L& b) { return static_cast<double>((a.cast<LD>() - b).cwiseAbs().maxCoeff()); }

void Twists(Rng& rng, uint64_t)
{
  uint64_t h = 11;
  for (int64_t k = 0; k < 6; k++)
  {
    Twist t;
    const V3 v = RandomV3(rng, 3.0);
    V3 w = RandomAxis(rng) * rng.Real(0, 3.0);
    const int64_t kind = rng.Int(0, 7);
    if (kind == 0) { w.setZero(); }
    if (kind == 1) { w = RandomAxis(rng) * std::pow(10.0, static_cast<double>(rng.Int(-60, -1))); }
    if (kind == 2) { w = RandomAxis(rng); }
    t << v, w;
    if (kind == 3) { t.head<3>().setZero(); }
    const double dt = rng.Chance(0.2) ? 1.0 : rng.Real(-2, 2);
    h = Combine(h, HashD(t(0)) ^ HashD(t(3)) ^ HashD(dt));
    const double scale = 1.0 + v.norm();

    // Hat, skew and their inverses.
    const V3 x = RandomV3(rng, 5.0);
    const Eigen::Matrix3d skew = m::Skew(w);
    VT_CHECK((skew * x - w.cross(x)).norm() <= 1e-13 * (1 + x.norm() * w.norm()), "skew-not-cross-product", w.transpose(), " on ", x.transpose());
    VT_CHECK(m::Unskew(skew) == w, "unskew-skew", w.transpose());
    const Eigen::Matrix3d extra = Eigen::Matrix3d::Random();
    VT_CHECK((m::Unskew(skew + extra + extra.transpose()) - w).norm() <= 1e-14, "unskew-symmetric-part", w.transpose());
    const Eigen::Matrix4d hat = m::TwistHat(t);
    VT_CHECK(Diff(hat, Hat(t)) == 0, "twist-hat", t.transpose());
    VT_CHECK(m::TwistUnhat(hat) == t, "twist-unhat", t.transpose());

    // Exponentials.
    const Iso e = m::ExpTwist(t, dt);
    VT_CHECK(Diff(e.matrix(), Exp(t, dt)) <= 1e-7 * scale, "exp-twist", t.transpose(), " for ", dt, " off by ", Diff(e.matrix(), Exp(t, dt)));
    VT_CHECK((e.linear() * e.linear().transpose() - Eigen::Matrix3d::Identity()).norm() <= 1e-12 && e.linear().determinant() > 0,
             "exp-twist-not-rigid", t.transpose());
    // Slower for longer, or faster for shorter, is the same motion.
    const double factor = std::ldexp(1.0, static_cast<int>(rng.Int(-90, 60)));
    const Iso paced = m::ExpTwist(t * factor, dt / factor);
    VT_CHECK((paced.matrix() - e.matrix()).cwiseAbs().maxCoeff() <= 1e-7 * scale, "exp-twist-pace", t.transpose(), " times ", factor, " for ", dt,
             " divided by it");
    const double dt2 = rng.Real(-1, 1);
    VT_CHECK(((e * m::ExpTwist(t, dt2)).matrix() - m::ExpTwist(t, dt + dt2).matrix()).cwiseAbs().maxCoeff() <= 1e-6 * scale,
             "exp-twist-does-not-compose", t.transpose(), " for ", dt, " and ", dt2);
    if (w.norm() > 1e-3)
    {
      const V3 unit = w.normalized();
      const double angle = rng.Real(-7, 7);
      const Eigen::Matrix3d r = m::ExpMatrixExact(m::Skew(unit), angle);
      VT_CHECK((r - Eigen::AngleAxisd(angle, unit).toRotationMatrix()).norm() <= 1e-12, "exp-matrix", unit.transpose(), " by ", angle);
      const double wrong = rng.Chance(0.5) ? rng.Real(0.0, 0.999) : rng.Real(1.001, 4.0);
      Rejects("exp-matrix-bad-axis", [&] { m::ExpMatrixExact(m::Skew(unit * wrong), angle); });
    }
    Count("exponentials");

    // Moving twists between frames.
    const Iso a = RandomIso(rng, 3.0), b = RandomIso(rng, 3.0);
    const Twist moved = m::TransformTwist(a, t);
    const Eigen::Matrix4d conj = a.matrix() * hat * a.inverse().matrix();
    VT_CHECK((m::TwistHat(moved) - conj).cwiseAbs().maxCoeff() <= 1e-12 * (1 + scale * (1 + a.translation().norm())) * 4, "transform-twist",
             t.transpose());
    VT_CHECK((m::AdjointFromTransform(a * b) - m::AdjointFromTransform(a) * m::AdjointFromTransform(b)).cwiseAbs().maxCoeff() <= 1e-11,
             "adjoint-composition", k);
    VT_CHECK((m::AdjointFromTransform(a) * m::AdjointFromTransform(a.inverse()) - Eigen::Matrix<double, 6, 6>::Identity()).cwiseAbs().maxCoeff() <= 1e-11,
             "adjoint-inverse", k);

    // The twist between two poses carries one to the other.
    const double angle = rng.Chance(0.2) ? 0.0 : rng.Chance(0.2) ? rng.Real(3.0, 3.13) : rng.Real(-3.1, 3.1);
    const Iso step = Eigen::Translation3d(RandomV3(rng, 3.0)) * Q(Eigen::AngleAxisd(angle, RandomAxis(rng)));
    const Iso goal = a * step;
    const Twist between = m::TwistBetweenTransforms(a, goal);
    VT_CHECK(between.allFinite(), "twist-between-not-finite", angle);
    VT_CHECK((a * m::ExpTwist(between, 1.0)).isApprox(goal, 1e-6), "twist-between-misses", "rotation by ", angle, " twist ", between.transpose());
    VT_CHECK(std::abs(between.tail<3>().norm() - std::abs(angle)) <= 1e-6, "twist-between-not-shortest", between.tail<3>().norm(), " for ", angle);
    Count("twists_between");
  }
  Nontrivial(h);
}

/////////////////////////////////////////////////////////////////////// Planes

template<typename S>
void Orthogonal(Rng& rng, ssize_t n, double tol)
{
  using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
  V v(n);
  for (ssize_t i = 0; i < n; i++)
  {
    v(i) = static_cast<S>(rng.Chance(0.4) ? 0.0 : rng.Chance(0.2) ? rng.Real(-1, 1) * 1e-9 : rng.Real(-5, 5));
  }
  if (rng.Chance(0.3)) { v.setZero(); v(rng.Int(0, n - 1)) = static_cast<S>(rng.Real(-3, 3)); }
  V r;
  const Thrown t = Catch([&] { r = m::GetArbitraryOrthogonalVector(v); });
  if (t == Thrown::RUNTIME_ERROR)
  {
    VT_CHECK(n == 1 && v(0) != 0, "orthogonal-refused", v.transpose());
    Count("no_orthogonal");
    return;
  }
  VT_CHECK(t == Thrown::NONE, "orthogonal-threw", static_cast<int>(t), " ", v.transpose());
  VT_CHECK(r.size() == n && r.norm() > 0, "orthogonal-zero", v.transpose());
  VT_CHECK(std::abs(v.normalized().dot(r.normalized())) <= tol, "not-orthogonal", "vector ", v.transpose(), " result ", r.transpose());
  Count("orthogonal");
}

void Planes(Rng& rng, uint64_t)
{
  uint64_t h = 13;
  const ssize_t n = rng.Int(1, 6);
  auto random = [&](double scale)
  {
    VX v(n);
    for (ssize_t i = 0; i < n; i++) { v(i) = rng.Chance(0.2) ? 0.0 : rng.Real(-scale, scale); }
    return v;
  };
  // Projection and rejection.
  for (int64_t k = 0; k < 5; k++)
  {
    const VX base = rng.Chance(0.1) ? VX(VX::Zero(n)) : random(rng.Pick(std::vector<double>{1e-3, 1.0, 1e3}));
    const VX v = rng.Chance(0.1) ? VX(base * 2.0) : random(5.0);
    h = Combine(h, HashD(base(0)) ^ HashD(v(0)));
    const VX p = m::VectorProjection(base, v);
    const VX r = m::VectorRejection(base, v);
    VT_CHECK(p.size() == n && r.size() == n, "projection-size", p.size());
    VT_CHECK((p + r - v).norm() <= 1e-12 * (1 + v.norm()), "projection-rejection-do-not-add-up", v.transpose());
    if (base.norm() > 0)
    {
      const VX unit = base / base.norm();
      VT_CHECK((p - unit * unit.dot(v)).norm() <= 1e-12 * (1 + v.norm()), "projection", p.transpose(), " of ", v.transpose(), " onto ", base.transpose());
      VT_CHECK(std::abs(unit.dot(r)) <= 1e-12 * (1 + v.norm()), "rejection-not-perpendicular", r.transpose());
    }
    else { VT_CHECK(p.norm() == 0, "projection-onto-zero", p.transpose()); Count("zero_base"); }
    Count("projections");
    if (n == 3)
    {
      const V3 p3 = m::VectorProjection(V3(base), V3(v));
      VT_CHECK((p3 - p).norm() <= 1e-12 * (1 + v.norm()), "projection-fixed-size", p3.transpose());
    }
    Orthogonal<double>(rng, n, 1e-12);
    Orthogonal<float>(rng, n, 1e-5);
  }
  Rejects("orthogonal-empty", [&] { m::GetArbitraryOrthogonalVector(VX(0)); });

  // Planes, whose normals need not be unit vectors.
  VX normal = random(3.0);
  if (normal.norm() < 0.1) { normal.setZero(); normal(rng.Int(0, n - 1)) = 1.0; }
  const VX origin = random(5.0);
  const VX unit = normal / normal.norm();
  const m::Hyperplane plane(origin, normal);
  VT_CHECK(plane.GetDimensionality() == static_cast<size_t>(n) && plane.GetOrigin() == origin && plane.GetNormal() == normal, "plane-fields", n);
  Rejects("plane-mismatch", [&] { m::Hyperplane(origin, VX(VX::Ones(n + 1))); });
  for (int64_t k = 0; k < 5; k++)
  {
    const VX p = rng.Chance(0.1) ? origin : random(10.0);
    const double tol = 1e-11 * (1 + p.norm() + origin.norm());
    const double d = std::abs(unit.dot(p - origin));
    VT_CHECK(std::abs(plane.GetDistanceToPlane(p) - d) <= tol, "plane-distance", plane.GetDistanceToPlane(p), " not ", d);
    VT_CHECK(std::abs(plane.GetSquaredDistanceToPlane(p) - d * d) <= tol * (1 + d) * 4, "plane-squared-distance", plane.GetSquaredDistanceToPlane(p), " not ", d * d);
    const VX q = plane.ProjectPointOntoPlane(p);
    VT_CHECK(std::abs(unit.dot(q - origin)) <= tol, "projected-point-off-plane", q.transpose());
    VT_CHECK(std::abs((p - q).norm() - d) <= tol, "projected-point-not-closest", (p - q).norm(), " distance ", d);
    const VX along = plane.ProjectVectorOntoPlane(p), away = plane.RejectVectorOntoPlane(p);
    VT_CHECK((along + away - p).norm() <= tol, "plane-split-does-not-add-up", p.transpose());
    VT_CHECK(std::abs(unit.dot(along)) <= tol, "vector-not-along-plane", along.transpose());
    VT_CHECK((away - unit * unit.dot(p)).norm() <= tol, "vector-not-along-normal", away.transpose());
    VT_CHECK(std::abs(plane.GetRawDotProduct(p) - normal.dot(p - origin)) <= tol * (1 + normal.norm()), "plane-raw-dot", plane.GetRawDotProduct(p));
    if (p == origin) { VT_CHECK(plane.GetNormedDotProduct(p) == 0, "plane-normed-dot-origin", plane.GetNormedDotProduct(p)); }
    else if ((p - origin).norm() > 1e-3)
    {
      VT_CHECK(std::abs(plane.GetNormedDotProduct(p) - normal.dot(p - origin) / (p - origin).norm()) <= 1e-10 * (1 + normal.norm()), "plane-normed-dot",
               plane.GetNormedDotProduct(p));
    }
    Count("plane_queries");
  }

  // Fitting.
  const size_t count = rng.Chance(0.05) ? rng.Size(11, 60) : rng.Size(1, 10);
  if (count > 10) { Count("fits_to_many_points"); }
  const double noise = rng.Pick(std::vector<double>{0.0, 0.0, 0.1, 5.0});
  std::vector<VX> points;
  for (size_t i = 0; i < count; i++)
  {
    points.push_back(plane.ProjectPointOntoPlane(random(5.0)) + unit * rng.Real(-noise, noise));
  }
  if (rng.Chance(0.1)) { for (VX& p : points) { p = points[0]; } }
  const m::Hyperplane fit = m::FitPlaneToPoints(points);
  VX centroid = VX::Zero(n);
  for (const VX& p : points) { centroid += p; }
  centroid /= static_cast<double>(count);
  VT_CHECK(static_cast<ssize_t>(fit.GetDimensionality()) == n && (fit.GetOrigin() - centroid).norm() <= 1e-11 * (1 + centroid.norm()), "fit-centroid",
           fit.GetOrigin().transpose(), " not ", centroid.transpose());
  VT_CHECK(std::abs(fit.GetNormal().norm() - 1.0) <= 1e-12, "fit-normal-not-unit", fit.GetNormal().transpose(), " of ", count, " points");
  auto residual = [&](const VX& at, const VX& dir)
  {
    double s = 0;
    for (const VX& p : points) { s += std::pow(dir.dot(p - at), 2); }
    return s;
  };
  const double got = residual(fit.GetOrigin(), fit.GetNormal());
  const double slack = 1e-12 * (1 + residual(centroid, unit));
  auto versus = [&](VX dir)
  {
    if (dir.norm() < 1e-6) { return; }
    dir /= dir.norm();
    VT_CHECK(got <= residual(centroid, dir) + slack * 100, "fit-not-best", "residual ", got, " better ", residual(centroid, dir), " with ", dir.transpose(),
             " of ", count, " points");
    Count("fit_comparisons");
  };
  versus(unit);
  for (ssize_t i = 0; i < n; i++) { VX e = VX::Zero(n); e(i) = 1.0; versus(e); }
  for (int64_t k = 0; k < 8; k++) { versus(random(1.0)); versus(fit.GetNormal() + random(rng.Pick(std::vector<double>{1e-3, 0.05, 0.5}))); }
  Count("fits");
  Rejects("fit-empty", [&] { m::FitPlaneToPoints({}); });
  Nontrivial(h);
}
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 42
  return vt::Main(argc, argv, {{"revolute", 150000, 60000000, Revolute}});
#elif VT_PROP == 43
  return vt::Main(argc, argv, {{"interpolation", 40000, 12000000, Interpolation}, {"multilinear", 40000, 10000000, Multilinear}});
#elif VT_PROP == 44
  return vt::Main(argc, argv, {{"averages", 80000, 20000000, Averages}, {"arithmetic", 80000, 20000000, Arithmetic}});
#elif VT_PROP == 45
  return vt::Main(argc, argv, {{"twists", 60000, 8000000, Twists}});
#elif VT_PROP == 46
  return vt::Main(argc, argv, {{"planes", 80000, 20000000, Planes}});
#endif
}
