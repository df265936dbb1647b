// Time-optimal trajectory parametrization. VT_PROP=39: the trajectory itself
// (path, limits, duration), checked against an independent construction of the
// blended path and an independent numeric solution of the same optimal control
// problem. VT_PROP=40: queries, clones, invalid input.
#include "common.hpp"

#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace totp = cru::time_optimal_trajectory_parametrization;
using Vec = Eigen::VectorXd;
using TrajPtr = std::unique_ptr<totp::PositionVelocityTrajectoryInterface>;

namespace
{
struct Problem
{
  std::vector<Vec> path;
  Vec max_v, max_a;
  double dev = 0, ts = 0.001;
  std::string Describe() const
  {
    std::ostringstream os;
    os.precision(17);
    os << "dev " << dev << " ts " << ts << " v " << max_v.transpose() << " a " << max_a.transpose() << " path";
    for (const Vec& w : path) { os << " [" << w.transpose() << "]"; }
    return os.str();
  }
  uint64_t Hash() const
  {
    uint64_t h = path.size();
    const auto add = [&](double d) { uint64_t v; std::memcpy(&v, &d, 8); h = Combine(h, v); };
    for (const Vec& w : path) { for (Eigen::Index i = 0; i < w.size(); i++) { add(w[i]); } }
    add(dev);
    add(ts);
    return h;
  }
  TrajPtr Make() const { return totp::ParametrizePathTOTP(path, max_v, max_a, dev, ts); }
};

#if VT_PROP == 39
// One straight or circular piece of the reference path, by arc length.
struct Piece
{
  bool arc = false;
  double begin = 0, length = 0, radius = 0, angle = 0;
  Vec a, dir, normal;  // line: a + s * dir; arc: a = start, dir = first tangent, normal towards the centre
  Vec Config(double s) const
  {
    if (!arc) { return a + dir * s; }
    const double t = s / radius;
    const double half = std::sin(0.5 * t);
    return a + radius * (dir * std::sin(t) + normal * (2.0 * half * half));
  }
  Vec Tangent(double s) const
  {
    if (!arc) { return dir; }
    const double t = s / radius;
    return dir * std::cos(t) + normal * std::sin(t);
  }
  Vec Curvature(double s) const
  {
    if (!arc) { return Vec::Zero(dir.size()); }
    const double t = s / radius;
    return (normal * std::cos(t) - dir * std::sin(t)) / radius;
  }
  // Arc length of the nearest point, clamped to the piece.
  double Project(const Vec& p) const
  {
    double s;
    if (!arc) { s = (p - a).dot(dir); }
    else
    {
      const Vec r = p - a;
      double t = std::atan2(r.dot(dir), radius - r.dot(normal));
      if (t < -0.5 * (2.0 * M_PI - angle)) { t += 2.0 * M_PI; }
      s = t * radius;
    }
    return std::min(length, std::max(0.0, s));
  }
};

struct Geometry
{
  std::vector<Piece> pieces;
  double length = 0;
  double min_radius = std::numeric_limits<double>::infinity();
  size_t arcs = 0;

  void Line(const Vec& from, const Vec& to)
  {
    const double l = (to - from).norm();
    if (l < 1e-12) { return; }
    Piece p;
    p.a = from;
    p.dir = (to - from) / l;
    p.begin = length;
    p.length = l;
    length += l;
    pieces.push_back(p);
  }

  explicit Geometry(const Problem& pr)
  {
    const auto& w = pr.path;
    Vec cur = w[0];
    for (size_t i = 1; i + 1 < w.size(); i++)
    {
      const Vec d1 = (w[i] - w[i - 1]).normalized(), d2 = (w[i + 1] - w[i]).normalized();
      const double c = std::min(1.0, std::max(-1.0, d1.dot(d2)));
      const double angle = 2.0 * std::atan2((d1 - d2).norm(), (d1 + d2).norm());
      if (pr.dev <= 0.0 || (d1 - d2).norm() < 1e-6)
      {
        Line(cur, w[i]);
        cur = w[i];
        continue;
      }
      // A circle tangent to both edges at distance t from the corner is
      // t * tan(angle / 4) away from the corner.
      const double t = std::min({0.5 * (w[i] - w[i - 1]).norm(), 0.5 * (w[i + 1] - w[i]).norm(),
                                 pr.dev / std::tan(0.25 * angle)});
      Line(cur, w[i] - t * d1);
      Piece p;
      p.arc = true;
      p.radius = t / std::tan(0.5 * angle);
      p.angle = angle;
      p.dir = d1;
      p.normal = (d2 - c * d1).normalized();
      p.a = w[i] - t * d1;
      p.begin = length;
      p.length = p.radius * angle;
      length += p.length;
      pieces.push_back(p);
      min_radius = std::min(min_radius, p.radius);
      arcs++;
      cur = w[i] + t * d2;
    }
    Line(cur, w.back());
  }

  double MaxPathSpeed(const Problem& pr) const
  {
    return pr.max_v.norm();
  }

  // Reachable-set solution (backward controllable sets, then greedy forward)
  // of the time-optimal problem on a fine grid.
  double OptimalDuration(const Problem& pr) const
  {
    struct Stage { Vec q1, q2; double d; };
    std::vector<Stage> st;
    for (const Piece& p : pieces)
    {
      const int n = p.arc ? 150 : 300;
      for (int i = 0; i < n; i++)
      {
        // Lines are refined towards both ends, where the speed changes.
        const double s0 = p.arc ? p.length * i / n : p.length * 0.5 * (1 - std::cos(M_PI * i / n));
        const double s1 = p.arc ? p.length * (i + 1) / n : p.length * 0.5 * (1 - std::cos(M_PI * (i + 1) / n));
        const double m = 0.5 * (s0 + s1);
        st.push_back({p.Tangent(m), p.Curvature(m), s1 - s0});
      }
    }
    const size_t n = st.size();
    const Eigen::Index dof = pr.max_v.size();
    std::vector<double> cap(n + 1, 1e12), k(n + 1, 0.0);
    for (size_t i = 0; i < n; i++)
    {
      double c = 1e6;
      for (Eigen::Index j = 0; j < dof; j++)
      {
        const double t = std::abs(st[i].q1[j]);
        if (t > 0) { c = std::min(c, pr.max_v[j] / t); }
      }
      cap[i] = std::min(cap[i], c * c);
      cap[i + 1] = std::min(cap[i + 1], c * c);
    }
    const auto range = [&](const Stage& s, double x, double& lo, double& hi)
    {
      lo = -1e300;
      hi = 1e300;
      for (Eigen::Index j = 0; j < dof; j++)
      {
        const double a = s.q1[j], b = s.q2[j] * x;
        if (std::abs(a) < 1e-12)
        {
          if (std::abs(b) > pr.max_a[j]) { lo = 1; hi = -1; return; }
          continue;
        }
        double l = (-pr.max_a[j] - b) / a, h = (pr.max_a[j] - b) / a;
        if (l > h) { std::swap(l, h); }
        lo = std::max(lo, l);
        hi = std::min(hi, h);
      }
    };
    for (size_t r = n; r-- > 0;)
    {
      const double d2 = 2 * st[r].d;
      const auto feasible = [&](double x)
      {
        double lo, hi;
        range(st[r], x, lo, hi);
        return lo <= hi && std::max(lo, -x / d2) <= std::min(hi, (k[r + 1] - x) / d2);
      };
      double a = 0, b = cap[r];
      if (feasible(b)) { a = b; }
      else
      {
        for (int i = 0; i < 50; i++)
        {
          const double m = 0.5 * (a + b);
          if (feasible(m)) { a = m; } else { b = m; }
        }
      }
      k[r] = a;
    }
    double x = 0, total = 0;
    for (size_t i = 0; i < n; i++)
    {
      double lo, hi;
      range(st[i], x, lo, hi);
      const double y = std::max(0.0, std::min(k[i + 1], x + 2 * st[i].d * hi));
      total += 2 * st[i].d / (std::sqrt(x) + std::sqrt(y));
      x = y;
    }
    return total;
  }
};

struct Expect
{
  bool acceleration = true;  // limits hold through every corner
  bool duration = true;      // matches the optimum both ways (else only from above)
  std::string prefix = "totp";
};

void CheckTrajectory(const Problem& pr, const totp::PositionVelocityTrajectoryInterface& t, const Expect& ex)
{
  const Geometry geo(pr);
  const double total = t.Duration();
  VT_CHECK(std::isfinite(total) && total > 0, ex.prefix + "-duration-not-positive", total, " ", pr.Describe());
  const double corners = static_cast<double>(pr.path.size());
  const double best = geo.OptimalDuration(pr);
  const double slack = 0.01 * best + 3 * pr.ts * corners;
  VT_CHECK(total <= best + slack, ex.prefix + "-slower-than-optimal", total, " optimum ", best, " ", pr.Describe());
  if (ex.duration)
  {
    VT_CHECK(total >= best - slack, ex.prefix + "-faster-than-limits-allow", total, " optimum ", best, " ",
             pr.Describe());
    MaxOf("duration_error_permille", static_cast<uint64_t>(1000 * std::abs(total - best) / best));
  }
  double size = 1.0;
  for (const Vec& w : pr.path) { size = std::max(size, w.norm()); }
  // The code leaves out straight pieces shorter than a millionth.
  const double tol = 1e-7 * size + (pr.dev > 0 ? 1e-6 : 0.0);
  const size_t n = std::min<size_t>(3000, std::max<size_t>(200, static_cast<size_t>(std::ceil(2 * total / pr.ts))));
  const double h = total / static_cast<double>(n);
  std::vector<Vec> pos(n + 1), vel(n + 1);
  std::vector<double> s(n + 1);
  std::vector<size_t> at(n + 1);
  for (size_t i = 0; i <= n; i++)
  {
    const double time = i == n ? total : h * static_cast<double>(i);
    const auto q = t.GetPositionVelocityTimePoint(time);
    VT_CHECK(q.Time() == time, ex.prefix + "-time-stamp", q.Time(), " asked ", time);
    pos[i] = q.Position();
    vel[i] = q.Velocity();
    VT_CHECK(pos[i].size() == pr.max_v.size() && pos[i].array().isFinite().all() && vel[i].array().isFinite().all(),
             ex.prefix + "-state-not-finite", "time ", time, " ", pr.Describe());
    for (Eigen::Index j = 0; j < pr.max_v.size(); j++)
    {
      VT_CHECK(std::abs(vel[i][j]) <= pr.max_v[j] * (1 + 1e-6) + 2 * pr.ts * pr.max_a[j],
               ex.prefix + "-velocity-limit", "joint ", j, " velocity ", vel[i][j], " limit ", pr.max_v[j], " time ", time,
               " ", pr.Describe());
    }
    // Follow the reference path: the first piece (from the current one on) that
    // contains the position, without moving back or jumping ahead.
    const double from = i == 0 ? 0.0 : s[i - 1];
    const double reach = from + h * (geo.MaxPathSpeed(pr) + 2 * pr.ts * pr.max_a.norm()) * 1.01 + 10 * tol;
    // On a border between pieces either tangent will do.
    bool found = false, on_path = false;
    const double speed = vel[i].norm();
    double nearest = std::numeric_limits<double>::infinity();
    for (size_t p = i == 0 ? 0 : at[i - 1]; !found && p < geo.pieces.size() && geo.pieces[p].begin <= reach; p++)
    {
      const Piece& piece = geo.pieces[p];
      const double along = piece.Project(pos[i]);
      const double off = (piece.Config(along) - pos[i]).norm();
      nearest = std::min(nearest, off);
      if (off > tol || piece.begin + along < from - 10 * tol || piece.begin + along > reach) { continue; }
      on_path = true;
      const double slack_dir = 1e-5 + (piece.arc ? 20 * tol / piece.radius : 0.0);
      const bool border = along < 20 * tol || along > piece.length - 20 * tol;
      if (!border && (vel[i] - piece.Tangent(along) * speed).norm() > slack_dir * speed + 1e-9) { continue; }
      s[i] = std::max(from, piece.begin + along);
      at[i] = p;
      found = true;
    }
    VT_CHECK(on_path, ex.prefix + "-leaves-path", "time ", time, " of ", total, " off by ", nearest, " after ", from, " of ",
             geo.length, " ", pr.Describe());
    VT_CHECK(found, ex.prefix + "-velocity-off-path", "time ", time, " ", pr.Describe());
  }
  VT_CHECK((pos[0] - pr.path.front()).norm() <= tol && (pos[n] - pr.path.back()).norm() <= tol,
           ex.prefix + "-endpoints", pr.Describe());
  VT_CHECK(geo.length - s[n] <= 100 * tol, ex.prefix + "-path-not-finished", s[n], " of ", geo.length);
  for (Eigen::Index j = 0; j < pr.max_v.size(); j++)
  {
    const double rest = 1e-6 * std::max(1.0, pr.max_v[j]);
    VT_CHECK(std::abs(vel[0][j]) <= rest && std::abs(vel[n][j]) <= rest, ex.prefix + "-not-at-rest",
             vel[0][j], " ", vel[n][j], " ", pr.Describe());
  }
  for (const size_t window : {size_t{1}, size_t{7}, size_t{50}, size_t{300}})
  {
    for (size_t i = 0; i + window <= n; i++)
    {
      // Without blends only the inside of a straight piece is limited.
      const bool same = at[i] == at[i + window] && !geo.pieces[at[i]].arc &&
                        s[i] - geo.pieces[at[i]].begin > 3 * pr.ts * geo.MaxPathSpeed(pr) &&
                        geo.pieces[at[i]].begin + geo.pieces[at[i]].length - s[i + window] >
                            3 * pr.ts * geo.MaxPathSpeed(pr);
      if (!ex.acceleration && !same) { continue; }
      const double dt = h * static_cast<double>(window);
      const double extra = same ? 4 * pr.ts : 30 * pr.ts;
      for (Eigen::Index j = 0; j < pr.max_v.size(); j++)
      {
        VT_CHECK(std::abs(vel[i + window][j] - vel[i][j]) <= pr.max_a[j] * (dt * (1 + 1e-6) + extra) + 1e-9,
                 ex.prefix + "-acceleration-limit", "joint ", j, " changes by ", vel[i + window][j] - vel[i][j], " in ",
                 dt, " at ", h * static_cast<double>(i), " limit ", pr.max_a[j], " ", pr.Describe());
        if (window == 1 && (ex.acceleration || same))
        {
          const double moved = pos[i + 1][j] - pos[i][j];
          VT_CHECK(std::abs(moved - 0.5 * h * (vel[i][j] + vel[i + 1][j])) <=
                       h * pr.max_a[j] * (h + extra) + 1e-9 * size,
                   ex.prefix + "-velocity-not-derivative", "joint ", j, " at ", h * static_cast<double>(i), " ",
                   pr.Describe());
        }
      }
      Count("window_checks");
    }
  }
  Count("states_checked", n);
  Count("arcs_followed", geo.arcs);
  Count("trajectories");
}

// Coarse time steps may be rejected with runtime_error; finer ones must work.
TrajPtr MakeRefining(Problem& pr, const std::string& prefix)
{
  for (int round = 0; round < 4; round++)
  {
    TrajPtr t;
    const Thrown th = Catch([&] { t = pr.Make(); });
    if (th == Thrown::NONE)
    {
      VT_CHECK(t != nullptr, prefix + "-null", "");
      return t;
    }
    VT_CHECK(th == Thrown::RUNTIME_ERROR, prefix + "-unexpected-exception", LastWhat(), " ", pr.Describe());
    Count("refused_as_too_coarse");
    pr.ts *= 0.2;
  }
  Fail(prefix + "-no-trajectory", Str(LastWhat(), " at ts ", pr.ts, " ", pr.Describe()));
}

Problem RandomProblem(Rng& rng, double min_cos, bool lattice, bool close = false)
{
  Problem pr;
  const size_t dof = rng.Chance(0.1) ? rng.Size(7, 9) : rng.Size(1, 6);
  const size_t n = rng.Chance(0.1) ? 2 : rng.Chance(0.03) ? rng.Size(12, 25) : rng.Size(2, 8);
  if (dof > 6) { Count("many_joints"); }
  if (n > 8) { Count("long_paths"); }
  const double scale = std::pow(10.0, rng.Real(-1.0, 0.5));
  pr.max_v = Vec(static_cast<Eigen::Index>(dof));
  pr.max_a = pr.max_v;
  for (Eigen::Index j = 0; j < pr.max_v.size(); j++)
  {
    pr.max_v[j] = std::pow(10.0, rng.Real(-0.7, 0.7));
    pr.max_a[j] = std::pow(10.0, rng.Real(-0.5, 1.0));
  }
  for (size_t tries = 0; pr.path.size() < n && tries < 2000; tries++)
  {
    Vec w(pr.max_v.size());
    for (Eigen::Index j = 0; j < w.size(); j++)
    {
      w[j] = lattice ? static_cast<double>(rng.Int(-2, 2)) * 0.5 : rng.Real(-scale, scale);
    }
    // Nearly straight on, or hardly moving.
    if (pr.path.size() >= 2 && !lattice && rng.Chance(0.08))
    {
      const Vec d1 = pr.path.back() - pr.path[pr.path.size() - 2];
      w = pr.path.back() + rng.Real(0.3, 1.5) * (d1 + std::pow(10.0, rng.Real(-5.0, -1.5)) * d1.norm() * (w / (1e-9 + w.norm())));
      Count("nearly_straight");
    }
    double shortest = 0.01;
    if (close && !pr.path.empty() && rng.Chance(0.05))
    {
      w = pr.path.back() + std::pow(10.0, rng.Real(-3.0, -2.0)) * (w / (1e-9 + w.norm()));
      shortest = 5e-4;
      Count("hardly_moving");
    }
    if (!pr.path.empty())
    {
      const Vec d2 = w - pr.path.back();
      if (d2.norm() < shortest) { continue; }
      if (pr.path.size() >= 2)
      {
        const Vec d1 = pr.path.back() - pr.path[pr.path.size() - 2];
        if (d1.dot(d2) < min_cos * d1.norm() * d2.norm()) { continue; }
      }
    }
    pr.path.push_back(w);
  }
  pr.ts = rng.Pick(std::vector<double>{0.001, 0.002, 0.005});
  return pr;
}

void Blended(Rng& rng, uint64_t)
{
  Problem pr = RandomProblem(rng, -0.9, rng.Chance(0.3), rng.Chance(0.3));
  if (pr.path.size() < 2) { return; }
  pr.dev = std::pow(10.0, rng.Real(-2.3, 0.3));
  Nontrivial(pr.Hash());
  const TrajPtr t = MakeRefining(pr, "totp");
  CheckTrajectory(pr, *t, Expect());
}

void Unblended(Rng& rng, uint64_t)
{
  Problem pr = RandomProblem(rng, -1.1, rng.Chance(0.3));
  if (pr.path.size() < 2) { return; }
  Nontrivial(pr.Hash());
  const TrajPtr t = MakeRefining(pr, "totp-corner");
  Expect ex;
  ex.acceleration = pr.path.size() == 2;
  ex.duration = pr.path.size() == 2;
  ex.prefix = "totp-corner";
  CheckTrajectory(pr, *t, ex);
}

// Sharper turns (up to about 172 degrees).
void Sharp(Rng& rng, uint64_t)
{
  Problem pr = RandomProblem(rng, -0.99, rng.Chance(0.7));
  if (pr.path.size() < 2) { return; }
  pr.dev = std::pow(10.0, rng.Real(-2.0, 0.0));
  Nontrivial(pr.Hash());
  const TrajPtr t = MakeRefining(pr, "totp-sharp");
  Expect ex;
  ex.prefix = "totp-sharp";
  CheckTrajectory(pr, *t, ex);
}

// The path turns back on itself exactly, with blending enabled.
void Reversal(Rng& rng, uint64_t)
{
  Problem pr;
  const Eigen::Index dof = rng.Int(1, 3);
  const Vec a = Vec::Zero(dof);
  Vec b = a;
  b[rng.Int(0, dof - 1)] = static_cast<double>(rng.Int(1, 4));
  pr.path = {a, b, a};
  pr.dev = 0.125;
  pr.max_v = Vec::Constant(dof, rng.Real(0.5, 2.0));
  pr.max_a = Vec::Constant(dof, rng.Real(1.0, 4.0));
  Nontrivial(pr.Hash());
  TrajPtr t;
  VT_CHECK(Catch([&] { t = pr.Make(); }) == Thrown::NONE, "totp-reversal-refused", LastWhat(), " ", pr.Describe());
  const double total = t->Duration(), h = 20 * pr.ts;
  for (double time = 0; time + h < total; time += 0.25 * h)
  {
    const Vec dv = t->GetPositionVelocityTimePoint(time + h).Velocity() - t->GetPositionVelocityTimePoint(time).Velocity();
    VT_CHECK((dv.array().abs() <= pr.max_a.array() * (h + 10 * pr.ts)).all(), "totp-reversal-not-stopped",
             "velocity changes by ", dv.transpose(), " in ", h, " ", pr.Describe());
  }
}
#endif

#if VT_PROP == 40
Problem SmallProblem(Rng& rng)
{
  Problem pr;
  const Eigen::Index dof = rng.Int(1, 4);
  const size_t n = rng.Size(2, 5);
  Vec prev, dir;
  for (size_t tries = 0; pr.path.size() < n && tries < 500; tries++)
  {
    Vec w(dof);
    for (Eigen::Index j = 0; j < dof; j++) { w[j] = rng.Real(-1, 1); }
    if (!pr.path.empty())
    {
      const Vec d = w - prev;
      if (d.norm() < 0.1 || (pr.path.size() > 1 && d.dot(dir) < -0.8 * d.norm() * dir.norm())) { continue; }
      dir = d;
    }
    prev = w;
    pr.path.push_back(w);
  }
  pr.max_v = Vec::Constant(dof, rng.Real(0.5, 3.0));
  pr.max_a = Vec::Constant(dof, rng.Real(1.0, 8.0));
  pr.dev = rng.Chance(0.3) ? 0.0 : rng.Real(0.05, 0.5);
  pr.ts = rng.Pick(std::vector<double>{0.01, 0.02});
  return pr;
}

bool SameState(const totp::PositionVelocityTimePoint& a, const totp::PositionVelocityTimePoint& b)
{
  return a.Time() == b.Time() && a.Position() == b.Position() && a.Velocity() == b.Velocity();
}

// Whatever was asked before, of this object or of the one it was cloned from
// (which may be gone), a trajectory answers each time the same.
void Queries(Rng& rng, uint64_t)
{
  const Problem pr = SmallProblem(rng);
  if (pr.path.size() < 2) { return; }
  TrajPtr first;
  const Thrown made = Catch([&] { first = pr.Make(); });
  if (made != Thrown::NONE)
  {
    VT_CHECK(made == Thrown::RUNTIME_ERROR, "totp-unexpected-exception", LastWhat(), " ", pr.Describe());
    Count("refused_as_too_coarse");
    return;
  }
  Nontrivial(pr.Hash());
  const double total = first->Duration();
  std::vector<double> times{0.0, -0.0, total, std::nextafter(total, 0.0), pr.ts, 0.5 * pr.ts, 5e-324, 0.5 * total};
  for (size_t i = 0; i < 6; i++) { times.push_back(rng.Chance(0.2) ? pr.ts * rng.Int(0, 50) : rng.Real(0, total)); }
  for (double& t : times) { t = std::min(t, total); }
  // One untouched object per answer.
  std::vector<totp::PositionVelocityTimePoint> want;
  for (const double t : times) { want.push_back(pr.Make()->GetPositionVelocityTimePoint(t)); }
  std::vector<TrajPtr> live;
  live.push_back(std::move(first));
  for (size_t step = 0; step < 150; step++)
  {
    const size_t who = rng.Size(0, live.size() - 1);
    switch (rng.Int(0, 9))
    {
      case 0:
        live.push_back(live[who]->Clone());
        Count("clones");
        break;
      case 1:
        if (live.size() > 1)
        {
          live.erase(live.begin() + static_cast<std::ptrdiff_t>(who));
          Count("originals_destroyed");
        }
        break;
      case 2:
      {
        const double bad = rng.Pick(std::vector<double>{-1.0, -5e-324, -std::numeric_limits<double>::infinity(),
                                                        std::numeric_limits<double>::quiet_NaN()});
        VT_CHECK(Catch([&] { live[who]->GetPositionVelocityTimePoint(bad); }) == Thrown::INVALID_ARGUMENT,
                 "totp-bad-time-accepted", bad, " ", LastWhat());
        Count("bad_times");
        break;
      }
      default:
      {
        const size_t i = rng.Size(0, times.size() - 1);
        const auto got = live[who]->GetPositionVelocityTimePoint(times[i]);
        VT_CHECK(SameState(got, want[i]), "totp-answer-depends-on-history", "time ", times[i], " of ", total, " after ", step,
                 " steps ", pr.Describe());
        Count("queries");
      }
    }
    VT_CHECK(live[live.size() - 1]->Duration() == total, "totp-duration-changed", "");
  }
}

bool SameTrajectory(const totp::PositionVelocityTrajectoryInterface& a,
                    const totp::PositionVelocityTrajectoryInterface& b)
{
  if (a.Duration() != b.Duration()) { return false; }
  for (int i = 0; i <= 20; i++)
  {
    const double t = a.Duration() * i / 20;
    if (!SameState(a.GetPositionVelocityTimePoint(t), b.GetPositionVelocityTimePoint(t))) { return false; }
  }
  return true;
}

// Repeated waypoints change nothing; unusable input is rejected.
void Inputs(Rng& rng, uint64_t)
{
  const Problem pr = SmallProblem(rng);
  if (pr.path.size() < 2) { return; }
  TrajPtr base;
  if (Catch([&] { base = pr.Make(); }) != Thrown::NONE) { return; }
  Problem rep = pr;
  rep.path.clear();
  for (const Vec& w : pr.path) { for (int64_t k = rng.Int(1, 3); k > 0; k--) { rep.path.push_back(w); } }
  TrajPtr other;
  VT_CHECK(Catch([&] { other = rep.Make(); }) == Thrown::NONE && SameTrajectory(*base, *other),
           "totp-repeated-waypoint-changes-trajectory", LastWhat(), " ", rep.Describe());
  Count("repeated_waypoints");
  Nontrivial(rep.Hash());
  const double bad = rng.Pick(std::vector<double>{std::numeric_limits<double>::quiet_NaN(),
                                                  std::numeric_limits<double>::infinity(),
                                                  -std::numeric_limits<double>::infinity()});
  const size_t at = rng.Size(0, pr.path.size() - 1);
  const Eigen::Index j = rng.Int(0, pr.max_v.size() - 1);
  for (int kind = 0; kind < 13; kind++)
  {
    Problem p = pr;
    switch (kind)
    {
      case 0: p.path.clear(); break;
      case 1: p.path.resize(1); break;
      case 2: p.path.assign(rng.Size(2, 4), pr.path[0]); break;
      case 3: p.dev = bad; break;
      case 4: p.ts = bad; break;
      case 5: p.ts = 0.0; break;
      case 6: p.ts = -0.001; break;
      case 7: p.max_v[j] = bad; break;
      case 8: p.max_a[j] = bad; break;
      case 9: p.path[at][j] = bad; break;
      case 10: p.max_v.conservativeResize(pr.max_v.size() + 1); p.max_v[pr.max_v.size()] = 1; break;
      case 11: p.max_a.conservativeResize(pr.max_a.size() + 1); p.max_a[pr.max_a.size()] = 1; break;
      default: p.path[at].conservativeResize(pr.max_v.size() + 1); p.path[at][pr.max_v.size()] = 0; break;
    }
    VT_CHECK(Catch([&] { p.Make(); }) == Thrown::INVALID_ARGUMENT, "totp-bad-input-accepted", "kind ", kind, " ", LastWhat(),
             " ", p.Describe());
    Count("bad_inputs");
  }
}
#endif
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 39
  return vt::Main(argc, argv, {{"blended", 3000, 150000, Blended},
                               {"unblended", 1000, 30000, Unblended},
                               {"sharp", 1000, 40000, Sharp},
                               {"reversal", 20, 200, Reversal}});
#else
  return vt::Main(argc, argv, {{"queries", 500, 15000, Queries}, {"inputs", 800, 20000, Inputs}});
#endif
}
