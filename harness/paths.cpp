// Path smoothing, shortcutting, resampling and validity fraction.
#include "common.hpp"

#include <deque>

#include <Eigen/Geometry>
#include <common_robotics_utilities/path_processing.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace pp = cru::path_processing;

namespace
{
struct Conf
{
  double x = 0, y = 0;
  int id = -1;  // index in the original path, -1 if interpolated
  bool Same(const Conf& o) const { return x == o.x && y == o.y; }
};

double Dist(const Conf& a, const Conf& b) { return std::hypot(a.x - b.x, a.y - b.y); }

Conf Lerp(const Conf& a, const Conf& b, double r)
{
  Conf c;
  if (r >= 1.0) { c = b; }
  else if (r <= 0.0) { c = a; }
  else { c.x = a.x + (b.x - a.x) * r; c.y = a.y + (b.y - a.y) * r; }
  c.id = -1;
  return c;
}

uint64_t HashD(double d) { uint64_t v; d += 0.0; std::memcpy(&v, &d, 8); return v; }
uint64_t HashC(const Conf& c) { return Combine(HashD(c.x), HashD(c.y)); }

struct Disc { double x, y, r; };

double SegDist(const Conf& a, const Conf& b, double px, double py)
{
  const double dx = b.x - a.x, dy = b.y - a.y;
  const double l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? ((px - a.x) * dx + (py - a.y) * dy) / l2 : 0.0;
  t = std::min(1.0, std::max(0.0, t));
  return std::hypot(a.x + dx * t - px, a.y + dy * t - py);
}

// Either a geometric world (valid unless the segment meets a disc), or an
// adversarial one where validity is a directional pseudo-random function of the
// exact endpoints; original edges are valid in both.
struct World
{
  bool geometric = true;
  std::vector<Disc> discs;
  uint64_t salt = 0;
  double density = 0.5;
  std::set<std::pair<uint64_t, uint64_t>> original;

  bool Valid(const Conf& a, const Conf& b, double slack = 0.0) const
  {
    if (geometric)
    {
      for (const Disc& d : discs)
      {
        if (SegDist(a, b, d.x, d.y) <= d.r - slack) { return false; }
      }
      return true;
    }
    if (original.count({HashC(a), HashC(b)})) { return true; }
    const uint64_t h = Combine(Combine(HashC(a), HashC(b)), salt);
    return static_cast<double>(h >> 11) * 0x1.0p-53 < density;
  }
};

template<typename C>
C MakePath(Rng& rng, World& w)
{
  w.geometric = rng.Chance(0.6);
  w.salt = rng.Next();
  w.density = rng.Pick(std::vector<double>{0.0, 0.1, 0.3, 0.6, 0.9, 1.0});
  if (w.geometric)
  {
    const size_t k = rng.Size(0, 6);
    for (size_t i = 0; i < k; i++) { w.discs.push_back({rng.Real(-6, 6), rng.Real(-6, 6), rng.Real(0.1, 2.0)}); }
  }
  C path;
  const size_t n = vt::Large() ? rng.Size(100, 400) : rng.Chance(0.1) ? rng.Size(0, 3) : rng.Size(3, 40);
  const bool lattice = rng.Chance(0.3);
  const bool repeats = rng.Chance(0.3);
  for (size_t tries = 0; path.size() < n && tries < 20000; tries++)
  {
    Conf c;
    const double s = rng.Pick(std::vector<double>{0.5, 2.0, 8.0});
    if (lattice)
    {
      c.x = static_cast<double>(rng.Int(-6, 6));
      c.y = static_cast<double>(rng.Int(-6, 6));
    }
    else if (path.empty()) { c.x = rng.Real(-6, 6); c.y = rng.Real(-6, 6); }
    else
    {
      c.x = path[path.size() - 1].x + rng.Real(-s, s);
      c.y = path[path.size() - 1].y + rng.Real(-s, s);
    }
    if (repeats && !path.empty() && rng.Chance(0.2)) { c = path[rng.Size(0, path.size() - 1)]; }
    c.id = static_cast<int>(path.size());
    if (w.geometric && !(path.empty() ? w.Valid(c, c) : w.Valid(path[path.size() - 1], c))) { continue; }
    if (!path.empty()) { w.original.insert({HashC(path[path.size() - 1]), HashC(c)}); }
    path.push_back(c);
  }
  return path;
}

template<typename C>
double Length(const C& p)
{
  double l = 0;
  for (size_t i = 1; i < p.size(); i++) { l += Dist(p[i - 1], p[i]); }
  return l;
}

template<typename C>
std::string PathStr(const C& p)
{
  std::string s = Str(p.size(), ":");
  for (size_t i = 0; i < p.size() && i < 16; i++) { s += Str(" #", p[i].id, "(", p[i].x, ",", p[i].y, ")"); }
  return s;
}

template<typename C>
uint64_t PathHash(const C& p)
{
  uint64_t h = p.size();
  for (size_t i = 0; i < p.size(); i++) { h = Combine(h, HashC(p[i])); }
  return h;
}

// Properties of any piece of path that replaces original[start..end].
template<typename C>
void CheckPiece(const std::string& what, const C& original, size_t start, size_t end, const C& piece,
                const World& w, double interval, bool marginal)
{
  VT_CHECK(piece.size() >= 1 && piece[0].Same(original[start]) &&
               piece[piece.size() - 1].Same(original[end]),
           what + "-endpoints-changed", PathStr(original), " [", start, ",", end, "] -> ", PathStr(piece));
  const bool resampling = interval > 0.0;
  for (size_t i = 1; i < piece.size(); i++)
  {
    const bool must = !resampling || marginal || w.geometric;
    if (must)
    {
      VT_CHECK(w.Valid(piece[i - 1], piece[i], w.geometric ? 1e-7 : 0.0), what + "-invalid-edge",
               "edge ", i - 1, " of ", PathStr(piece), " from ", PathStr(original));
    }
  }
  int last = static_cast<int>(start) - 1;
  for (size_t i = 0; i < piece.size(); i++)
  {
    if (piece[i].id >= 0)
    {
      VT_CHECK(piece[i].id > last && piece[i].id <= static_cast<int>(end), what + "-waypoint-order",
               PathStr(original), " -> ", PathStr(piece));
      last = piece[i].id;
    }
    else
    {
      VT_CHECK(resampling, what + "-foreign-waypoint", PathStr(original), " -> ", PathStr(piece));
    }
  }
  C sub;
  for (size_t i = start; i <= end; i++) { sub.push_back(original[i]); }
  VT_CHECK(Length(piece) <= Length(sub) * (1 + 1e-9) + 1e-9, what + "-longer-than-original",
           Length(piece), " > ", Length(sub), " ", PathStr(sub), " -> ", PathStr(piece));
}

template<typename C>
void Shortcut(Rng& rng, uint64_t)
{
  World w;
  const C path = MakePath<C>(rng, w);
  const double interval = rng.Chance(0.4) ? rng.Pick(std::vector<double>{0.05, 0.3, 1.0, 5.0})
                                          : rng.Pick(std::vector<double>{0.0, -1.0});
  const bool marginal = rng.Chance(0.6);
  uint64_t edge_checks = 0;
  const std::function<bool(const Conf&, const Conf&)> valid = [&](const Conf& a, const Conf& b)
  { edge_checks++; return w.Valid(a, b); };
  const std::function<double(const Conf&, const Conf&)> dist = Dist;
  const std::function<Conf(const Conf&, const Conf&, double)> interp =
      [&](const Conf& a, const Conf& b, double r)
  {
    VT_EXPECT(r >= 0.0 && r <= 1.0, "interpolation-ratio-out-of-range", r);
    return Lerp(a, b, r);
  };
  if (rng.Chance(0.4))
  {
    // One shortcut attempt.
    if (path.size() < 2) { return; }
    const size_t start = rng.Size(0, path.size() - 1), end = rng.Size(0, path.size() - 1);
    const uint32_t back = static_cast<uint32_t>(rng.Int(0, 5));
    const auto attempt = [&]
    { return pp::AttemptShortcut<Conf, C>(path, start, end, back, interval, marginal, valid, dist, interp); };
    if (start >= end)
    {
      VT_CHECK(Catch([&] { attempt(); }) == Thrown::INVALID_ARGUMENT, "shortcut-bad-indices-accepted",
               start, " ", end);
      return;
    }
    const C piece = attempt();
    Count("shortcut_attempts");
    if (piece.size() == 0)
    {
      // Nothing to report only if the direct edge could not be used.
      if (w.Valid(path[start], path[end]) && interval <= 0.0)
      {
        Fail("shortcut-valid-edge-refused", Str(start, "->", end, " of ", PathStr(path)));
      }
      return;
    }
    Nontrivial(Combine(PathHash(path), Combine(start, end)));
    CheckPiece("shortcut", path, start, end, piece, w, interval, marginal);
    if (interval <= 0.0 && w.Valid(path[start], path[end]))
    {
      VT_CHECK(piece.size() == 2, "shortcut-not-direct", PathStr(piece));
    }
    Count("shortcuts_made");
    return;
  }
  const uint32_t max_iter = static_cast<uint32_t>(rng.Int(0, 60));
  const uint32_t max_fail = static_cast<uint32_t>(rng.Int(0, 60));
  const uint32_t back = static_cast<uint32_t>(rng.Int(0, 4));
  const double fraction = rng.Pick(std::vector<double>{0.0, 0.1, 0.5, 1.0, 3.0});
  uint64_t draws = 0;
  const cru::utility::UniformUnitRealFunction unit = [&]
  {
    draws++;
    const double u = rng.Unit();
    switch (rng.Int(0, 19)) { case 0: return 0.0; case 1: return 0x1.fffffffffffffp-1; default: return u; }
  };
  const C copy = path;
  const C out = pp::ShortcutSmoothPath<Conf, C>(path, max_iter, max_fail, back, fraction, interval, marginal,
                                                valid, dist, interp, unit);
  Count("paths_smoothed");
  for (size_t i = 0; i < copy.size(); i++)
  {
    VT_CHECK(path.size() == copy.size() && path[i].Same(copy[i]), "smoothing-changed-input", i);
  }
  VT_CHECK(draws <= 2ull * max_iter, "smoothing-too-many-iterations", draws, " draws for ", max_iter);
  if (back == 0 && !w.geometric && w.density == 0.0 && interval <= 0.0)
  {
    // Every attempted edge outside the original ones fails.
    MaxOf("failing_edge_checks", edge_checks);
  }
  if (path.size() == 0)
  {
    VT_CHECK(out.size() == 0, "smoothing-empty", out.size());
    return;
  }
  if (max_iter == 0 || max_fail == 0)
  {
    VT_CHECK(out.size() == path.size(), "smoothing-beyond-limits", PathStr(out));
  }
  CheckPiece("smoothing", path, 0, path.size() - 1, out, w, interval, marginal);
  if (edge_checks > 0)
  {
    Nontrivial(Combine(PathHash(path), draws));
    if (PathHash(out) != PathHash(path)) { Count("paths_changed"); }
  }
}

// The whole shortcut is fine and the resampled shortcut has at most one bad edge
// (first, last or any), with few or very many states.
void MarginalShortcut(Rng& rng, uint64_t)
{
  const size_t m = !vt::SmallOnly() && rng.Chance(0.004) ? rng.Size(65600, 70000)
                   : rng.Chance(0.4)                     ? rng.Size(100, 1500)
                                                         : rng.Size(2, 100);
  const double interval = rng.Pick(std::vector<double>{0.01, 0.25, 1.0});
  const double length = interval * static_cast<double>(m);
  const size_t mid = rng.Size(1, 4);
  std::vector<Conf> path;
  for (size_t i = 0; i <= mid + 1; i++)
  {
    Conf c; c.id = static_cast<int>(i);
    c.x = i == 0 ? 0.0 : i == mid + 1 ? length : length * static_cast<double>(i) / static_cast<double>(mid + 1);
    path.push_back(c);
  }
  const bool bad_exists = rng.Chance(0.75);
  const size_t bad = rng.Chance(0.3) ? m - 1 : rng.Chance(0.2) ? 0 : rng.Size(0, m - 1);
  const double lo = interval * (static_cast<double>(bad) + 0.25), hi = interval * (static_cast<double>(bad) + 0.75);
  const auto valid = [&](const Conf& a, const Conf& b)
  {
    const double l = std::min(a.x, b.x), h = std::max(a.x, b.x);
    return !(bad_exists && h - l < interval * 1.5 && l <= hi && h >= lo);
  };
  const auto piece = pp::AttemptShortcut<Conf>(path, 0, path.size() - 1, 0, interval, true, valid, Dist, Lerp);
  for (size_t i = 1; i < piece.size(); i++)
  {
    VT_CHECK(valid(piece[i - 1], piece[i]), "shortcut-invalid-edge", "edge ", i - 1, " of ", piece.size() - 1,
             " in a marginal shortcut with bad edge ", bad);
    VT_CHECK(Dist(piece[i - 1], piece[i]) <= interval * (1 + 1e-9) + 1e-12, "shortcut-gap-too-large",
             Dist(piece[i - 1], piece[i]), " > ", interval);
  }
  if (!bad_exists)
  {
    VT_CHECK(piece.size() >= m + 1 && piece.size() <= m + 2, "shortcut-valid-edge-refused", piece.size(), " of ", m);
  }
  Count("marginal_shortcuts");
  Nontrivial(Combine(Combine(m, bad), Combine(bad_exists, HashD(interval))));
}

// With nothing valid but the original edges, the failure limit bounds the work.
void FailureLimit(Rng& rng, uint64_t)
{
  std::vector<Conf> path;
  const size_t n = rng.Size(3, 30);
  for (size_t i = 0; i < n; i++) { Conf c; c.x = static_cast<double>(i); c.y = rng.Unit(); c.id = static_cast<int>(i); path.push_back(c); }
  uint64_t checks = 0;
  const uint32_t max_fail = static_cast<uint32_t>(rng.Int(0, 20));
  const auto out = pp::ShortcutSmoothPath<Conf>(
      path, 10000, max_fail, 0, 1.0, 0.0, true, [&](const Conf&, const Conf&) { checks++; return false; },
      Dist, Lerp, [&] { return rng.Unit(); });
  VT_CHECK(out.size() == path.size(), "smoothing-changed-path-without-valid-edge", PathStr(out));
  VT_CHECK(checks <= max_fail, "failure-limit-exceeded", checks, " failed attempts with limit ", max_fail);
  Nontrivial(Combine(n, max_fail));
}

// Whether one segment is split into more parts than 16 bits can count.
bool g_dense = false;
template<typename C>
void Resample(Rng& rng, uint64_t)
{
  World w;
  const C path = MakePath<C>(rng, w);
  double longest = 0.0;
  for (size_t i = 1; i < path.size(); i++) { longest = std::max(longest, Dist(path[i - 1], path[i])); }
  if (g_dense && longest == 0.0) { return; }
  const double step = g_dense ? longest / rng.Real(65600, 70000) : rng.Chance(0.1) ? rng.Pick(std::vector<double>{0.0, -0.5, std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::infinity()})
                                      : rng.Pick(std::vector<double>{0.07, 0.25, 0.5, 1.0, 3.0, 100.0, std::numeric_limits<double>::infinity()});
  C out;
  const auto run = [&]
  {
    out = pp::ResamplePath<Conf, C>(path, step, Dist,
                                    [&](const Conf& a, const Conf& b, double r)
                                    {
                                      VT_EXPECT(r >= 0.0 && r <= 1.0, "interpolation-ratio-out-of-range", r);
                                      return Lerp(a, b, r);
                                    });
  };
  if (!(step > 0.0) && path.size() > 1)
  {
    VT_CHECK(Catch(run) == Thrown::INVALID_ARGUMENT, "resample-bad-distance-accepted", step);
    Count("resample_rejected");
    return;
  }
  run();
  Count("resamples");
  if (path.size() <= 1)
  {
    VT_CHECK(out.size() == path.size(), "resample-short-path", out.size());
    return;
  }
  Nontrivial(Combine(PathHash(path), HashD(step)));
  VT_CHECK(out[0].Same(path[0]) && out[out.size() - 1].Same(path[path.size() - 1]),
           "resample-endpoints-changed", PathStr(path), " -> ", PathStr(out));
  // Walk the output along the input: every input state appears in order (exact
  // repeats collapse), every other output state lies on its segment.
  size_t o = 0;
  for (size_t i = 1; i < path.size(); i++)
  {
    if (Dist(path[i - 1], path[i]) == 0.0) { continue; }
    const double d = Dist(path[i - 1], path[i]);
    double along = 0;
    size_t inserted = 0;
    for (;;)
    {
      o++;
      VT_CHECK(o < out.size(), "resample-lost-waypoint", "input ", i, " of ", PathStr(path), " -> ", PathStr(out));
      VT_CHECK(Dist(out[o - 1], out[o]) <= step * (1 + 1e-9) + 1e-12, "resample-gap-too-large",
               Dist(out[o - 1], out[o]), " > ", step);
      if (out[o].Same(path[i])) { break; }
      const double here = Dist(path[i - 1], out[o]);
      VT_CHECK(std::abs(here + Dist(out[o], path[i]) - d) <= 1e-9 * (1 + d) && here > along,
               "resample-off-segment", PathStr(path), " -> ", PathStr(out));
      along = here;
      inserted++;
    }
    // No more states than needed: segments of equal length.
    VT_CHECK(inserted <= static_cast<size_t>(std::ceil(d / step + 1e-9)), "resample-too-dense",
             inserted, " states inserted over ", d, " at ", step);
    Count("resampled_segments");
  }
  VT_CHECK(o + 1 == out.size(), "resample-extra-states", PathStr(path), " -> ", PathStr(out));
}

template<typename C>
void DenseResample(Rng& rng, uint64_t c)
{
  g_dense = true;
  struct Off
  {
    ~Off() { g_dense = false; }
  } off;
  Resample<C>(rng, c);
  Count("dense_resamples");
}

template<typename C>
void Percent(Rng& rng, uint64_t)
{
  World w;
  C path = MakePath<C>(rng, w);
  w.original.clear();
  const size_t first_bad = rng.Size(0, 45);
  size_t calls = 0;
  bool consecutive = true;
  const double got = pp::ComputePercentCollisionFree<Conf, C>(
      path, [&](const Conf& a, const Conf& b)
      {
        if (path.size() >= 2) { consecutive = consecutive && a.id == static_cast<int>(calls) && b.id == a.id + 1; }
        return calls++ < first_bad;
      });
  double want = 1.0;
  if (path.size() == 1) { want = first_bad > 0 ? 1.0 : 0.0; }
  else if (path.size() >= 2)
  {
    want = static_cast<double>(std::min(first_bad, path.size() - 1)) / static_cast<double>(path.size() - 1);
  }
  VT_CHECK(got == want && consecutive, "collision-free-fraction", got, " expected ", want, " path ", path.size());
  Nontrivial(Combine(path.size(), first_bad));
  Count("fractions");
}
}  // namespace

int main(int argc, char** argv)
{
  using V = std::vector<Conf>;
  using D = std::deque<Conf>;
  return vt::Main(argc, argv,
                  {{"shortcut-vector", 24000, 200000, Shortcut<V>},
                   {"shortcut-deque", 5000, 40000, Shortcut<D>},
                   {"shortcut-marginal", 4000, 100000, MarginalShortcut},
                   {"failure-limit", 400, 8000, FailureLimit},
                   {"resample-vector", 12000, 80000, Resample<V>},
                   {"resample-deque", 800, 20000, Resample<D>},
                   {"fraction", 600, 10000, Percent<V>},
                   {"shortcut-large", 300, 6000, vt::LargeCase<Shortcut<V>>},
                   {"resample-dense", vt::SmallOnly() ? uint64_t{1} : uint64_t{8}, 100, DenseResample<V>},
                   {"resample-large", 150, 3000, vt::LargeCase<Resample<V>>}});
}
