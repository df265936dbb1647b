// P10 generator sequences, P11 random rotations, P12 uniform index helpers.
#include "common.hpp"

#include <array>
#include <random>

#include <Eigen/Geometry>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/utility.hpp>

namespace cru = common_robotics_utilities;
using cru::random_rotation_generator::RandomRotationGenerator;
using cru::simple_prngs::SplitMix64PRNG;
using cru::simple_prngs::XorShift1024StarPRNG;
using cru::simple_prngs::XorShift128PlusPRNG;
using vt::Rng;

namespace
{
#if VT_PROP == 10
// Published reference algorithms, written separately.
struct RefSplit
{
  uint64_t s;
  explicit RefSplit(uint64_t seed) : s(seed) {}
  uint64_t operator()()
  {
    s += 0x9E3779B97F4A7C15u;
    uint64_t r = s;
    r ^= r >> 30; r *= 0xBF58476D1CE4E5B9u;
    r ^= r >> 27; r *= 0x94D049BB133111EBu;
    r ^= r >> 31;
    return r;
  }
};
struct Ref128
{
  uint64_t a, b;
  explicit Ref128(uint64_t seed) { RefSplit g(seed); a = g(); b = g(); }
  uint64_t operator()()
  {
    uint64_t x = a;
    const uint64_t y = b;
    a = y;
    x ^= x << 23;
    b = x ^ y ^ (x >> 18) ^ (y >> 5);
    return b + y;
  }
};
struct Ref1024
{
  std::array<uint64_t, 16> st;
  int p = 0;
  explicit Ref1024(uint64_t seed) { RefSplit g(seed); for (auto& x : st) { x = g(); } }
  uint64_t operator()()
  {
    const uint64_t s0 = st[static_cast<size_t>(p)];
    p = (p + 1) % 16;
    uint64_t s1 = st[static_cast<size_t>(p)];
    s1 ^= s1 << 31;
    st[static_cast<size_t>(p)] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30);
    return st[static_cast<size_t>(p)] * 1181783497276652981u;
  }
};

uint64_t AnySeed(Rng& rng)
{
  switch (rng.Int(0, 5))
  {
    case 0: return static_cast<uint64_t>(rng.Int(0, 3));
    case 1: return ~uint64_t{0} - static_cast<uint64_t>(rng.Int(0, 3));
    case 2: return uint64_t{1} << rng.Int(0, 63);
    default: return rng.Next();
  }
}

template<typename G, typename R>
void History(Rng& rng, const char* name)
{
  VT_CHECK(G::min() == 0 && G::max() == ~uint64_t{0}, "limits", name);
  std::vector<G> gens;
  std::vector<R> refs;
  uint64_t seed = AnySeed(rng);
  gens.emplace_back(seed);
  refs.emplace_back(seed);
  uint64_t h = 0;
  const int steps = static_cast<int>(rng.Int(3, 25));
  for (int s = 0; s < steps; s++)
  {
    const size_t i = rng.Size(0, gens.size() - 1);
    const int op = static_cast<int>(rng.Int(0, 5));
    h = vt::Combine(h, static_cast<uint64_t>(op));
    switch (op)
    {
      case 0:
      case 1:
      {
        for (int n = static_cast<int>(rng.Int(1, 40)); n > 0; n--)
        {
          const uint64_t got = gens[i]();
          const uint64_t want = refs[i]();
          VT_CHECK(got == want, "sequence-differs", name, " after ", s, " steps: ", got,
                   " instead of ", want);
          vt::Count("draws");
        }
        break;
      }
      case 2:
      {
        const uint64_t n = rng.Chance(0.2) ? 0 : static_cast<uint64_t>(rng.Int(1, 100));
        gens[i].discard(n);
        for (uint64_t k = 0; k < n; k++) { refs[i](); }
        vt::Count("discards");
        break;
      }
      case 3:
        seed = AnySeed(rng);
        gens[i].seed(seed);
        refs[i] = R(seed);
        vt::Count("reseeds");
        break;
      case 4:
        if (gens.size() < 5)
        {
          const G copy = gens[i];
          const R ref_copy = refs[i];
          gens.push_back(copy);
          refs.push_back(ref_copy);
        }
        break;
      default:
        seed = AnySeed(rng);
        gens[i] = G(seed);
        refs[i] = R(seed);
        break;
    }
  }
  for (size_t i = 0; i < gens.size(); i++)
  {
    const uint64_t got = gens[i]();
    const uint64_t want = refs[i]();
    VT_CHECK(got == want, "final-state-differs", name, " generator ", i);
  }
  vt::Nontrivial(vt::Combine(h, seed));
  vt::Sample(vt::Str(name, " steps=", steps));
}

void Sequences(Rng& rng, uint64_t c)
{
  switch (c % 3)
  {
    case 0: History<SplitMix64PRNG, RefSplit>(rng, "splitmix64"); break;
    case 1: History<XorShift128PlusPRNG, Ref128>(rng, "xorshift128+"); break;
    default: History<XorShift1024StarPRNG, Ref1024>(rng, "xorshift1024*"); break;
  }
}

// One discard around a power of two, far past the amounts Sequences uses.
template<typename G, typename R>
void Discard(Rng& rng, const char* name, uint64_t n)
{
  const uint64_t seed = AnySeed(rng);
  G gen(seed);
  R ref(seed);
  for (int64_t k = rng.Int(0, 20); k > 0; k--) { gen(); ref(); }
  gen.discard(n);
  for (uint64_t k = 0; k < n; k++) { ref(); }
  for (int k = 0; k < 40; k++)
  {
    const uint64_t got = gen();
    const uint64_t want = ref();
    VT_CHECK(got == want, "discard-differs", name, " after discard(", n, "), draw ", k);
  }
  vt::Count("long_discards");
  vt::Nontrivial(vt::Combine(n, seed));
  vt::Sample(vt::Str(name, " discard(", n, ")"));
}
void DiscardBy(Rng& rng, uint64_t which, uint64_t n)
{
  switch (which % 3)
  {
    case 0: Discard<SplitMix64PRNG, RefSplit>(rng, "splitmix64", n); break;
    case 1: Discard<XorShift128PlusPRNG, Ref128>(rng, "xorshift128+", n); break;
    default: Discard<XorShift1024StarPRNG, Ref1024>(rng, "xorshift1024*", n); break;
  }
}
void LongDiscards(Rng& rng, uint64_t c)
{
  const uint64_t base = uint64_t{1} << rng.Int(6, vt::SmallOnly() ? 12 : 19);
  DiscardBy(rng, c, base + static_cast<uint64_t>(rng.Int(-3, 3)));
}
void HugeDiscards(Rng& rng, uint64_t c)
{
  DiscardBy(rng, c, (uint64_t{1} << 32) + static_cast<uint64_t>(rng.Int(0, 9)));
}
#elif VT_PROP == 11
// Largest distance between the empirical CDF and uniform on [lo, hi].
double Ks(std::vector<double> v, double lo, double hi)
{
  std::sort(v.begin(), v.end());
  double d = 0.0;
  const double n = static_cast<double>(v.size());
  for (size_t i = 0; i < v.size(); i++)
  {
    const double f = std::min(1.0, std::max(0.0, (v[i] - lo) / (hi - lo)));
    d = std::max(d, std::max(std::abs(f - static_cast<double>(i) / n),
                             std::abs(f - static_cast<double>(i + 1) / n)));
  }
  return d;
}

// P(sqrt(n) D > 3.8) is about 2 exp(-2 * 3.8^2) = 6e-13 per statistic.
constexpr double kKs = 3.8;

void JudgeUniform(const std::vector<Eigen::Matrix3d>& rots, const char* what, Rng& rng)
{
  // Under the uniform (Haar) measure, for fixed unit vectors a, b the number
  // a' R b is uniform on [-1, 1], and the rotation is equally distributed
  // after multiplication by any fixed rotation.
  const double root_n = std::sqrt(static_cast<double>(rots.size()));
  for (int t = 0; t < 12; t++)
  {
    Eigen::Vector3d a = Eigen::Vector3d::Unit(t % 3);
    Eigen::Vector3d b = Eigen::Vector3d::Unit((t / 3) % 3);
    if (t >= 9)
    {
      a = Eigen::Vector3d(rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(-1, 1)).normalized();
      b = Eigen::Vector3d(rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(-1, 1)).normalized();
    }
    std::vector<double> v;
    for (const auto& r : rots) { v.push_back(a.dot(r * b)); }
    const double d = Ks(v, -1.0, 1.0) * root_n;
    VT_CHECK(d < kKs, "not-uniform", what, " axis pair ", t, " sqrt(n)D=", d);
    vt::Count("uniformity_statistics");
  }
  // Rotation angle theta has CDF (theta - sin theta) / pi.
  std::vector<double> u;
  for (const auto& r : rots)
  {
    const double c = std::min(1.0, std::max(-1.0, (r.trace() - 1.0) / 2.0));
    const double th = std::acos(c);
    u.push_back((th - std::sin(th)) / M_PI);
  }
  const double d = Ks(u, 0.0, 1.0) * root_n;
  VT_CHECK(d < kKs, "angle-not-uniform", what, " sqrt(n)D=", d);
}

void Uniformity(Rng& rng, uint64_t c)
{
  const size_t n = 6000;
  RandomRotationGenerator gen;
  std::vector<Eigen::Matrix3d> rots;
  std::mt19937_64 prng(rng.Next());
  XorShift128PlusPRNG prng2(rng.Next());
  const bool euler = (c % 2 == 1);
  std::vector<double> w;
  for (size_t i = 0; i < n; i++)
  {
    if (euler)
    {
      const Eigen::Vector3d e = (c % 4 == 1) ? gen.GetEulerAngles(prng) : gen.GetEulerAngles(prng2);
      VT_CHECK(e.allFinite() && std::abs(e.x()) <= M_PI + 1e-12 && std::abs(e.z()) <= M_PI + 1e-12 &&
                   std::abs(e.y()) <= 2 * M_PI + 1e-12, "euler-range", e.transpose());
      rots.push_back((Eigen::AngleAxisd(e.z(), Eigen::Vector3d::UnitZ()) *
                      Eigen::AngleAxisd(e.y(), Eigen::Vector3d::UnitY()) *
                      Eigen::AngleAxisd(e.x(), Eigen::Vector3d::UnitX())).toRotationMatrix());
    }
    else
    {
      const Eigen::Quaterniond q = (c % 4 == 0) ? gen.GetQuaternion(prng) : gen.GetQuaternion(prng2);
      VT_CHECK(std::abs(q.norm() - 1.0) < 1e-12, "not-unit", q.coeffs().transpose());
      rots.push_back(q.toRotationMatrix());
      w.push_back(q.w());
    }
    vt::Count("rotations");
  }
  JudgeUniform(rots, euler ? "euler" : "quaternion", rng);
  vt::Nontrivial(rng.Next());
  vt::Sample(vt::Str(euler ? "euler " : "quaternion ", n, " samples"));
}

void Exact(Rng& rng, uint64_t)
{
  const double extremes[] = {0.0, 0x1.0p-53, 0.25, 0.5, 0.75, 1.0 - 0x1.0p-53};
  int draws = 0;
  const auto u = [&]() -> double
  {
    draws++;
    return rng.Chance(0.5) ? extremes[rng.Int(0, 5)] : rng.Unit();
  };
  const Eigen::Quaterniond q = RandomRotationGenerator::GenerateUniformRandomQuaternion(u);
  VT_CHECK(q.coeffs().allFinite() && std::abs(q.norm() - 1.0) < 1e-12, "not-unit", q.coeffs().transpose());
  const Eigen::Vector3d e = RandomRotationGenerator::GenerateUniformRandomEulerAngles(u);
  VT_CHECK(e.allFinite(), "euler-not-finite", e.transpose());
  // Raw variants are the same rotation, drawn from the same stream.
  const uint64_t seed = rng.Next();
  XorShift1024StarPRNG a(seed), b(seed);
  RandomRotationGenerator ga, gb;
  for (int i = 0; i < 3; i++)
  {
    const Eigen::Quaterniond qa = ga.GetQuaternion(a);
    const std::vector<double> raw = gb.GetRawQuaternion(b);
    VT_CHECK(raw.size() == 4 && raw[0] == qa.x() && raw[1] == qa.y() && raw[2] == qa.z() && raw[3] == qa.w(),
             "raw-quaternion-order", vt::VecStr(raw));
    const Eigen::Vector3d ea = ga.GetEulerAngles(a);
    const std::vector<double> er = gb.GetRawEulerAngles(b);
    VT_CHECK(er.size() == 3 && er[0] == ea.x() && er[1] == ea.y() && er[2] == ea.z(), "raw-euler-order",
             vt::VecStr(er));
  }
  vt::Nontrivial(seed);
}
#elif VT_PROP == 12
namespace ut = cru::utility;

double Draw(Rng& rng)
{
  switch (rng.Int(0, 5))
  {
    case 0: return 0.0;
    case 1: return 1.0 - 0x1.0p-53;
    case 2: return 0x1.0p-1074;
    default: return rng.Unit();
  }
}

template<typename T>
void OneType(Rng& rng, const char* name)
{
  using L = std::numeric_limits<T>;
  const long double top = static_cast<long double>(L::max());
  const int64_t cap = top > 0x1.0p52L ? (int64_t{1} << 52) : static_cast<int64_t>(top);
  for (int k = 0; k < 20; k++)
  {
    T n = static_cast<T>(rng.Chance(0.5) ? rng.Int(1, std::min<int64_t>(cap, 9)) : rng.Int(1, cap));
    double u = Draw(rng);
    int calls = 0;
    const ut::UniformUnitRealFunction fn = [&] { calls++; return u; };
    const T i = ut::GetUniformRandomIndex<T>(fn, n);
    const long double exact = std::floor(static_cast<long double>(u) * static_cast<long double>(n));
    VT_CHECK(i >= 0 && i < n, "index-out-of-range", name, " n=", +n, " u=", u, " gave ", +i);
    VT_CHECK(std::abs(static_cast<long double>(i) - exact) <= 1.0L && (n > 1000 || static_cast<long double>(i) == exact),
             "index-not-proportional", name, " n=", +n, " u=", u, " gave ", +i);
    VT_CHECK(calls == 1, "draws-per-index", name, " used ", calls, " draws");
    u = 0.0;
    VT_CHECK(ut::GetUniformRandomIndex<T>(fn, n) == 0, "first-unreachable", name);
    u = 1.0 - 0x1.0p-53;
    VT_CHECK(ut::GetUniformRandomIndex<T>(fn, n) == n - 1, "last-unreachable", name, " n=", +n);

    // Ranges, including the full range of the type.
    T lo = 0, hi = 0;
    const int mode = static_cast<int>(rng.Int(0, 4));
    if (mode == 0) { lo = L::min(); hi = L::max(); }
    else if (mode == 1) { lo = static_cast<T>(rng.Next()); hi = L::max(); }
    else if (mode == 2) { lo = L::min(); hi = static_cast<T>(rng.Next()); }
    else if (mode == 3) { lo = static_cast<T>(rng.Next()); hi = lo; }
    else { lo = static_cast<T>(rng.Next()); hi = static_cast<T>(rng.Next()); }
    if (lo > hi) { std::swap(lo, hi); }
    u = Draw(rng);
    const T v = ut::GetUniformRandomInRange<T>(fn, lo, hi);
    const long double span = static_cast<long double>(hi) - static_cast<long double>(lo) + 1.0L;
    VT_CHECK(v >= lo && v <= hi, "range-violated", name, " [", +lo, ",", +hi, "] u=", u, " gave ", +v);
    const long double want = static_cast<long double>(lo) + std::floor(static_cast<long double>(u) * span);
    VT_CHECK(std::abs(static_cast<long double>(v) - want) <= std::max(1.0L, span * 0x1.0p-50L),
             "range-not-proportional", name, " [", +lo, ",", +hi, "] u=", u, " gave ", +v);
    u = 0.0;
    VT_CHECK(ut::GetUniformRandomInRange<T>(fn, lo, hi) == lo, "range-start-unreachable", name);
    u = 1.0 - 0x1.0p-53;
    const T last = ut::GetUniformRandomInRange<T>(fn, lo, hi);
    VT_CHECK(static_cast<long double>(hi) - static_cast<long double>(last) <= span * 0x1.0p-50L,
             "range-end-unreachable", name, " [", +lo, ",", +hi, "] gave ", +last);
    if (lo < hi)
    {
      VT_CHECK(vt::Catch([&] { ut::GetUniformRandomInRange<T>(fn, hi, lo); }) == vt::Thrown::INVALID_ARGUMENT,
               "reversed-range-accepted", name);
    }
    VT_CHECK(vt::Catch([&] { ut::GetUniformRandomIndex<T>(fn, static_cast<T>(0)); }) == vt::Thrown::INVALID_ARGUMENT,
             "empty-container-accepted", name);
    if (L::is_signed)
    {
      VT_CHECK(vt::Catch([&] { ut::GetUniformRandomIndex<T>(fn, static_cast<T>(-rng.Int(1, 100))); }) ==
                   vt::Thrown::INVALID_ARGUMENT, "negative-size-accepted", name);
    }
    vt::Count("draws_checked", 6);
    vt::Nontrivial(vt::Combine(vt::Combine(static_cast<uint64_t>(lo), static_cast<uint64_t>(hi)), static_cast<uint64_t>(n)));
  }
}

void Helpers(Rng& rng, uint64_t c)
{
  switch (c % 8)
  {
    case 0: OneType<int8_t>(rng, "int8"); break;
    case 1: OneType<uint8_t>(rng, "uint8"); break;
    case 2: OneType<int16_t>(rng, "int16"); break;
    case 3: OneType<int32_t>(rng, "int32"); break;
    case 4: OneType<uint32_t>(rng, "uint32"); break;
    case 5: OneType<int64_t>(rng, "int64"); break;
    case 6: OneType<uint64_t>(rng, "uint64"); break;
    default: OneType<uint16_t>(rng, "uint16"); break;
  }
}

// Every value of a small range is reached equally often.
void Evenness(Rng& rng, uint64_t)
{
  const int32_t lo = static_cast<int32_t>(rng.Int(-50, 50));
  const int32_t size = static_cast<int32_t>(rng.Int(1, 12));
  std::vector<int> hits(static_cast<size_t>(size), 0);
  const int per = 50;
  int k = 0;
  // A perfectly even sweep of [0,1): each value must be hit equally often.
  const ut::UniformUnitRealFunction fn = [&]
  { return (static_cast<double>(k) + 0.5) / static_cast<double>(per * size); };
  for (k = 0; k < per * size; k++)
  {
    hits.at(static_cast<size_t>(ut::GetUniformRandomInRange<int32_t>(fn, lo, lo + size - 1) - lo))++;
  }
  for (const int hcount : hits)
  {
    VT_CHECK(hcount == per, "uneven", "range of ", size, " hits ", vt::VecStr(hits));
  }
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(lo), static_cast<uint64_t>(size)));
}
#endif
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 10
#ifdef VT_HUGE
  return vt::Main(argc, argv, {{"huge_discards", 3, 9, HugeDiscards}});
#else
  return vt::Main(argc, argv, {{"sequences", 3000, 100000, Sequences}, {"long_discards", 240, 3000, LongDiscards}});
#endif
#elif VT_PROP == 11
  return vt::Main(argc, argv, {{"uniformity", 24, 400, Uniformity}, {"exact", 2000, 40000, Exact}});
#else
  return vt::Main(argc, argv, {{"helpers", 1600, 40000, Helpers}, {"evenness", 400, 4000, Evenness}});
#endif
}
