// Randomly generated values paired with the serialization functions for them.
#pragma once
#include "common.hpp"

#include <deque>
#include <list>
#include <memory>
#include <unordered_map>
#include <unordered_set>

#include <Eigen/Geometry>
#include <common_robotics_utilities/serialization.hpp>

namespace vt
{
namespace ser = common_robotics_utilities::serialization;
using Buffer = std::vector<uint8_t>;

struct Item
{
  std::string kind;
  std::function<uint64_t(Buffer&)> serialize;
  // Deserializes at offset; returns bytes read; *equal says value matches.
  std::function<uint64_t(const Buffer&, uint64_t, bool*)> deserialize;
  // Writes into existing bytes at an offset, where such a function exists.
  std::function<uint64_t(Buffer&, uint64_t)> in_place;
  // Expected encoding where the format is documented (network order), else empty.
  std::function<bool(const Buffer&, uint64_t)> layout_ok;
};

template<typename T>
bool SameBits(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

inline double AnyDouble(Rng& rng)
{
  switch (rng.Int(0, 9))
  {
    case 0: return std::numeric_limits<double>::infinity();
    case 1: return -std::numeric_limits<double>::infinity();
    case 2: return std::numeric_limits<double>::quiet_NaN();
    case 3: return -0.0;
    case 4: return std::numeric_limits<double>::denorm_min();
    case 5: return std::numeric_limits<double>::max();
    case 6:
    {
      const uint64_t bits = rng.Next();
      double d;
      std::memcpy(&d, &bits, sizeof(d));
      return d;
    }
    default: return rng.Wild();
  }
}

template<typename T>
T AnyBits(Rng& rng)
{
  const uint64_t r = rng.Chance(0.3) ? static_cast<uint64_t>(rng.Int(-2, 2)) : rng.Next();
  T t;
  std::memcpy(&t, &r, sizeof(T));
  return t;
}
template<> inline bool AnyBits<bool>(Rng& rng) { return rng.Chance(0.5); }
template<> inline double AnyBits<double>(Rng& rng) { return AnyDouble(rng); }
template<> inline float AnyBits<float>(Rng& rng)
{
  if (rng.Chance(0.4)) { return static_cast<float>(rng.Wild()); }
  if (rng.Chance(0.5)) { return static_cast<float>(AnyDouble(rng)); }  // signed zeros, infinities, NaN, denormals
  const uint32_t bits = static_cast<uint32_t>(rng.Next());
  float f;
  std::memcpy(&f, &bits, sizeof(f));
  return f;
}

template<typename T>
bool BigEndianAt(const T& v, const Buffer& b, uint64_t at)
{
  uint8_t raw[sizeof(T)];
  std::memcpy(raw, &v, sizeof(T));
  for (size_t i = 0; i < sizeof(T); i++)
  {
    if (at + i >= b.size() || b[at + i] != raw[sizeof(T) - 1 - i]) { return false; }
  }
  return true;
}

// A value with explicit functions.
template<typename T>
Item MakeItem(const std::string& kind, const T& v, std::function<uint64_t(const T&, Buffer&)> s,
              std::function<ser::Deserialized<T>(const Buffer&, uint64_t)> d,
              std::function<bool(const T&, const T&)> eq,
              std::function<bool(const Buffer&, uint64_t)> layout = {})
{
  auto p = std::make_shared<T>(v);
  Item it;
  it.kind = kind;
  it.serialize = [=](Buffer& b) { return s(*p, b); };
  it.deserialize = [=](const Buffer& b, uint64_t at, bool* equal)
  {
    auto r = d(b, at);
    if (!r.HasValue()) { *equal = false; return uint64_t{0}; }
    *equal = eq(r.Value(), *p) && eq(r.MutableValue(), *p);
    return r.BytesRead();
  };
  it.layout_ok = layout;
  return it;
}

template<typename T>
Item ScalarItem(Rng& rng, const char* name)
{
  const T v = AnyBits<T>(rng);
  return MakeItem<T>(std::string("scalar-") + name, v, ser::SerializeMemcpyable<T>,
                     ser::DeserializeMemcpyable<T>, SameBits<T>);
}

template<typename T>
Item NetScalarItem(Rng& rng, const char* name)
{
  const T v = AnyBits<T>(rng);
  Item it = MakeItem<T>(std::string("net-scalar-") + name, v, ser::SerializeNetworkMemcpyable<T>,
                        ser::DeserializeNetworkMemcpyable<T>, SameBits<T>,
                        [v](const Buffer& b, uint64_t at) { return BigEndianAt(v, b, at); });
  it.in_place = [v](Buffer& b, uint64_t at) { return ser::SerializeNetworkMemcpyableInPlace<T>(v, b, at); };
  return it;
}

struct Pod
{
  double a;
  int32_t b;
  int32_t c;
  bool operator==(const Pod& o) const { return a == o.a && b == o.b && c == o.c; }
};

// Number of elements for the current item; "large" items have many of one level.
inline size_t& LengthBoost() { static size_t n = 0; return n; }
inline size_t AnyLength(Rng& rng)
{
  if (LengthBoost() > 0)
  {
    const size_t n = rng.Size(LengthBoost() / 2, LengthBoost());
    LengthBoost() = 0;  // only the outermost level
    return n;
  }
  return rng.Chance(0.25) ? 0 : rng.Size(1, rng.Chance(0.1) ? 60 : 7);
}

template<typename C>
std::basic_string<C> AnyString(Rng& rng)
{
  std::basic_string<C> s;
  const size_t n = AnyLength(rng);
  for (size_t i = 0; i < n; i++) { s.push_back(static_cast<C>(rng.Next())); }
  return s;
}

template<typename T>
std::vector<T> AnyVec(Rng& rng)
{
  std::vector<T> v;
  const size_t n = AnyLength(rng);
  for (size_t i = 0; i < n; i++) { v.push_back(AnyBits<T>(rng)); }
  return v;
}

template<typename V>
bool VecBits(const V& a, const V& b)
{
  if (a.size() != b.size()) { return false; }
  for (size_t i = 0; i < static_cast<size_t>(a.size()); i++)
  {
    const auto x = a[i];
    const auto y = b[i];
    if (!SameBits(x, y)) { return false; }
  }
  return true;
}

template<typename E>
bool EigenBits(const E& a, const E& b)
{
  return a.rows() == b.rows() && a.cols() == b.cols() &&
         (a.size() == 0 ||
          std::memcmp(a.data(), b.data(), sizeof(double) * static_cast<size_t>(a.size())) == 0);
}

/// One, or close to it.
inline double Drift(Rng& rng)
{
  return rng.Chance(0.3) ? 1.0 : 1.0 + (rng.Chance(0.5) ? 1.0 : -1.0) * std::pow(10.0, -rng.Real(1, 16));
}

template<typename E>
E AnyEigen(Rng& rng, Eigen::Index r, Eigen::Index c)
{
  E e(r, c);
  for (Eigen::Index i = 0; i < e.size(); i++) { e.data()[i] = AnyDouble(rng); }
  if (e.size() > 0 && rng.Chance(0.4))
  {
    // Values with a meaning: directions with or without drift, points, zero,
    // identity, symmetric matrices.
    for (Eigen::Index i = 0; i < e.size(); i++) { e.data()[i] = rng.Real(-3, 3); }
    switch (rng.Int(0, 4))
    {
      case 0: e /= e.norm(); e *= Drift(rng); break;
      case 1: e.data()[e.size() - 1] = Drift(rng); break;
      case 2: e.setZero(); if (rng.Chance(0.5)) { e.data()[0] = -0.0; } break;
      case 3: e.setIdentity(); e *= Drift(rng); break;
      default: 
        for (Eigen::Index i = 0; r == c && i < r; i++) { for (Eigen::Index j = 0; j < i; j++) { e(i, j) = e(j, i) * Drift(rng); } }
        break;
    }
  }
  return e;
}

inline Eigen::Quaterniond AnyRotation(Rng& rng)
{
  Eigen::Quaterniond q(rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(0.1, 1));
  q.normalize();
  q.coeffs() *= Drift(rng);
  return q;
}

/// Any sixteen numbers, or a rigid transform with or without drift.
inline Eigen::Isometry3d AnyIsometry(Rng& rng)
{
  Eigen::Isometry3d iso;
  for (int i = 0; i < 16; i++) { iso.matrix().data()[i] = AnyDouble(rng); }
  if (rng.Chance(0.5))
  {
    iso = Eigen::Isometry3d::Identity();
    iso.linear() = AnyRotation(rng).toRotationMatrix();
    iso.translation() = Eigen::Vector3d(rng.Wild(), rng.Wild(), rng.Wild());
    for (int i = 0; i < 4; i++) { if (rng.Chance(0.2)) { iso.matrix()(3, i) = i == 3 ? Drift(rng) : rng.Real(-1e-9, 1e-9); } }
  }
  return iso;
}

inline bool NetVecHeader(const Buffer& b, uint64_t at, uint64_t n) { return BigEndianAt(n, b, at); }

template<typename T>
Item NetVecItem(Rng& rng, const char* name)
{
  const auto v = AnyVec<T>(rng);
  return MakeItem<std::vector<T>>(
      std::string("net-vector-") + name, v, ser::SerializeNetworkMemcpyableVectorLike<T>,
      ser::DeserializeNetworkMemcpyableVectorLike<T>, VecBits<std::vector<T>>,
      [v](const Buffer& b, uint64_t at)
      {
        if (!NetVecHeader(b, at, v.size())) { return false; }
        for (size_t i = 0; i < v.size(); i++)
        {
          if (!BigEndianAt(v[i], b, at + 8 + i * sizeof(T))) { return false; }
        }
        return true;
      });
}

constexpr int kItemKinds = 48;

inline Item AnyItem(Rng& rng, int kind)
{
  using SV = std::vector<std::string>;
  using SM = std::map<std::string, int32_t>;
  const ser::Serializer<std::string> ss = ser::SerializeString<char>;
  const ser::Deserializer<std::string> ds = ser::DeserializeString<char>;
  const ser::Serializer<int32_t> si = ser::SerializeMemcpyable<int32_t>;
  const ser::Deserializer<int32_t> di = ser::DeserializeMemcpyable<int32_t>;
  const ser::Serializer<int32_t> nsi = ser::SerializeNetworkMemcpyable<int32_t>;
  const ser::Deserializer<int32_t> ndi = ser::DeserializeNetworkMemcpyable<int32_t>;
  switch (kind)
  {
    case 0: return ScalarItem<uint8_t>(rng, "u8");
    case 1: return ScalarItem<int16_t>(rng, "i16");
    case 2: return ScalarItem<uint32_t>(rng, "u32");
    case 3: return ScalarItem<int64_t>(rng, "i64");
    case 4: return ScalarItem<float>(rng, "f32");
    case 5: return ScalarItem<double>(rng, "f64");
    case 6: return ScalarItem<bool>(rng, "bool");
    case 7: return NetScalarItem<uint8_t>(rng, "u8");
    case 8: return NetScalarItem<int16_t>(rng, "i16");
    case 9: return NetScalarItem<uint32_t>(rng, "u32");
    case 10: return NetScalarItem<int64_t>(rng, "i64");
    case 11: return NetScalarItem<float>(rng, "f32");
    case 12: return NetScalarItem<double>(rng, "f64");
    case 13: return NetScalarItem<uint16_t>(rng, "u16");
    case 14: return NetScalarItem<uint64_t>(rng, "u64");
    case 15: return NetVecItem<uint16_t>(rng, "u16");
    case 16: return NetVecItem<double>(rng, "f64");
    case 17: return NetVecItem<int32_t>(rng, "i32");
    case 18: return NetVecItem<uint8_t>(rng, "u8");
    case 19:
      return MakeItem<std::string>("string", AnyString<char>(rng), ss, ds,
                                   [](const std::string& a, const std::string& b) { return a == b; });
    case 20:
    {
      using S = std::u16string;
      return MakeItem<S>("string16", AnyString<char16_t>(rng), ser::SerializeString<char16_t>,
                         ser::DeserializeString<char16_t>, [](const S& a, const S& b) { return a == b; });
    }
    case 21:
    {
      using S = std::basic_string<uint16_t>;
      const S v = AnyString<uint16_t>(rng);
      return MakeItem<S>("net-string16", v, ser::SerializeNetworkString<uint16_t>,
                         ser::DeserializeNetworkString<uint16_t>,
                         [](const S& a, const S& b) { return a == b; },
                         [v](const Buffer& b, uint64_t at)
                         {
                           bool ok = NetVecHeader(b, at, v.size());
                           for (size_t i = 0; i < v.size(); i++) { ok = ok && BigEndianAt(v[i], b, at + 8 + 2 * i); }
                           return ok;
                         });
    }
    case 22:
    {
      SV v;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { v.push_back(AnyString<char>(rng)); }
      return MakeItem<SV>("vector<string>", v,
          [=](const SV& x, Buffer& b) { return ser::SerializeVectorLike<std::string>(x, b, ss); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeVectorLike<std::string>(b, o, ds); },
          [](const SV& a, const SV& b) { return a == b; });
    }
    case 23:
      return MakeItem<std::vector<double>>("memcpy-vector<f64>", AnyVec<double>(rng),
          ser::SerializeMemcpyableVectorLike<double>, ser::DeserializeMemcpyableVectorLike<double>,
          VecBits<std::vector<double>>);
    case 24:
      return MakeItem<std::vector<uint8_t>>("memcpy-vector<u8>", AnyVec<uint8_t>(rng),
          ser::SerializeMemcpyableVectorLike<uint8_t>, ser::DeserializeMemcpyableVectorLike<uint8_t>,
          VecBits<std::vector<uint8_t>>);
    case 25:
    {
      std::vector<Pod> v(AnyLength(rng));
      for (auto& p : v) { p = {rng.Wild(), AnyBits<int32_t>(rng), AnyBits<int32_t>(rng)}; }
      return MakeItem<std::vector<Pod>>("memcpy-vector<pod>", v, ser::SerializeMemcpyableVectorLike<Pod>,
          ser::DeserializeMemcpyableVectorLike<Pod>,
          [](const std::vector<Pod>& a, const std::vector<Pod>& b) { return a == b; });
    }
    case 26:
    {
      SM m;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { m[AnyString<char>(rng)] = AnyBits<int32_t>(rng); }
      return MakeItem<SM>("map<string,i32>", m,
          [=](const SM& x, Buffer& b) { return ser::SerializeMapLike<std::string, int32_t>(x, b, ss, si); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeMapLike<std::string, int32_t>(b, o, ds, di); },
          [](const SM& a, const SM& b) { return a == b; });
    }
    case 27:
    {
      using UM = std::unordered_map<int32_t, std::string>;
      UM m;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { m[AnyBits<int32_t>(rng)] = AnyString<char>(rng); }
      return MakeItem<UM>("unordered_map<i32,string>", m,
          [=](const UM& x, Buffer& b) { return ser::SerializeMapLike<int32_t, std::string, UM>(x, b, si, ss); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeMapLike<int32_t, std::string, UM>(b, o, di, ds); },
          [](const UM& a, const UM& b) { return a == b; });
    }
    case 28:
    {
      using S = std::set<int32_t>;
      S s;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { s.insert(AnyBits<int32_t>(rng)); }
      return MakeItem<S>("set<i32>", s,
          [=](const S& x, Buffer& b) { return ser::SerializeSetLike<int32_t>(x, b, si); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeSetLike<int32_t>(b, o, di); },
          [](const S& a, const S& b) { return a == b; });
    }
    case 29:
    {
      using P = std::pair<std::string, int32_t>;
      return MakeItem<P>("pair", P(AnyString<char>(rng), AnyBits<int32_t>(rng)),
          [=](const P& x, Buffer& b) { return ser::SerializePair<std::string, int32_t>(x, b, ss, si); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializePair<std::string, int32_t>(b, o, ds, di); },
          [](const P& a, const P& b) { return a == b; });
    }
    case 30:
    {
      using V = std::vector<int32_t>;
      const V v = AnyVec<int32_t>(rng);
      return MakeItem<V>("net-vector-like", v,
          [=](const V& x, Buffer& b) { return ser::SerializeNetworkVectorLike<int32_t>(x, b, nsi); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeNetworkVectorLike<int32_t>(b, o, ndi); },
          [](const V& a, const V& b) { return a == b; },
          [v](const Buffer& b, uint64_t at) { return NetVecHeader(b, at, v.size()); });
    }
    case 31:
    {
      using M = std::map<int32_t, int32_t>;
      M m;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { m[AnyBits<int32_t>(rng)] = AnyBits<int32_t>(rng); }
      return MakeItem<M>("net-map", m,
          [=](const M& x, Buffer& b) { return ser::SerializeNetworkMapLike<int32_t, int32_t>(x, b, nsi, nsi); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeNetworkMapLike<int32_t, int32_t>(b, o, ndi, ndi); },
          [](const M& a, const M& b) { return a == b; },
          [m](const Buffer& b, uint64_t at) { return NetVecHeader(b, at, m.size()); });
    }
    case 32:
    {
      using S = std::set<int32_t>;
      S s;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { s.insert(AnyBits<int32_t>(rng)); }
      return MakeItem<S>("net-set", s,
          [=](const S& x, Buffer& b) { return ser::SerializeNetworkSetLike<int32_t>(x, b, nsi); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeNetworkSetLike<int32_t>(b, o, ndi); },
          [](const S& a, const S& b) { return a == b; },
          [s](const Buffer& b, uint64_t at) { return NetVecHeader(b, at, s.size()); });
    }
    case 33:
    {
      using V = Eigen::VectorXd;
      return MakeItem<V>("VectorXd", AnyEigen<V>(rng, static_cast<Eigen::Index>(AnyLength(rng)), 1),
          ser::SerializeVectorXd, ser::DeserializeVectorXd, EigenBits<V>);
    }
    case 34:
    {
      using M = Eigen::MatrixXd;
      return MakeItem<M>("MatrixXd", AnyEigen<M>(rng, LengthBoost() > 0 ? rng.Int(50, 300) : rng.Int(0, 5),
                                                     LengthBoost() > 0 ? rng.Int(50, 300) : rng.Int(0, 5)),
          ser::SerializeMatrixXd, ser::DeserializeMatrixXd, EigenBits<M>);
    }
    case 35:
      return MakeItem<Eigen::Vector2d>("Vector2d", AnyEigen<Eigen::Vector2d>(rng, 2, 1),
          ser::SerializeVector2d, ser::DeserializeVector2d, EigenBits<Eigen::Vector2d>);
    case 36:
      return MakeItem<Eigen::Vector3d>("Vector3d", AnyEigen<Eigen::Vector3d>(rng, 3, 1),
          ser::SerializeVector3d, ser::DeserializeVector3d, EigenBits<Eigen::Vector3d>);
    case 37:
      return MakeItem<Eigen::Vector4d>("Vector4d", AnyEigen<Eigen::Vector4d>(rng, 4, 1),
          ser::SerializeVector4d, ser::DeserializeVector4d, EigenBits<Eigen::Vector4d>);
    case 38:
    {
      using Q = Eigen::Quaterniond;
      Q q(AnyDouble(rng), AnyDouble(rng), AnyDouble(rng), AnyDouble(rng));
      if (rng.Chance(0.5)) { q = AnyRotation(rng); }
      return MakeItem<Q>("Quaterniond", q,
          ser::SerializeQuaterniond, ser::DeserializeQuaterniond,
          [](const Q& a, const Q& b) { return EigenBits<Eigen::Vector4d>(a.coeffs(), b.coeffs()); });
    }
    case 39:
    {
      using VV = std::vector<SV>;
      const auto sv = [=](const SV& x, Buffer& b) { return ser::SerializeVectorLike<std::string>(x, b, ss); };
      const auto dv = [=](const Buffer& b, uint64_t o) { return ser::DeserializeVectorLike<std::string>(b, o, ds); };
      VV v(AnyLength(rng));
      for (auto& inner : v)
      {
        inner.resize(rng.Size(0, 3));
        for (auto& x : inner) { x = AnyString<char>(rng); }
      }
      return MakeItem<VV>("vector<vector<string>>", v,
          [=](const VV& x, Buffer& b) { return ser::SerializeVectorLike<SV>(x, b, sv); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeVectorLike<SV>(b, o, dv); },
          [](const VV& a, const VV& b) { return a == b; });
    }
    case 40:
    {
      using VD = std::vector<double>;
      using M = std::map<std::string, VD>;
      M m;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { m[AnyString<char>(rng)] = AnyVec<double>(rng); }
      return MakeItem<M>("map<string,vector<f64>>", m,
          [=](const M& x, Buffer& b)
          { return ser::SerializeMapLike<std::string, VD>(x, b, ss, ser::SerializeMemcpyableVectorLike<double, VD>); },
          [=](const Buffer& b, uint64_t o)
          { return ser::DeserializeMapLike<std::string, VD>(b, o, ds, ser::DeserializeMemcpyableVectorLike<double, VD>); },
          [](const M& a, const M& b)
          {
            if (a.size() != b.size()) { return false; }
            auto j = b.begin();
            for (const auto& kv : a)
            {
              if (kv.first != j->first || !VecBits(kv.second, j->second)) { return false; }
              ++j;
            }
            return true;
          });
    }
    case 41:
    {
      using M = std::multimap<int32_t, std::string>;
      M m;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { m.emplace(static_cast<int32_t>(rng.Int(0, 5)), AnyString<char>(rng)); }
      return MakeItem<M>("multimap<i32,string>", m,
          [=](const M& x, Buffer& b) { return ser::SerializeMapLike<int32_t, std::string, M>(x, b, si, ss); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeMapLike<int32_t, std::string, M>(b, o, di, ds); },
          [](const M& a, const M& b) { return a == b; });
    }
    case 42:
    {
      using S = std::unordered_set<std::string>;
      S s;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { s.insert(AnyString<char>(rng)); }
      return MakeItem<S>("unordered_set<string>", s,
          [=](const S& x, Buffer& b) { return ser::SerializeSetLike<std::string, S>(x, b, ss); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeSetLike<std::string, S>(b, o, ds); },
          [](const S& a, const S& b) { return a == b; });
    }
    case 43:
    {
      using S = std::multiset<int32_t>;
      S s;
      const size_t n = AnyLength(rng);
      for (size_t i = 0; i < n; i++) { s.insert(static_cast<int32_t>(rng.Int(0, 4))); }
      return MakeItem<S>("net-multiset", s,
          [=](const S& x, Buffer& b) { return ser::SerializeNetworkSetLike<int32_t, S>(x, b, nsi); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeNetworkSetLike<int32_t, S>(b, o, ndi); },
          [](const S& a, const S& b) { return a == b; },
          [s](const Buffer& b, uint64_t at) { return NetVecHeader(b, at, s.size()); });
    }
    case 44:
    {
      // Eigen members in a container with their own allocator.
      using E = Eigen::Isometry3d;
      using V = std::vector<E, Eigen::aligned_allocator<E>>;
      V v(AnyLength(rng));
      for (auto& e : v) { e = AnyIsometry(rng); }
      const ser::Serializer<E> se = ser::SerializeIsometry3d;
      const ser::Deserializer<E> de = ser::DeserializeIsometry3d;
      return MakeItem<V>("vector<Isometry3d>", v,
          [=](const V& x, Buffer& b) { return ser::SerializeVectorLike<E, V>(x, b, se); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeVectorLike<E, V>(b, o, de); },
          [](const V& a, const V& b)
          {
            bool ok = a.size() == b.size();
            for (size_t i = 0; ok && i < a.size(); i++) { ok = EigenBits<Eigen::Matrix4d>(a[i].matrix(), b[i].matrix()); }
            return ok;
          });
    }
    case 45:
    {
      using V = std::vector<Eigen::VectorXd>;
      const ser::Serializer<Eigen::VectorXd> se = ser::SerializeVectorXd;
      const ser::Deserializer<Eigen::VectorXd> de = ser::DeserializeVectorXd;
      V v(AnyLength(rng));
      for (auto& e : v) { e = AnyEigen<Eigen::VectorXd>(rng, rng.Int(0, 6), 1); }
      return MakeItem<V>("vector<VectorXd>", v,
          [=](const V& x, Buffer& b) { return ser::SerializeVectorLike<Eigen::VectorXd, V>(x, b, se); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializeVectorLike<Eigen::VectorXd, V>(b, o, de); },
          [](const V& a, const V& b)
          {
            bool ok = a.size() == b.size();
            for (size_t i = 0; ok && i < a.size(); i++) { ok = EigenBits<Eigen::VectorXd>(a[i], b[i]); }
            return ok;
          });
    }
    case 46:
    {
      using PV = std::pair<std::vector<int32_t>, std::string>;
      const ser::Serializer<std::vector<int32_t>> sv = ser::SerializeNetworkMemcpyableVectorLike<int32_t>;
      const ser::Deserializer<std::vector<int32_t>> dv = ser::DeserializeNetworkMemcpyableVectorLike<int32_t>;
      const PV v(AnyVec<int32_t>(rng), AnyString<char>(rng));
      return MakeItem<PV>("net-pair<vector,string>", v,
          [=](const PV& x, Buffer& b) { return ser::SerializePair<std::vector<int32_t>, std::string>(x, b, sv, ss); },
          [=](const Buffer& b, uint64_t o) { return ser::DeserializePair<std::vector<int32_t>, std::string>(b, o, dv, ds); },
          [](const PV& a, const PV& b) { return a == b; },
          [v](const Buffer& b, uint64_t at) { return NetVecHeader(b, at, v.first.size()); });
    }
    default:
    {
      using I = Eigen::Isometry3d;
      const I iso = AnyIsometry(rng);
      return MakeItem<I>("Isometry3d", iso, ser::SerializeIsometry3d, ser::DeserializeIsometry3d,
          [](const I& a, const I& b) { return EigenBits<Eigen::Matrix4d>(a.matrix(), b.matrix()); });
    }
  }
}
}  // namespace vt
