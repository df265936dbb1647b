// Monitors for voxel grids and dynamic spatial hashed voxel grids (P35-P38).
#include "common.hpp"
#include "alloc_watch.hpp"

#include <memory>

#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>

namespace vg = common_robotics_utilities::voxel_grid;
namespace ser = common_robotics_utilities::serialization;
using vt::Rng;
using vt::Thrown;

namespace
{
// The same scenarios on grids past any likely size threshold.
bool g_large = false;
template<void (*Fn)(Rng&, uint64_t)>
void L(Rng& rng, uint64_t c)
{
  g_large = true;
  struct Off
  {
    ~Off() { g_large = false; }
  } off;
  Fn(rng, c);
  vt::Count("large_cases");
}

using V3 = Eigen::Vector3d;
using V4 = Eigen::Vector4d;
using Iso = Eigen::Isometry3d;
using Buffer = std::vector<uint8_t>;

template<typename T> T Value(Rng& rng);
template<> int32_t Value<int32_t>(Rng& rng) { return static_cast<int32_t>(rng.Int(-1000000, 1000000)); }
template<> uint8_t Value<uint8_t>(Rng& rng) { return static_cast<uint8_t>(rng.Next()); }
template<> double Value<double>(Rng& rng) { return rng.Real(-1e6, 1e6); }
template<> std::string Value<std::string>(Rng& rng)
{
  return "value number " + std::to_string(rng.Next()) + std::string(rng.Size(0, 30), 'x');
}

template<typename T> struct Codec
{
  static ser::Serializer<T> S() { return ser::SerializeMemcpyable<T>; }
  static ser::Deserializer<T> D() { return ser::DeserializeMemcpyable<T>; }
};
template<> struct Codec<std::string>
{
  static ser::Serializer<std::string> S() { return ser::SerializeString<char>; }
  static ser::Deserializer<std::string> D() { return ser::DeserializeString<char>; }
};

Iso RandomTransform(Rng& rng)
{
  Iso t = Iso::Identity();
  switch (rng.Int(0, 3))
  {
    case 0: return t;
    case 1: t.translation() = V3(rng.Real(-10, 10), rng.Real(-10, 10), rng.Real(-10, 10)); return t;
    default:
    {
      const double yaw = rng.Real(-3.2, 3.2), pitch = rng.Real(-1.5, 1.5), roll = rng.Real(-3.2, 3.2);
      t = Eigen::Translation3d(rng.Real(-10, 10), rng.Real(-10, 10), rng.Real(-10, 10)) *
          Eigen::Quaterniond(Eigen::AngleAxisd(yaw, V3::UnitZ()) * Eigen::AngleAxisd(pitch, V3::UnitY()) *
                             Eigen::AngleAxisd(roll, V3::UnitX()));
      return t;
    }
  }
}

// Another transform, which may differ from the given one only a little.
Iso NextTransform(Rng& rng, const Iso& from)
{
  if (rng.Chance(0.5)) { return RandomTransform(rng); }
  const double size = std::pow(10.0, static_cast<double>(-rng.Int(1, 12)));
  Iso t = from;
  if (rng.Chance(0.6)) { t.translation() += size * V3(rng.Real(-1, 1), rng.Real(-1, 1), rng.Real(-1, 1)); }
  else { t = t * Eigen::Quaterniond(Eigen::AngleAxisd(size, V3(rng.Real(-1, 1), rng.Real(-1, 1), 1.0).normalized())); }
  vt::Count("small_origin_changes");
  return t;
}

// How far the product of the two transforms is from the identity.
double InverseError(const Iso& a, const Iso& b)
{
  return ((a * b).matrix() - Eigen::Matrix4d::Identity()).cwiseAbs().maxCoeff() / (1.0 + a.translation().cwiseAbs().maxCoeff());
}

double RandomCell(Rng& rng) { return rng.Pick(std::vector<double>{0.25, 0.5, 1.0, 2.0, 0.1, 0.3, rng.Real(0.01, 3.0)}); }

vg::GridSizes RandomSizes(Rng& rng, int64_t limit = 5)
{
  int64_t x = rng.Int(1, limit), y = rng.Int(1, limit), z = rng.Int(1, limit);
  if (g_large && limit == 3)
  {
    // chunk sizes: many small chunks, or a few large ones
    if (rng.Chance(0.4)) { x = rng.Int(5, 12); y = rng.Int(5, 12); z = rng.Int(5, 12); }
  }
  else if (g_large)
  {
    switch (rng.Int(0, 5))
    {
      case 0: x = rng.Int(300, 6000); y = z = 1; break;
      case 1: y = rng.Int(300, 6000); x = z = 1; break;
      case 2: z = rng.Int(300, 6000); x = y = 1; break;
      case 3: x = rng.Int(1, 3); y = rng.Int(40, 66); z = rng.Int(40, 66); break;
      default: x = rng.Int(9, 24); y = rng.Int(9, 24); z = rng.Int(9, 24); break;
    }
  }
  if (rng.Chance(0.4)) { return vg::GridSizes(RandomCell(rng), x, y, z); }
  return vg::GridSizes(RandomCell(rng), RandomCell(rng), RandomCell(rng), x, y, z);
}

// A grid whose access policy is scripted and whose hooks are recorded.
template<typename T, typename BS = std::vector<T>>
class HookedGrid : public vg::VoxelGridBase<T, BS>
{
public:
  struct Call { int64_t x, y, z; bool raw; };
  std::vector<Call> calls;
  bool allow = true;
  bool allow_raw = true;
  uint32_t tag = 0;

  HookedGrid() = default;
  HookedGrid(const Iso& o, const vg::GridSizes& s, const T& d, const T& oob) : vg::VoxelGridBase<T, BS>(o, s, d, oob) {}

private:
  std::unique_ptr<vg::VoxelGridBase<T, BS>> DoClone() const override
  {
    return std::unique_ptr<vg::VoxelGridBase<T, BS>>(new HookedGrid<T, BS>(*this));
  }
  uint64_t DerivedSerializeSelf(Buffer& b, const ser::Serializer<T>&) const override { return ser::SerializeMemcpyable<uint32_t>(tag, b); }
  uint64_t DerivedDeserializeSelf(const Buffer& b, const uint64_t at, const ser::Deserializer<T>&) override
  {
    const auto d = ser::DeserializeMemcpyable<uint32_t>(b, at);
    tag = d.Value();
    return d.BytesRead();
  }
  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override
  {
    calls.push_back({x, y, z, false});
    return allow;
  }
  bool OnMutableRawAccess() override
  {
    calls.push_back({-1, -1, -1, true});
    return allow_raw;
  }
};

// What the grid should hold.
template<typename T>
struct Model
{
  Iso origin;
  int64_t n[3];
  double cell[3];
  T def, oob;
  std::vector<T> cells;
  int64_t At(int64_t x, int64_t y, int64_t z) const { return (x * n[1] + y) * n[2] + z; }
  bool In(int64_t x, int64_t y, int64_t z) const { return x >= 0 && y >= 0 && z >= 0 && x < n[0] && y < n[1] && z < n[2]; }
};

template<typename T, typename BS>
void Compare(const vg::VoxelGridBase<T, BS>& g, const Model<T>& m, const char* after)
{
  VT_CHECK(g.IsInitialized(), "grid/initialized", "not initialized after ", after);
  VT_CHECK(g.GetNumXCells() == m.n[0] && g.GetNumYCells() == m.n[1] && g.GetNumZCells() == m.n[2] &&
               g.GetTotalCells() == static_cast<int64_t>(m.cells.size()) && g.GetImmutableRawData().size() == m.cells.size(),
           "grid/sizes", "size changed after ", after);
  VT_CHECK(g.GetDefaultValue() == m.def && g.GetOOBValue() == m.oob, "grid/default", "default or oob value wrong after ", after);
  VT_CHECK(g.GetOriginTransform().matrix() == m.origin.matrix(), "grid/origin", "origin wrong after ", after);
  size_t i = 0;
  for (int64_t x = 0; x < m.n[0]; x++)
  {
    for (int64_t y = 0; y < m.n[1]; y++)
    {
      for (int64_t z = 0; z < m.n[2]; z++, i++)
      {
        const auto q = (i & 1) ? g.GetIndexImmutable(x, y, z) : g.GetIndexImmutable(vg::GridIndex(x, y, z));
        VT_CHECK(q.HasValue() && static_cast<bool>(q) && q.Status() == vg::AccessStatus::SUCCESS, "grid/status", "no value inside the grid");
        VT_CHECK(q.Value() == m.cells[i], "grid/content", "cell (", x, ",", y, ",", z, ") is wrong after ", after);
        VT_CHECK(&q.Value() == &g.GetImmutableRawData()[i], "grid/reference", "value is not the stored cell");
      }
    }
  }
}

template<typename T>
V4 LocationOf(Rng& rng, const Model<T>& m, int64_t x, int64_t y, int64_t z)
{
  const V4 local(m.cell[0] * (static_cast<double>(x) + rng.Real(0.01, 0.99)), m.cell[1] * (static_cast<double>(y) + rng.Real(0.01, 0.99)),
                 m.cell[2] * (static_cast<double>(z) + rng.Real(0.01, 0.99)), 1.0);
  V4 w = m.origin * local;
  w(3) = 1.0;
  return w;
}

template<typename T, typename BS>
void StorageHistory(Rng& rng)
{
  using Grid = HookedGrid<T, BS>;
  Model<T> m;
  m.origin = RandomTransform(rng);
  const auto sizes = RandomSizes(rng);
  m.n[0] = sizes.NumXCells(); m.n[1] = sizes.NumYCells(); m.n[2] = sizes.NumZCells();
  m.cell[0] = sizes.CellXSize(); m.cell[1] = sizes.CellYSize(); m.cell[2] = sizes.CellZSize();
  m.def = Value<T>(rng);
  m.oob = Value<T>(rng);
  m.cells.assign(static_cast<size_t>(m.n[0] * m.n[1] * m.n[2]), m.def);
  Grid g(m.origin, sizes, m.def, m.oob);
  if (rng.Chance(0.3))
  {
    Grid later;
    VT_CHECK(!later.IsInitialized(), "grid/initialized", "default grid claims to be initialized");
    VT_CHECK(later.GetIndexImmutable(0, 0, 0).Status() == vg::AccessStatus::OUT_OF_BOUNDS, "grid/status", "default grid has cells");
    VT_CHECK(vt::Catch([&] { later.Initialize(m.origin, vg::GridSizes(), m.def, m.oob); }) == Thrown::INVALID_ARGUMENT, "grid/invalid-sizes",
             "invalid sizes were accepted");
    later.Initialize(m.origin, sizes, m.def, m.oob);
    g = later;
  }
  Compare(g, m, "construction");
  std::string log;
  for (int64_t step = rng.Int(5, 30); step > 0; step--)
  {
    g.calls.clear();
    g.allow = rng.Chance(0.8);
    g.allow_raw = rng.Chance(0.8);
    int64_t x = rng.Int(0, m.n[0] - 1), y = rng.Int(0, m.n[1] - 1), z = rng.Int(0, m.n[2] - 1);
    if (rng.Chance(0.25))
    {
      int64_t* const which[3] = {&x, &y, &z};
      const int64_t axis = rng.Int(0, 2);
      *which[axis] = rng.Pick(std::vector<int64_t>{-1, m.n[axis], m.n[axis] + 1, -m.n[axis], 1000000});
    }
    const bool in = m.In(x, y, z);
    const size_t i = in ? static_cast<size_t>(m.At(x, y, z)) : 0;
    const T v = Value<T>(rng);
    const vg::AccessStatus want = !in ? vg::AccessStatus::OUT_OF_BOUNDS
                                      : g.allow ? vg::AccessStatus::SUCCESS : vg::AccessStatus::MUTABLE_ACCESS_PROHIBITED;
    const V4 at = LocationOf(rng, m, x, y, z);
    const int64_t op = rng.Int(0, 17);
    const char* name = "";
    const auto hooked = [&](bool raw)
    {
      if (raw)
      {
        VT_CHECK(g.calls.size() == 1 && g.calls[0].raw, "grid/raw-hook", name, " made ", g.calls.size(), " hook calls");
      }
      else if (in)
      {
        VT_CHECK(g.calls.size() == 1 && !g.calls[0].raw && g.calls[0].x == x && g.calls[0].y == y && g.calls[0].z == z, "grid/hook", name,
                 " of (", x, ",", y, ",", z, ") reported ", g.calls.size(), " accesses, first (",
                 g.calls.empty() ? -9 : g.calls[0].x, ",", g.calls.empty() ? -9 : g.calls[0].y, ",", g.calls.empty() ? -9 : g.calls[0].z, ")");
      }
      else { VT_CHECK(g.calls.empty() || !g.calls[0].raw, "grid/hook", name, " out of bounds used raw access"); }
      vt::Count("hook_checks");
    };
    if (op <= 5)
    {
      name = "set";
      T tmp = v;
      vg::AccessStatus s;
      switch (op * 2 + rng.Int(0, 1))
      {
        case 0: s = g.SetIndex(x, y, z, v); break;
        case 1: s = g.SetIndex(x, y, z, std::move(tmp)); break;
        case 2: s = g.SetIndex(vg::GridIndex(x, y, z), v); break;
        case 3: s = g.SetIndex(vg::GridIndex(x, y, z), std::move(tmp)); break;
        case 4: s = g.SetLocation(at(0), at(1), at(2), v); break;
        case 5: s = g.SetLocation(at(0), at(1), at(2), std::move(tmp)); break;
        case 6: s = g.SetLocation3d(at.head<3>(), v); break;
        case 7: s = g.SetLocation3d(at.head<3>(), std::move(tmp)); break;
        case 8: s = g.SetLocation4d(at, v); break;
        case 9: s = g.SetLocation4d(at, std::move(tmp)); break;
        default:
        {
          // The value may be another cell of the same grid.
          const auto q = g.GetIndexImmutable(0, 0, 0);
          s = g.SetIndex(x, y, z, q.Value());
          if (s == vg::AccessStatus::SUCCESS) { m.cells[i] = m.cells[0]; }
          VT_CHECK(s == want, "grid/set-status", "set returned ", static_cast<int>(s));
          hooked(false);
          Compare(g, m, name);
          continue;
        }
      }
      VT_CHECK(s == want, "grid/set-status", "set of (", x, ",", y, ",", z, ") returned ", static_cast<int>(s), " expected ", static_cast<int>(want));
      hooked(false);
      if (s == vg::AccessStatus::SUCCESS) { m.cells[i] = v; vt::Count("writes"); }
      else if (in) { vt::Count("prohibited"); }
      else { vt::Count("out_of_bounds"); }
    }
    else if (op <= 8)
    {
      name = "mutable query";
      auto q = op == 6 ? (rng.Chance(0.5) ? g.GetIndexMutable(x, y, z) : g.GetIndexMutable(vg::GridIndex(x, y, z)))
             : op == 7 ? g.GetLocationMutable(at(0), at(1), at(2))
                       : (rng.Chance(0.5) ? g.GetLocationMutable3d(at.head<3>()) : g.GetLocationMutable4d(at));
      VT_CHECK(q.Status() == want && q.HasValue() == (want == vg::AccessStatus::SUCCESS), "grid/query-status", "mutable query returned ",
               static_cast<int>(q.Status()), " expected ", static_cast<int>(want));
      hooked(false);
      if (q)
      {
        VT_CHECK(q.Value() == m.cells[i], "grid/content", "mutable query found another value");
        q.Value() = v;
        m.cells[i] = v;
        auto copy = q;
        VT_CHECK(&copy.Value() == &q.Value(), "grid/reference", "copied query refers elsewhere");
        copy.Reset();
        VT_CHECK(!copy.HasValue() && copy.Status() == vg::AccessStatus::UNKNOWN, "grid/query-reset", "reset query still has a value");
      }
      else
      {
        VT_CHECK(vt::Catch([&] { q.Value() = v; }) != Thrown::NONE, "grid/empty-query", "empty query returned a value");
      }
    }
    else if (op == 9)
    {
      name = "immutable query";
      const Grid& c = g;
      const auto q = rng.Chance(0.3) ? c.GetLocationImmutable(at(0), at(1), at(2))
                   : rng.Chance(0.5) ? c.GetLocationImmutable3d(at.head<3>()) : c.GetLocationImmutable4d(at);
      VT_CHECK(q.HasValue() == in && q.Status() == (in ? vg::AccessStatus::SUCCESS : vg::AccessStatus::OUT_OF_BOUNDS), "grid/query-status",
               "immutable query of (", x, ",", y, ",", z, ") returned ", static_cast<int>(q.Status()));
      VT_CHECK(!in || q.Value() == m.cells[i], "grid/content", "immutable query found another value");
      VT_CHECK(g.calls.empty(), "grid/hook", "immutable query reported a mutable access");
      VT_CHECK(c.LocationInBounds(at(0), at(1), at(2)) == in && c.LocationInBounds3d(at.head<3>()) == in && c.LocationInBounds4d(at) == in &&
                   c.IndexInBounds(x, y, z) == in && c.IndexInBounds(vg::GridIndex(x, y, z)) == in, "grid/in-bounds", "in-bounds tests disagree");
    }
    else if (op <= 11)
    {
      name = "data index access";
      const bool bad = rng.Chance(0.2);
      const int64_t total = static_cast<int64_t>(m.cells.size());
      const int64_t d = bad ? rng.Pick(std::vector<int64_t>{-1, total, total + 5, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()})
                            : rng.Int(0, total - 1);
      T tmp = v;
      const int64_t how = rng.Int(0, 2);
      const Thrown t = vt::Catch([&]
      {
        if (how == 0) { g.SetDataIndex(d, v); }
        else if (how == 1) { g.SetDataIndex(d, std::move(tmp)); }
        else { g.GetDataIndexMutable(d) = v; }
      });
      const bool ok = g.allow_raw && !bad;
      VT_CHECK(ok ? t == Thrown::NONE : t != Thrown::NONE, "grid/data-index", "data index ", d, " allowed=", g.allow_raw, " gave ", static_cast<int>(t));
      hooked(true);
      if (ok) { m.cells[static_cast<size_t>(d)] = v; }
      VT_CHECK(bad ? vt::Catch([&] { (void)g.GetDataIndexImmutable(d); }) == Thrown::OUT_OF_RANGE
                   : g.GetDataIndexImmutable(d) == m.cells[static_cast<size_t>(d)], "grid/data-index", "reading data index ", d);
    }
    else if (op == 12)
    {
      name = "raw data";
      const bool wrong = rng.Chance(0.3);
      BS data;
      const size_t len = wrong ? (rng.Chance(0.5) ? m.cells.size() + 1 : m.cells.size() - 1) : m.cells.size();
      for (size_t k = 0; k < len; k++) { data.push_back(Value<T>(rng)); }
      const Thrown t = vt::Catch([&] { g.SetRawData(data); });
      VT_CHECK((t == Thrown::NONE) == (g.allow_raw && !wrong), "grid/set-raw", "raw data of ", len, " for ", m.cells.size(), " cells: ", static_cast<int>(t));
      hooked(true);
      if (t == Thrown::NONE) { m.cells.assign(data.begin(), data.end()); }
      g.calls.clear();
      const size_t k = rng.Size(0, m.cells.size() - 1);
      const Thrown t2 = vt::Catch([&] { g.GetMutableRawData()[k] = v; });
      VT_CHECK((t2 == Thrown::NONE) == g.allow_raw, "grid/raw-access", "raw access allowed=", g.allow_raw, " gave ", static_cast<int>(t2));
      hooked(true);
      if (g.allow_raw) { m.cells[k] = v; }
    }
    else if (op == 13)
    {
      name = "reset";
      switch (rng.Int(0, 4))
      {
        case 0: g.ResetWithDefault(); m.cells.assign(m.cells.size(), m.def); break;
        case 1: g.ResetWithNewValue(v); m.cells.assign(m.cells.size(), v); break;
        case 2: g.ResetWithNewDefault(v); m.def = v; m.cells.assign(m.cells.size(), v); break;
        case 3:
        {
          const T keep = m.cells[i];
          g.ResetWithNewValue(g.GetDataIndexImmutable(static_cast<int64_t>(i)));
          m.cells.assign(m.cells.size(), keep);
          vt::Count("aliased_resets");
          break;
        }
        default:
        {
          const T keep = m.cells[i];
          g.ResetWithNewDefault(g.GetDataIndexImmutable(static_cast<int64_t>(i)));
          m.def = keep;
          m.cells.assign(m.cells.size(), keep);
          vt::Count("aliased_resets");
        }
      }
    }
    else if (op == 14)
    {
      name = "default";
      if (rng.Chance(0.5)) { g.SetDefaultValue(v); m.def = v; }
      else { g.SetOOBValue(v); m.oob = v; }
    }
    else if (op == 15)
    {
      name = "origin update";
      m.origin = NextTransform(rng, m.origin);
      g.UpdateOriginTransform(m.origin);
      VT_CHECK(InverseError(g.GetOriginTransform(), g.GetInverseOriginTransform()) < 1e-13, "grid/inverse-origin", "inverse origin is stale");
    }
    else
    {
      name = "clone";
      std::unique_ptr<vg::VoxelGridBase<T, BS>> c = rng.Chance(0.5) ? g.Clone() : std::unique_ptr<vg::VoxelGridBase<T, BS>>(new Grid(g));
      VT_CHECK(dynamic_cast<Grid*>(c.get()) != nullptr, "grid/clone-type", "clone has another type");
      Compare(*c, m, "cloning");
      dynamic_cast<Grid*>(c.get())->allow = true;
      VT_CHECK(c->SetIndex(0, 0, 0, v) == vg::AccessStatus::SUCCESS && c->GetIndexImmutable(0, 0, 0).Value() == v, "grid/clone", "clone is not writable");
      c->UpdateOriginTransform(RandomTransform(rng));
      c->SetDefaultValue(v);
      VT_CHECK(g.GetIndexImmutable(0, 0, 0).Value() == m.cells[0], "grid/clone-shared", "writing the clone changed the original");
      if (rng.Chance(0.3))
      {
        c->ResetWithDefault();
        g = Grid(g);  // assignment from a copy
      }
      vt::Count("clones");
    }
    Compare(g, m, name);
    log += static_cast<char>('a' + op);
  }
  vt::Count("histories");
  vt::Nontrivial(vt::Combine(vt::HashStr(log), m.cells.size()));
}

void Storage(Rng& rng, uint64_t c)
{
  switch (c % 4)
  {
    case 0: StorageHistory<int32_t, std::vector<int32_t>>(rng); break;
    case 1: StorageHistory<std::string, std::vector<std::string>>(rng); break;
    case 2: StorageHistory<double, std::vector<double, Eigen::aligned_allocator<double>>>(rng); break;
    default: StorageHistory<uint8_t, std::vector<uint8_t>>(rng); break;
  }
}

// The concrete grid: constructors, permissive hooks, copying.
void Concrete(Rng& rng, uint64_t)
{
  const auto sizes = RandomSizes(rng);
  const Iso origin = RandomTransform(rng);
  const std::string def = Value<std::string>(rng), oob = Value<std::string>(rng);
  using G = vg::VoxelGrid<std::string>;
  const int kind = static_cast<int>(rng.Int(0, 3));
  G g = kind == 0 ? G(sizes, def) : kind == 1 ? G(sizes, def, oob) : kind == 2 ? G(origin, sizes, def) : G(origin, sizes, def, oob);
  Model<std::string> m;
  m.origin = origin;
  if (kind < 2)
  {
    m.origin = Iso::Identity();
    m.origin.translation() = V3(-sizes.XSize() * 0.5, -sizes.YSize() * 0.5, -sizes.ZSize() * 0.5);
  }
  m.n[0] = sizes.NumXCells(); m.n[1] = sizes.NumYCells(); m.n[2] = sizes.NumZCells();
  m.cell[0] = sizes.CellXSize(); m.cell[1] = sizes.CellYSize(); m.cell[2] = sizes.CellZSize();
  m.def = def;
  m.oob = (kind == 0 || kind == 2) ? def : oob;
  m.cells.assign(static_cast<size_t>(m.n[0] * m.n[1] * m.n[2]), def);
  Compare(g, m, "construction");
  VT_CHECK(g.GetGridSizes() == sizes && g.GetSizes() == sizes.Sizes() && g.GetCellSizes() == sizes.CellSizes() && g.GetNumCells() == sizes.NumCells() &&
               g.GetXSize() == sizes.XSize() && g.GetYSize() == sizes.YSize() && g.GetZSize() == sizes.ZSize() &&
               g.HasUniformCellSize() == (m.cell[0] == m.cell[1] && m.cell[1] == m.cell[2]), "grid/size-getters", "size getters disagree");
  for (int k = 0; k < 10; k++)
  {
    const int64_t x = rng.Int(0, m.n[0] - 1), y = rng.Int(0, m.n[1] - 1), z = rng.Int(0, m.n[2] - 1);
    const std::string v = Value<std::string>(rng);
    VT_CHECK(g.SetIndex(x, y, z, v) == vg::AccessStatus::SUCCESS, "grid/set-status", "write refused");
    m.cells[static_cast<size_t>(m.At(x, y, z))] = v;
  }
  Compare(g, m, "writes");
  G copy(g);
  G moved(std::move(copy));
  Compare(moved, m, "moving");
  G assigned;
  assigned = moved;
  assigned.SetIndex(0, 0, 0, std::string("other"));
  Compare(moved, m, "assignment");
  g.Initialize(origin, sizes, oob, def);
  m.origin = origin;
  m.def = oob;
  m.oob = def;
  m.cells.assign(m.cells.size(), oob);
  Compare(g, m, "initialization");
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(kind), m.cells.size()));
}

// ---------------------------------------------------------------- P36
void SizesRules(Rng& rng, uint64_t)
{
  double cell[3] = {RandomCell(rng), RandomCell(rng), RandomCell(rng)};
  if (rng.Chance(0.3))
  {
    // The same size, or almost.
    cell[1] = cell[2] = cell[0];
    const double scale = rng.Pick(std::vector<double>{1.0, 1.0 + 1e-15, 1.0 - 1e-15, 1.0 + 1e-12, 1.0 + 1e-9, 1.0 - 1e-7});
    cell[rng.Int(0, 2)] *= scale;
    vt::Count("nearly_uniform");
  }
  int64_t n[3] = {rng.Int(1, 2000), rng.Int(1, 2000), rng.Int(1, 2000)};
  if (rng.Chance(0.3))
  {
    // As many cells as can be counted; no storage is involved.
    for (int tries = 0; tries < 50; tries++)
    {
      int64_t b[3];
      for (int64_t& v : b)
      {
        const int bits = static_cast<int>(rng.Int(0, 62));
        v = rng.Chance(0.3) ? int64_t{1} << bits : static_cast<int64_t>((rng.Next() >> 1) >> (62 - bits)) | 1;
      }
      if (rng.Chance(0.5)) { b[rng.Int(0, 2)] = rng.Int(1, 3); }
      const __int128 most = std::numeric_limits<int64_t>::max();
      __int128 product = static_cast<__int128>(b[0]) * b[1];
      const bool fits = product <= most && (product *= b[2], product <= most);
      const Thrown t = vt::Catch([&] { vg::GridSizes(cell[0], cell[1], cell[2], b[0], b[1], b[2]); });
      VT_CHECK(t == (fits ? Thrown::NONE : Thrown::INVALID_ARGUMENT), "sizes/overflow", b[0], " by ", b[1], " by ", b[2], " cells ", fits ? "refused" : "accepted");
      if (fits) { for (int a = 0; a < 3; a++) { n[a] = b[a]; } vt::Count("huge_counts"); if (rng.Chance(0.2)) { break; } }
    }
  }
  const vg::GridSizes s(cell[0], cell[1], cell[2], n[0], n[1], n[2]);
  VT_CHECK(s.Valid() && s.NumXCells() == n[0] && s.NumYCells() == n[1] && s.NumZCells() == n[2] && s.CellXSize() == cell[0] && s.CellYSize() == cell[1] &&
               s.CellZSize() == cell[2] && s.TotalCells() == n[0] * n[1] * n[2] && s.NumCells() == (Eigen::Matrix<int64_t, 3, 1>(n[0], n[1], n[2])) &&
               s.CellSizes() == V3(cell[0], cell[1], cell[2]),
           "sizes/counts", "sizes from counts are wrong");
  const auto near = [](double a, double b) { return std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b)); };
  VT_CHECK(near(s.XSize(), cell[0] * static_cast<double>(n[0])) && near(s.YSize(), cell[1] * static_cast<double>(n[1])) &&
               near(s.ZSize(), cell[2] * static_cast<double>(n[2])) && s.Sizes() == V3(s.XSize(), s.YSize(), s.ZSize()),
           "sizes/lengths", "lengths are wrong");
  VT_CHECK(near(s.InvCellXSize(), 1.0 / cell[0]) && near(s.InvCellYSize(), 1.0 / cell[1]) && near(s.InvCellZSize(), 1.0 / cell[2]), "sizes/inverse",
           "inverse cell sizes are wrong");
  VT_CHECK(s.Stride2() == n[2] && s.Stride1() == n[1] * n[2], "sizes/strides", "strides are wrong");
  VT_CHECK(s.UniformCellSize() == (cell[0] == cell[1] && cell[0] == cell[2]), "sizes/uniform", "uniformity is wrong");
  const vg::GridSizes u(cell[0], n[0], n[1], n[2]);
  VT_CHECK(u.UniformCellSize() && u.CellYSize() == cell[0] && u.NumZCells() == n[2] && u.NumYCells() == n[1] && u.NumXCells() == n[0], "sizes/uniform",
           "uniform sizes are wrong");
  VT_CHECK((s == u) == (cell[0] == cell[1] && cell[0] == cell[2]) && (s != u) != (s == u), "sizes/equality", "equality is wrong");
  {
    // A difference in any one parameter matters.
    double c2[3] = {cell[0], cell[1], cell[2]};
    int64_t n2[3] = {n[0], n[1], n[2]};
    const int64_t what = rng.Int(0, 5);
    if (what < 3) { n2[what] = n[what] > 1 && rng.Chance(0.7) ? n[what] - 1 : 1; }
    else { c2[what - 3] = rng.Chance(0.5) ? std::nextafter(cell[what - 3], 1e9) : cell[what - 3] * (1.0 + 1e-9); }
    const bool same = n2[0] == n[0] && n2[1] == n[1] && n2[2] == n[2] && c2[0] == cell[0] && c2[1] == cell[1] && c2[2] == cell[2];
    const vg::GridSizes s2(c2[0], c2[1], c2[2], n2[0], n2[1], n2[2]);
    VT_CHECK((s2 == s) == same && (s == s2) == same && (s2 != s) == !same, "sizes/equality", "sizes that differ in parameter ", what, " compare equal");
    vt::Count("sizes_compared");
  }
  // From lengths: enough whole cells to cover, and not one more.
  const double len[3] = {rng.Real(0.01, 50), rng.Chance(0.3) ? cell[1] * static_cast<double>(rng.Int(1, 40)) : rng.Chance(0.5) ? rng.Real(0.01, 50)
                         : cell[1] * (static_cast<double>(rng.Int(1, 40)) + (rng.Chance(0.5) ? 1.0 : -1.0) * std::pow(10.0, static_cast<double>(-rng.Int(1, 9)))),
                         rng.Real(0.01, 50)};
  const vg::GridSizes l = rng.Chance(0.5) ? vg::GridSizes(cell[0], cell[1], cell[2], len[0], len[1], len[2]) : vg::GridSizes(cell[1], len[0], len[1], len[2]);
  const int64_t got[3] = {l.NumXCells(), l.NumYCells(), l.NumZCells()};
  const V3 lc = l.CellSizes(), ls = l.Sizes();
  for (int a = 0; a < 3; a++)
  {
    VT_CHECK(got[a] >= 1 && static_cast<double>(got[a]) * lc(a) >= len[a] * (1.0 - 1e-12) &&
                 static_cast<double>(got[a] - 1) * lc(a) <= len[a] * (1.0 + 1e-12) && near(ls(a), lc(a) * static_cast<double>(got[a])),
             "sizes/from-lengths", "length ", len[a], " cell ", lc(a), " gave ", got[a], " cells");
  }
  VT_CHECK(l.TotalCells() == got[0] * got[1] * got[2] && l.Stride1() == got[1] * got[2] && l.Stride2() == got[2], "sizes/from-lengths", "strides are wrong");
  // Index arithmetic.
  for (int k = 0; k < 20; k++)
  {
    const vg::GridIndex i(rng.Int(0, n[0] - 1), rng.Int(0, n[1] - 1), rng.Int(0, n[2] - 1));
    const int64_t d = s.GetDataIndex(i);
    VT_CHECK(d == (i.X() * n[1] + i.Y()) * n[2] + i.Z() && d == s.GetDataIndex(i.X(), i.Y(), i.Z()) && s.GetGridIndexFromDataIndex(d) == i, "sizes/data-index",
             "index (", i.X(), ",", i.Y(), ",", i.Z(), ") has data index ", d);
    vg::GridIndex j = i;
    int64_t* const which[3] = {&j.X(), &j.Y(), &j.Z()};
    const int64_t axis = rng.Int(0, 2);
    *which[axis] = rng.Pick(std::vector<int64_t>{-1, 0, n[axis] - 1, n[axis], std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()});
    const bool in = j.X() >= 0 && j.Y() >= 0 && j.Z() >= 0 && j.X() < n[0] && j.Y() < n[1] && j.Z() < n[2];
    VT_CHECK(s.IndexInBounds(j) == in && s.IndexInBounds(j.X(), j.Y(), j.Z()) == in, "sizes/in-bounds", "bounds of (", j.X(), ",", j.Y(), ",", j.Z(), ")");
    VT_CHECK((i == j) == (i.X() == j.X() && i.Y() == j.Y() && i.Z() == j.Z()) && (i != j) != (i == j), "index/equality", "index equality is wrong");
    VT_CHECK(!(i == j) || std::hash<vg::GridIndex>()(i) == std::hash<vg::GridIndex>()(j), "index/hash", "equal indices hash differently");
    const V4 c = s.IndexToLocationInGridFrame(i);
    VT_CHECK(c == s.IndexToLocationInGridFrame(i.X(), i.Y(), i.Z()) && c(3) == 1.0 && near(c(0), (static_cast<double>(i.X()) + 0.5) * cell[0]) &&
                 near(c(1), (static_cast<double>(i.Y()) + 0.5) * cell[1]) && near(c(2), (static_cast<double>(i.Z()) + 0.5) * cell[2]),
             "sizes/centre", "cell centre is wrong");
    vt::Count("indices_checked");
  }
  // Invalid parameters.
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  double p[6] = {cell[0], cell[1], cell[2], len[0], len[1], len[2]};
  p[rng.Int(0, 5)] = rng.Pick(std::vector<double>{0.0, -0.0, -1.0, nan, inf, -inf});
  VT_CHECK(vt::Catch([&] { vg::GridSizes(p[0], p[1], p[2], p[3], p[4], p[5]); }) == Thrown::INVALID_ARGUMENT, "sizes/invalid", "invalid lengths accepted");
  double pc[3] = {cell[0], cell[1], cell[2]};
  int64_t pn[3] = {n[0], n[1], n[2]};
  if (rng.Chance(0.5)) { pc[rng.Int(0, 2)] = rng.Pick(std::vector<double>{0.0, -1.0, nan, inf, -inf}); }
  else { pn[rng.Int(0, 2)] = rng.Pick(std::vector<int64_t>{0, -1, -5, std::numeric_limits<int64_t>::min()}); }
  VT_CHECK(vt::Catch([&] { vg::GridSizes(pc[0], pc[1], pc[2], pn[0], pn[1], pn[2]); }) == Thrown::INVALID_ARGUMENT, "sizes/invalid", "invalid counts accepted");
  // Counts that cannot be represented.
  const int64_t big = rng.Pick(std::vector<int64_t>{int64_t{1} << 32, int64_t{1} << 62, int64_t{3037000500}, std::numeric_limits<int64_t>::max()});
  VT_CHECK(vt::Catch([&] { vg::GridSizes(cell[0], big, big, rng.Int(1, 3)); }) == Thrown::INVALID_ARGUMENT, "sizes/overflow", "cell count overflow accepted: ", big);
  VT_CHECK(vt::Catch([&] { vg::GridSizes(1e-9, 1e6, 1e6, rng.Real(0.1, 10)); }) == Thrown::INVALID_ARGUMENT, "sizes/overflow", "cell count overflow accepted");
  const vg::GridSizes none;
  VT_CHECK(!none.Valid() && none.TotalCells() == 0 && none.NumCells() == (Eigen::Matrix<int64_t, 3, 1>(0, 0, 0)) && none.NumXCells() == 0 &&
               none.NumYCells() == 0 && none.NumZCells() == 0 && none.CellSizes() == V3(0, 0, 0) && none.Sizes() == V3(0, 0, 0) &&
               none.InvCellXSize() == 0.0 && none.InvCellYSize() == 0.0 && none.InvCellZSize() == 0.0 && none.Stride1() == 0 && none.Stride2() == 0 &&
               !none.IndexInBounds(0, 0, 0) && none == vg::GridSizes() && none != s,
           "sizes/default", "default sizes are valid");
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(n[0]), static_cast<uint64_t>(s.TotalCells())));
}

void Mapping(Rng& rng, uint64_t c)
{
  const bool dyadic = c % 3 == 0;
  const vg::GridSizes s = dyadic ? vg::GridSizes(0.25, 0.5, 2.0, rng.Int(1, 40), rng.Int(1, 40), rng.Int(1, 40)) : RandomSizes(rng, 12);
  Iso origin = dyadic ? Iso::Identity() : RandomTransform(rng);
  if (dyadic) { origin.translation() = V3(static_cast<double>(rng.Int(-8, 8)), static_cast<double>(rng.Int(-8, 8)), 0.25 * static_cast<double>(rng.Int(-8, 8))); }
  using G = vg::VoxelGrid<uint8_t>;
  G g(origin, s, 0);
  if (rng.Chance(0.5))
  {
    origin = RandomTransform(rng);
    if (dyadic) { origin = Iso::Identity(); }
    g.UpdateOriginTransform(origin);
  }
  for (int64_t moves = rng.Int(0, 3); moves > 0; moves--)
  {
    // Small moves; in the dyadic case locations remain exact.
    if (dyadic)
    {
      origin.translation()(rng.Int(0, 2)) += std::ldexp(rng.Chance(0.5) ? 1.0 : -1.0, -static_cast<int>(rng.Int(3, 34)));
      vt::Count("small_origin_changes");
    }
    else { origin = NextTransform(rng, origin); }
    g.UpdateOriginTransform(origin);
    VT_CHECK(InverseError(g.GetOriginTransform(), g.GetInverseOriginTransform()) < 1e-13, "map/inverse-origin", "inverse origin is stale");
  }
  const int64_t n[3] = {s.NumXCells(), s.NumYCells(), s.NumZCells()};
  const double cs[3] = {s.CellXSize(), s.CellYSize(), s.CellZSize()};
  const Eigen::Matrix4d back = origin.matrix().inverse();
  for (int k = 0; k < 30; k++)
  {
    // Inside, beside and far outside the grid.
    int64_t idx[3];
    for (int a = 0; a < 3; a++) { idx[a] = rng.Chance(0.85) ? rng.Int(0, n[a] - 1) : rng.Pick(std::vector<int64_t>{-1, -2, n[a], n[a] + 1, -100000, 100000}); }
    const bool in = idx[0] >= 0 && idx[1] >= 0 && idx[2] >= 0 && idx[0] < n[0] && idx[1] < n[1] && idx[2] < n[2];
    const vg::GridIndex want(idx[0], idx[1], idx[2]);
    double f[3];
    for (double& v : f) { v = dyadic ? rng.Pick(std::vector<double>{0.0, 0.0, 0.5, 0.999}) : rng.Real(0.001, 0.999); }
    const V4 local(cs[0] * (static_cast<double>(idx[0]) + f[0]), cs[1] * (static_cast<double>(idx[1]) + f[1]), cs[2] * (static_cast<double>(idx[2]) + f[2]), 1.0);
    VT_CHECK(g.LocationInGridFrameToGridIndex4d(local) == want && g.LocationInGridFrameToGridIndex3d(local.head<3>()) == want &&
                 g.LocationInGridFrameToGridIndex(local(0), local(1), local(2)) == want,
             "map/local", "grid frame location ", local.transpose(), " maps to ", g.LocationInGridFrameToGridIndex4d(local), " expected ", want);
    V4 w = origin * local;
    w(3) = 1.0;
    VT_CHECK(g.LocationToGridIndex4d(w) == want && g.LocationToGridIndex3d(w.head<3>()) == want && g.LocationToGridIndex(w(0), w(1), w(2)) == want, "map/world",
             "location ", w.transpose(), " maps to ", g.LocationToGridIndex4d(w), " expected ", want);
    VT_CHECK(g.LocationInBounds4d(w) == in && g.LocationInBounds3d(w.head<3>()) == in && g.LocationInBounds(w(0), w(1), w(2)) == in &&
                 g.GetLocationImmutable4d(w).HasValue() == in && g.GetLocationImmutable3d(w.head<3>()).HasValue() == in &&
                 g.GetLocationImmutable(w(0), w(1), w(2)).HasValue() == in,
             "map/in-bounds", "location ", w.transpose(), " in bounds is wrong");
    const V4 centre = g.GridIndexToLocation(want);
    const V4 local_centre = g.GridIndexToLocationInGridFrame(want);
    VT_CHECK(centre == g.GridIndexToLocation(idx[0], idx[1], idx[2]) && local_centre == g.GridIndexToLocationInGridFrame(idx[0], idx[1], idx[2]), "map/forms",
             "centre forms disagree");
    const V4 expect_local(cs[0] * (static_cast<double>(idx[0]) + 0.5), cs[1] * (static_cast<double>(idx[1]) + 0.5), cs[2] * (static_cast<double>(idx[2]) + 0.5), 1.0);
    VT_CHECK((local_centre - expect_local).cwiseAbs().maxCoeff() <= 1e-9 * (1.0 + expect_local.cwiseAbs().maxCoeff()), "map/centre", "centre of ", want, " is ",
             local_centre.transpose());
    VT_CHECK((back * centre - expect_local).cwiseAbs().maxCoeff() <= 1e-8 * (1.0 + expect_local.cwiseAbs().maxCoeff()) && centre(3) == 1.0, "map/world-centre",
             "world centre of ", want, " is ", centre.transpose());
    VT_CHECK(g.LocationToGridIndex4d(centre) == want && g.LocationToGridIndex3d(centre.head<3>()) == want, "map/round-trip", "centre of ", want, " maps to ",
             g.LocationToGridIndex4d(centre));
    if (in)
    {
      const int64_t d = g.GridIndexToDataIndex(want);
      VT_CHECK(d >= 0 && d < s.TotalCells() && d == g.GridIndexToDataIndex(idx[0], idx[1], idx[2]) && g.DataIndexToGridIndex(d) == want &&
                   g.HashDataIndex(want) == static_cast<uint64_t>(d) && g.HashDataIndex(idx[0], idx[1], idx[2]) == static_cast<uint64_t>(d),
               "map/data-index", "data index of ", want, " is ", d);
    }
    V4 bad = w;
    bad(3) = rng.Pick(std::vector<double>{0.0, 2.0, -1.0, 1.0 + 1e-9, 1.0 - 1e-9, std::nextafter(1.0, 2.0), std::nextafter(1.0, 0.0)});
    VT_CHECK(vt::Catch([&] { g.LocationToGridIndex4d(bad); }) == Thrown::INVALID_ARGUMENT && vt::Catch([&] { g.LocationInGridFrameToGridIndex4d(bad); }) == Thrown::INVALID_ARGUMENT,
             "map/not-a-point", "location with w=", bad(3), " accepted");
    vt::Count("locations_mapped");
  }
  // All data indices are hit exactly once.
  if (s.TotalCells() < 600)
  {
    std::set<int64_t> seen;
    for (int64_t x = 0; x < n[0]; x++)
    {
      for (int64_t y = 0; y < n[1]; y++)
      {
        for (int64_t z = 0; z < n[2]; z++) { seen.insert(g.GridIndexToDataIndex(x, y, z)); }
      }
    }
    VT_CHECK(static_cast<int64_t>(seen.size()) == s.TotalCells() && *seen.begin() == 0 && *seen.rbegin() == s.TotalCells() - 1, "map/bijection",
             "data indices are not a bijection");
  }
  // Far away is out of bounds.
  const double far = rng.Pick(std::vector<double>{1e9, -1e9, 1e15, -1e15, 1e30, -1e30, 1e300});
  V3 p(0, 0, 0);
  p(rng.Int(0, 2)) = far;
  const V3 wp = p;
  bool outside = false;
  const Eigen::Vector4d lp = back * V4(wp(0), wp(1), wp(2), 1.0);
  for (int a = 0; a < 3; a++) { outside = outside || lp(a) < -1.0 || lp(a) > cs[a] * static_cast<double>(n[a]) + 1.0; }
  if (outside)
  {
    VT_CHECK(g.GetLocationImmutable3d(wp).Status() == vg::AccessStatus::OUT_OF_BOUNDS && !g.LocationInBounds3d(wp), "map/far", "far location is in bounds: ", far);
    vt::Count("far_locations");
  }
  vt::Nontrivial(vt::Combine(static_cast<uint64_t>(s.TotalCells()), static_cast<uint64_t>(n[0])));
}

// ---------------------------------------------------------------- P38 model
template<typename T, typename BS>
class HookedHash : public vg::DynamicSpatialHashedVoxelGridBase<T, BS>
{
public:
  std::vector<V4> calls;
  bool allow = true;
  bool allow_raw = true;
  uint32_t tag = 0;
  HookedHash() = default;
  HookedHash(const Iso& o, const vg::GridSizes& s, const T& d, size_t n) : vg::DynamicSpatialHashedVoxelGridBase<T, BS>(o, s, d, n) {}
  HookedHash(const vg::GridSizes& s, const T& d, size_t n) : vg::DynamicSpatialHashedVoxelGridBase<T, BS>(s, d, n) {}

private:
  std::unique_ptr<vg::DynamicSpatialHashedVoxelGridBase<T, BS>> DoClone() const override
  {
    return std::unique_ptr<vg::DynamicSpatialHashedVoxelGridBase<T, BS>>(new HookedHash<T, BS>(*this));
  }
  uint64_t DerivedSerializeSelf(Buffer& b, const ser::Serializer<T>&) const override { return ser::SerializeMemcpyable<uint32_t>(tag, b); }
  uint64_t DerivedDeserializeSelf(const Buffer& b, const uint64_t at, const ser::Deserializer<T>&) override
  {
    const auto d = ser::DeserializeMemcpyable<uint32_t>(b, at);
    tag = d.Value();
    return d.BytesRead();
  }
  bool OnMutableAccess(const V4& location) override
  {
    calls.push_back(location);
    return allow;
  }
  bool OnMutableRawAccess() override { return allow_raw; }
};

using Key = std::vector<int64_t>;
template<typename T>
struct HashModel
{
  struct Chunk { bool cells; std::vector<T> v; };
  Iso origin;
  vg::GridSizes sizes;
  T def;
  std::map<Key, Chunk> chunks;
  int64_t N(int a) const { return sizes.NumCells()(a); }
};

struct Cell { Key chunk; int64_t at[3]; V4 local; V4 world; };

template<typename T>
Cell CellAt(Rng& rng, const HashModel<T>& m, const Key& chunk, const int64_t* at, bool exact_low)
{
  Cell c;
  c.chunk = chunk;
  V4 l(0, 0, 0, 1);
  for (int a = 0; a < 3; a++)
  {
    c.at[a] = at[a];
    const double f = exact_low ? 0.0 : rng.Real(0.01, 0.99);
    l(a) = m.sizes.CellSizes()(a) * (static_cast<double>(chunk[static_cast<size_t>(a)] * m.N(a) + at[a]) + f);
  }
  c.local = l;
  c.world = m.origin * l;
  c.world(3) = 1.0;
  return c;
}

template<typename T>
Cell RandomCellOf(Rng& rng, const HashModel<T>& m)
{
  Key k(3);
  int64_t at[3];
  for (int a = 0; a < 3; a++)
  {
    k[static_cast<size_t>(a)] = g_large && m.sizes.TotalCells() < 100 ? rng.Int(-6, 5) : rng.Int(-2, 1);
    at[a] = rng.Int(0, m.N(a) - 1);
  }
  if (rng.Chance(0.05)) { k[static_cast<size_t>(rng.Int(0, 2))] = rng.Pick(std::vector<int64_t>{-100000, 100000, 12345}); }
  return CellAt(rng, m, k, at, false);
}

template<typename T>
size_t Off(const HashModel<T>& m, const Cell& c) { return static_cast<size_t>((c.at[0] * m.N(1) + c.at[1]) * m.N(2) + c.at[2]); }

template<typename T, typename BS>
void CheckCell(const vg::DynamicSpatialHashedVoxelGridBase<T, BS>& g, const HashModel<T>& m, const Cell& c, const char* after, int form)
{
  const auto q = form == 0 ? g.GetLocationImmutable(c.world(0), c.world(1), c.world(2)) : form == 1 ? g.GetLocationImmutable3d(c.world.template head<3>())
                                                                                                    : g.GetLocationImmutable4d(c.world);
  const auto it = m.chunks.find(c.chunk);
  if (it == m.chunks.end())
  {
    VT_CHECK(q.FoundStatus() == vg::DSHVGFoundStatus::NOT_FOUND && !q.HasValue() && !q, "hash/not-found", "an untouched chunk has a value after ", after);
    VT_CHECK(vt::Catch([&] { (void)q.Value(); }) != Thrown::NONE, "hash/empty-query", "empty query returned a value");
    vt::Count("not_found");
    return;
  }
  VT_CHECK(q.HasValue(), "hash/lost", "value at ", c.world.transpose(), " is gone after ", after);
  const bool cells = it->second.cells;
  VT_CHECK(q.FoundStatus() == (cells ? vg::DSHVGFoundStatus::FOUND_IN_CELL : vg::DSHVGFoundStatus::FOUND_IN_CHUNK), "hash/status", "status ",
           static_cast<int>(q.FoundStatus()), " after ", after);
  VT_CHECK(q.Value() == it->second.v[cells ? Off(m, c) : 0], "hash/content", "cell (", c.at[0], ",", c.at[1], ",", c.at[2], ") of chunk ", vt::VecStr(c.chunk),
           " is wrong after ", after);
}

template<typename T, typename BS>
void CheckAll(Rng& rng, const vg::DynamicSpatialHashedVoxelGridBase<T, BS>& g, const HashModel<T>& m, const char* after)
{
  VT_CHECK(g.GetImmutableInternalChunks().size() == m.chunks.size(), "hash/chunk-count", g.GetImmutableInternalChunks().size(), " chunks, expected ",
           m.chunks.size(), " after ", after);
  VT_CHECK(g.GetDefaultValue() == m.def && g.IsInitialized() && g.GetChunkGridSizes() == m.sizes, "hash/header", "header is wrong after ", after);
  for (const auto& kv : m.chunks)
  {
    int64_t at[3];
    for (at[0] = 0; at[0] < m.N(0); at[0]++)
    {
      for (at[1] = 0; at[1] < m.N(1); at[1]++)
      {
        for (at[2] = 0; at[2] < m.N(2); at[2]++) { CheckCell(g, m, CellAt(rng, m, kv.first, at, false), after, static_cast<int>(at[2] % 3)); }
      }
    }
  }
}

template<typename T, typename BS>
void HashHistory(Rng& rng)
{
  using Grid = HookedHash<T, BS>;
  HashModel<T> m;
  m.origin = RandomTransform(rng);
  m.sizes = RandomSizes(rng, 3);
  m.def = Value<T>(rng);
  Grid g(m.origin, m.sizes, m.def, rng.Size(0, 20));
  if (rng.Chance(0.2)) { m.origin = Iso::Identity(); g = Grid(m.sizes, m.def, 3); }
  VT_CHECK(g.GetChunkSizes() == m.sizes.Sizes() && g.GetCellSizes() == m.sizes.CellSizes() && g.GetChunkNumCells() == m.sizes.NumCells() &&
               g.HasUniformCellSize() == m.sizes.UniformCellSize() && g.GetOriginTransform().matrix() == m.origin.matrix(), "hash/getters", "getters are wrong");
  std::string log;
  const int64_t steps = g_large ? rng.Int(200, 500) : rng.Int(5, 25);
  for (int64_t step = steps; step > 0; step--)
  {
    g.calls.clear();
    g.allow = rng.Chance(0.85);
    g.allow_raw = rng.Chance(0.8);
    Cell c = RandomCellOf(rng, m);
    // Revisit touched chunks often.
    if (!m.chunks.empty() && rng.Chance(0.5))
    {
      auto it = m.chunks.begin();
      std::advance(it, rng.Int(0, static_cast<int64_t>(m.chunks.size()) - 1));
      const int64_t at[3] = {rng.Int(0, m.N(0) - 1), rng.Int(0, m.N(1) - 1), rng.Int(0, m.N(2) - 1)};
      c = CellAt(rng, m, it->first, at, false);
    }
    const auto found = m.chunks.find(c.chunk);
    const T v = Value<T>(rng);
    const int64_t op = rng.Int(0, 11);
    const char* name = "";
    const V4 w = c.world;
    const size_t total = static_cast<size_t>(m.sizes.TotalCells());
    if (op <= 5)
    {
      const bool cell = rng.Chance(0.6);
      name = cell ? "cell set" : "chunk set";
      const auto type = cell ? vg::DSHVGSetType::SET_CELL : vg::DSHVGSetType::SET_CHUNK;
      T tmp = v;
      T stored = v;
      vg::DSHVGSetStatus s;
      switch (rng.Int(0, 6))
      {
        case 0: s = g.SetLocation(w(0), w(1), w(2), type, v); break;
        case 1: s = g.SetLocation(w(0), w(1), w(2), type, std::move(tmp)); break;
        case 2: s = g.SetLocation3d(w.head<3>(), type, v); break;
        case 3: s = g.SetLocation3d(w.head<3>(), type, std::move(tmp)); break;
        case 4: s = g.SetLocation4d(w, type, v); break;
        case 5: s = g.SetLocation4d(w, type, std::move(tmp)); break;
        default:
        {
          // Copy a value stored in this grid, often in the same chunk.
          Cell from = c;
          for (int a = 0; a < 3; a++) { from.at[a] = rng.Int(0, m.N(a) - 1); }
          from = CellAt(rng, m, c.chunk, from.at, false);
          const auto q = g.GetLocationImmutable4d(from.world);
          if (!q) { s = g.SetLocation4d(w, type, v); break; }
          stored = found->second.v[found->second.cells ? Off(m, from) : 0];
          s = g.SetLocation4d(w, type, q.Value());
          vt::Count("aliased_sets");
        }
      }
      if (!g.allow)
      {
        VT_CHECK(s == vg::DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED, "hash/prohibited", "prohibited set returned ", static_cast<int>(s));
        vt::Count("prohibited");
      }
      else
      {
        VT_CHECK(s == (cell ? vg::DSHVGSetStatus::SET_CELL : vg::DSHVGSetStatus::SET_CHUNK), "hash/set-status", "set returned ", static_cast<int>(s));
        auto& ch = m.chunks[c.chunk];
        if (!cell) { ch.cells = false; ch.v.assign(1, stored); }
        else
        {
          if (ch.v.empty()) { ch.cells = true; ch.v.assign(total, m.def); }
          else if (!ch.cells) { const T all = ch.v[0]; ch.cells = true; ch.v.assign(total, all); vt::Count("chunks_expanded"); }
          ch.v[Off(m, c)] = stored;
        }
        vt::Count("sets");
      }
      VT_CHECK(!g.calls.empty(), "hash/hook", "a set did not report its access");
      for (const V4& at : g.calls)
      {
        VT_CHECK((at - c.local).cwiseAbs().maxCoeff() <= 1e-8 * (1.0 + c.local.cwiseAbs().maxCoeff()), "hash/hook-location", "set at ", c.local.transpose(),
                 " reported ", at.transpose());
      }
      CheckCell(g, m, c, name, static_cast<int>(rng.Int(0, 2)));
    }
    else if (op <= 7)
    {
      name = "mutable query";
      auto q = op == 6 ? g.GetLocationMutable(w(0), w(1), w(2)) : rng.Chance(0.5) ? g.GetLocationMutable3d(w.head<3>()) : g.GetLocationMutable4d(w);
      if (found == m.chunks.end()) { VT_CHECK(q.FoundStatus() == vg::DSHVGFoundStatus::NOT_FOUND && !q, "hash/not-found", "mutable query found an untouched chunk"); }
      else if (!g.allow)
      {
        VT_CHECK(q.FoundStatus() == vg::DSHVGFoundStatus::MUTABLE_ACCESS_PROHIBITED && !q.HasValue(), "hash/prohibited", "prohibited access returned ",
                 static_cast<int>(q.FoundStatus()));
      }
      else
      {
        const size_t i = found->second.cells ? Off(m, c) : 0;
        VT_CHECK(q.HasValue() && q.Value() == found->second.v[i], "hash/content", "mutable query found another value");
        VT_CHECK(g.calls.size() == 1, "hash/hook", "a mutable query did not report its access");
        q.Value() = v;
        found->second.v[i] = v;
      }
      for (const V4& at : g.calls)
      {
        VT_CHECK((at - c.local).cwiseAbs().maxCoeff() <= 1e-8 * (1.0 + c.local.cwiseAbs().maxCoeff()), "hash/hook-location", "mutable query at ", c.local.transpose(),
                 " reported ", at.transpose());
      }
    }
    else if (op == 8)
    {
      name = "default";
      g.SetDefaultValue(v);
      m.def = v;
    }
    else if (op == 9)
    {
      name = "origin update";
      m.origin = NextTransform(rng, m.origin);
      g.UpdateOriginTransform(m.origin);
      VT_CHECK(InverseError(g.GetOriginTransform(), g.GetInverseOriginTransform()) < 1e-13, "hash/inverse-origin", "inverse origin is stale");
    }
    else if (op == 10)
    {
      name = "internal chunks";
      const Thrown t = vt::Catch([&]
      {
        auto& chunks = g.GetMutableInternalChunks();
        VT_CHECK(chunks.size() == m.chunks.size(), "hash/internal", "internal chunks are wrong");
        for (auto& kv : chunks)
        {
          auto& chunk = kv.second;
          Key k(3);
          for (int a = 0; a < 3; a++)
          {
            k[static_cast<size_t>(a)] = static_cast<int64_t>(std::llround(kv.first.Base()(a) / m.sizes.Sizes()(a)));
          }
          const auto mc = m.chunks.find(k);
          VT_CHECK(mc != m.chunks.end(), "hash/internal", "unexpected chunk");
          VT_CHECK((chunk.FillStatus() == vg::DSHVGFillStatus::CELL_FILLED) == mc->second.cells, "hash/internal", "fill status is wrong");
          const V4 centre = chunk.GetChunkCenterInGridFrame();
          for (int a = 0; a < 3; a++)
          {
            const double want = (static_cast<double>(k[static_cast<size_t>(a)]) + 0.5) * m.sizes.Sizes()(a);
            VT_CHECK(std::abs(centre(a) - want) <= 1e-9 * (1.0 + std::abs(want)), "hash/chunk-centre", "chunk centre is wrong");
          }
          VT_CHECK(centre(3) == 1.0, "hash/chunk-centre", "chunk centre is no point");
          const vg::GridIndex i = mc->second.cells ? vg::GridIndex(rng.Int(0, m.N(0) - 1), rng.Int(0, m.N(1) - 1), rng.Int(0, m.N(2) - 1)) : vg::GridIndex(0, 0, 0);
          const size_t off = mc->second.cells ? static_cast<size_t>(m.sizes.GetDataIndex(i)) : 0;
          VT_CHECK(chunk.GetIndexImmutable(i).Value() == mc->second.v[off], "hash/chunk-index", "chunk cell is wrong");
          chunk.GetIndexMutable(i).Value() = v;
          mc->second.v[off] = v;
          VT_CHECK(vt::Catch([&] { chunk.GetIndexImmutable(vg::GridIndex(m.N(0), 0, 0)); }) != Thrown::NONE &&
                       vt::Catch([&] { chunk.GetIndexMutable(vg::GridIndex(0, -1, 0)); }) != Thrown::NONE, "hash/chunk-bounds", "cell outside the chunk accepted");
          const V4 cc = chunk.GetCellLocationInGridFrame(i);
          for (int a = 0; a < 3; a++)
          {
            const int64_t ia = a == 0 ? i.X() : a == 1 ? i.Y() : i.Z();
            const double want = (static_cast<double>(k[static_cast<size_t>(a)] * m.N(a) + ia) + 0.5) * m.sizes.CellSizes()(a);
            VT_CHECK(std::abs(cc(a) - want) <= 1e-9 * (1.0 + std::abs(want)), "hash/cell-centre", "cell centre is wrong");
          }
          if (rng.Chance(0.5))
          {
            const T direct = Value<T>(rng);
            T moved = direct;
            const bool move = rng.Chance(0.5), cell = rng.Chance(0.6);
            const V4 where = cell && mc->second.cells ? cc : centre;
            // The cell holding the centre of the chunk, or of the chosen cell.
            const int64_t ca[3] = {cell && mc->second.cells ? i.X() : m.N(0) / 2, cell && mc->second.cells ? i.Y() : m.N(1) / 2,
                                   cell && mc->second.cells ? i.Z() : m.N(2) / 2};
            const bool odd = m.N(0) % 2 == 1 && m.N(1) % 2 == 1 && m.N(2) % 2 == 1;  // else the centre lies on a border
            if (!cell)
            {
              const auto st = move ? chunk.SetChunkValue(std::move(moved)) : chunk.SetChunkValue(direct);
              VT_CHECK(st == vg::DSHVGSetStatus::SET_CHUNK, "hash/chunk-set", "chunk set gave ", static_cast<int>(st));
              mc->second.cells = false;
              mc->second.v.assign(1, direct);
              vt::Count("direct_chunk_sets");
            }
            else if (mc->second.cells || odd)
            {
              const auto st = move ? chunk.SetCellLocation4d(where, std::move(moved)) : chunk.SetCellLocation4d(where, direct);
              VT_CHECK(st == vg::DSHVGSetStatus::SET_CELL, "hash/chunk-set", "cell set gave ", static_cast<int>(st));
              if (!mc->second.cells) { const T all = mc->second.v[0]; mc->second.cells = true; mc->second.v.assign(static_cast<size_t>(m.sizes.TotalCells()), all); }
              mc->second.v[static_cast<size_t>(m.sizes.GetDataIndex(ca[0], ca[1], ca[2]))] = direct;
              vt::Count("direct_chunk_sets");
            }
          }
          vt::Count("internal_chunks");
        }
      });
      VT_CHECK((t == Thrown::NONE) == g.allow_raw, "hash/raw-hook", "raw access allowed=", g.allow_raw, " gave ", static_cast<int>(t));
    }
    else
    {
      name = "clone";
      const std::unique_ptr<vg::DynamicSpatialHashedVoxelGridBase<T, BS>> copy = rng.Chance(0.5) ? g.Clone() : std::make_unique<Grid>(g);
      if (!g_large || rng.Chance(0.05)) { CheckAll(rng, *copy, m, "cloning"); }
      dynamic_cast<Grid&>(*copy).allow = true;
      copy->SetLocation4d(w, rng.Chance(0.5) ? vg::DSHVGSetType::SET_CELL : vg::DSHVGSetType::SET_CHUNK, v);
      VT_CHECK(copy->GetLocationImmutable4d(w).Value() == v, "hash/clone", "clone is not writable");
      copy->SetDefaultValue(v);
      vt::Count("clones");
    }
    if (!g_large || step % 40 == 1) { CheckAll(rng, g, m, name); }
    CheckCell(g, m, RandomCellOf(rng, m), name, static_cast<int>(rng.Int(0, 2)));
    log += static_cast<char>('a' + op);
  }
  vt::Count("histories");
  vt::Nontrivial(vt::Combine(vt::HashStr(log), m.chunks.size()));
}

void HashStorage(Rng& rng, uint64_t c)
{
  switch (c % 3)
  {
    case 0: HashHistory<int32_t, std::vector<int32_t>>(rng); break;
    case 1: HashHistory<std::string, std::vector<std::string>>(rng); break;
    default: HashHistory<double, std::vector<double, Eigen::aligned_allocator<double>>>(rng); break;
  }
}

// Any finite location belongs to exactly one cell, however close to a boundary.
void HashBoundaries(Rng& rng, uint64_t)
{
  const vg::GridSizes sizes = RandomSizes(rng, 3);
  Iso origin = rng.Chance(0.5) ? Iso::Identity() : RandomTransform(rng);
  vg::DynamicSpatialHashedVoxelGrid<int64_t> g(origin, sizes, 0, 4);
  const double cs[3] = {sizes.CellXSize(), sizes.CellYSize(), sizes.CellZSize()};
  for (int64_t k = 1; k <= 12; k++)
  {
    V4 local(0, 0, 0, 1);
    int64_t line[3];
    const double range = rng.Pick(std::vector<double>{4, 40, 4000});
    for (int a = 0; a < 3; a++)
    {
      line[a] = static_cast<int64_t>(rng.Real(-range, range));
      double x = static_cast<double>(line[a]) * cs[a];
      switch (rng.Int(0, 6))
      {
        case 0: break;
        case 1: x = std::nextafter(x, 1e300); break;
        case 2: x = std::nextafter(x, -1e300); break;
        case 3: x = -1e-17; line[a] = 0; break;
        case 4: x = -1e-300; line[a] = 0; break;
        case 5: x = x * (1.0 + 1e-16 * static_cast<double>(rng.Int(-4, 4))); break;
        default: x += cs[a] * 0.5; break;
      }
      local(a) = x;
    }
    V4 w = origin * local;
    w(3) = 1.0;
    const bool cell = rng.Chance(0.7);
    const auto before = g.GetImmutableInternalChunks().size();
    vg::DSHVGSetStatus s = vg::DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED;
    const Thrown t = vt::Catch([&] { s = g.SetLocation4d(w, cell ? vg::DSHVGSetType::SET_CELL : vg::DSHVGSetType::SET_CHUNK, k); });
    VT_CHECK(t == Thrown::NONE && s == (cell ? vg::DSHVGSetStatus::SET_CELL : vg::DSHVGSetStatus::SET_CHUNK), "hash/boundary-set", "setting ",
             local(0), ",", local(1), ",", local(2), " (cells ", cs[0], ",", cs[1], ",", cs[2], ") threw: ", vt::LastWhat());
    VT_CHECK(g.GetImmutableInternalChunks().size() <= before + 1, "hash/boundary-chunks", "more than one chunk was created");
    int64_t read = -1;
    const Thrown t2 = vt::Catch([&] { read = g.GetLocationImmutable4d(w).Value(); });
    VT_CHECK(t2 == Thrown::NONE && read == k, "hash/boundary-get", "value at ", local(0), ",", local(1), ",", local(2), " reads ", read, " expected ", k, ": ", vt::LastWhat());
    if (cell)
    {
      // Exactly one of the surrounding cells changed.
      int64_t hits = 0;
      for (int64_t dx = -2; dx <= 1; dx++)
      {
        for (int64_t dy = -2; dy <= 1; dy++)
        {
          for (int64_t dz = -2; dz <= 1; dz++)
          {
            const V4 centre(cs[0] * (std::floor(local(0) / cs[0] + 0.5) + static_cast<double>(dx) + 0.5), cs[1] * (std::floor(local(1) / cs[1] + 0.5) + static_cast<double>(dy) + 0.5),
                            cs[2] * (std::floor(local(2) / cs[2] + 0.5) + static_cast<double>(dz) + 0.5), 1.0);
            V4 wc = origin * centre;
            wc(3) = 1.0;
            const auto q = g.GetLocationImmutable4d(wc);
            if (q && q.Value() == k)
            {
              hits++;
              VT_CHECK(((wc - w).head<3>()).norm() <= 0.5000001 * V3(cs[0], cs[1], cs[2]).norm() + 1e-6, "hash/boundary-cell", "a cell not touching the location changed");
            }
          }
        }
      }
      VT_CHECK(hits == 1, "hash/boundary-cells", hits, " cells changed by one set");
    }
    vt::Count("boundary_locations");
  }
  // Locations that are no locations.
  const auto chunks = g.GetImmutableInternalChunks().size();
  const double bad = rng.Pick(std::vector<double>{std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
  V4 w(0, 0, 0, 1);
  w(rng.Int(0, 2)) = bad;
  VT_CHECK(vt::Catch([&] { g.SetLocation4d(w, rng.Chance(0.5) ? vg::DSHVGSetType::SET_CELL : vg::DSHVGSetType::SET_CHUNK, int64_t{1}); }) != Thrown::NONE &&
               g.GetImmutableInternalChunks().size() == chunks, "hash/non-finite", "a non-finite location was stored");
  vg::DynamicSpatialHashedVoxelGrid<int64_t> none;
  VT_CHECK(!none.IsInitialized() && vt::Catch([&] { none.GetLocationImmutable(0, 0, 0); }) != Thrown::NONE &&
               vt::Catch([&] { none.SetLocation(0, 0, 0, vg::DSHVGSetType::SET_CELL, int64_t{1}); }) != Thrown::NONE, "hash/uninitialized", "an uninitialized grid was used");
  VT_CHECK(vt::Catch([&] { vg::DynamicSpatialHashedVoxelGrid<int64_t>(vg::GridSizes(), 0, 1); }) == Thrown::INVALID_ARGUMENT, "hash/invalid-sizes", "invalid sizes accepted");
  vt::Nontrivial(rng.Next());
}

// ---------------------------------------------------------------- P37
Buffer Prefix(Rng& rng)
{
  Buffer b(rng.Size(0, 20));
  for (auto& v : b) { v = static_cast<uint8_t>(rng.Next()); }
  return b;
}

template<typename Fn>
void Damage(Rng& rng, const Buffer& good, uint64_t at, uint64_t written, const Fn& read)
{
  for (int k = 0; k < 4; k++)
  {
    Buffer hurt = good;
    bool truncated = false;
    if (rng.Chance(0.4))
    {
      hurt.resize(at + rng.Size(0, static_cast<size_t>(written) - 1));
      truncated = true;
    }
    else
    {
      for (int64_t e = rng.Int(1, 4); e > 0; e--)
      {
        const size_t pos = rng.Size(static_cast<size_t>(at), static_cast<size_t>(at + written) - 1);
        switch (rng.Int(0, 3))
        {
          case 0: hurt[pos] = static_cast<uint8_t>(rng.Next()); break;
          case 1: hurt[pos] = static_cast<uint8_t>(hurt[pos] + rng.Int(-1, 1)); break;
          default:
          {
            // Plant a hostile 64-bit number.
            const int64_t bad = rng.Pick(std::vector<int64_t>{-1, 0, 1, int64_t{1} << 32, int64_t{1} << 62, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()});
            if (pos + 8 <= hurt.size()) { std::memcpy(&hurt[pos], &bad, 8); }
          }
        }
      }
    }
    Buffer exact(hurt.begin(), hurt.end());
    exact.shrink_to_fit();
    vt::LargestAlloc() = 0;
    const Thrown t = vt::Catch([&] { read(exact, truncated); });
    VT_CHECK(!truncated || t != Thrown::NONE, "voxel/truncated", "a truncated encoding was accepted");
    VT_CHECK(vt::LargestAlloc() <= 65536 + 128 * exact.size(), "voxel/allocation", "asked for ", vt::LargestAlloc().load(), " bytes for a buffer of ", exact.size());
    vt::Count(truncated ? "truncations" : t == Thrown::NONE ? "damage_accepted" : "damage_rejected");
  }
}

template<typename T, typename BS>
void GridSerialization(Rng& rng)
{
  using G = HookedGrid<T, BS>;
  const auto s = Codec<T>::S();
  const auto d = Codec<T>::D();
  Model<T> m;
  G g;
  const bool init = rng.Chance(0.9);
  g.tag = static_cast<uint32_t>(rng.Next());
  if (init)
  {
    const auto sizes = RandomSizes(rng, 4);
    m.origin = RandomTransform(rng);
    m.n[0] = sizes.NumXCells(); m.n[1] = sizes.NumYCells(); m.n[2] = sizes.NumZCells();
    m.def = Value<T>(rng);
    m.oob = Value<T>(rng);
    g.Initialize(m.origin, sizes, m.def, m.oob);
    for (int64_t i = 0; i < sizes.TotalCells(); i++)
    {
      m.cells.push_back(Value<T>(rng));
      g.SetDataIndex(i, m.cells.back());
    }
  }
  else if (rng.Chance(0.5)) { g.SetDefaultValue(Value<T>(rng)); g.SetOOBValue(Value<T>(rng)); }
  Buffer b = Prefix(rng);
  const Buffer prefix = b;
  const uint64_t at = b.size();
  const uint64_t written = g.SerializeSelf(b, s);
  VT_CHECK(written == b.size() - at && std::equal(prefix.begin(), prefix.end(), b.begin()), "voxel/bytes-written", "claims ", written, " wrote ", b.size() - at);
  const Buffer tail = Prefix(rng);
  b.insert(b.end(), tail.begin(), tail.end());
  G r(Iso::Identity(), vg::GridSizes(1.0, int64_t{1}, int64_t{1}, int64_t{1}), Value<T>(rng), Value<T>(rng));
  const uint64_t read = r.DeserializeSelf(b, at, d);
  VT_CHECK(read == written, "voxel/bytes-read", "read ", read, " of ", written);
  VT_CHECK(r.tag == g.tag, "voxel/derived", "derived members were not restored");
  VT_CHECK(r.GetGridSizes() == g.GetGridSizes() && r.IsInitialized() == g.IsInitialized() && r.GetGridSizes().Valid() == g.GetGridSizes().Valid() &&
               r.GetDefaultValue() == g.GetDefaultValue() && r.GetOOBValue() == g.GetOOBValue() &&
               r.GetOriginTransform().matrix() == g.GetOriginTransform().matrix() && r.GetImmutableRawData() == g.GetImmutableRawData(),
           "voxel/round-trip", "grid changed in a round trip");
  VT_CHECK(r.GetGridSizes().XSize() == g.GetGridSizes().XSize() && r.GetGridSizes().YSize() == g.GetGridSizes().YSize() && r.GetGridSizes().ZSize() == g.GetGridSizes().ZSize() &&
               r.GetGridSizes().InvCellXSize() == g.GetGridSizes().InvCellXSize() && r.GetGridSizes().InvCellYSize() == g.GetGridSizes().InvCellYSize() &&
               r.GetGridSizes().InvCellZSize() == g.GetGridSizes().InvCellZSize() && r.GetGridSizes().Stride1() == g.GetGridSizes().Stride1() &&
               r.GetGridSizes().Stride2() == g.GetGridSizes().Stride2(), "voxel/round-trip-sizes", "derived sizes changed in a round trip");
  VT_CHECK((r.GetInverseOriginTransform().matrix() - g.GetInverseOriginTransform().matrix()).cwiseAbs().maxCoeff() < 1e-9, "voxel/round-trip-inverse", "inverse origin is stale");
  if (init)
  {
    Compare(r, m, "a round trip");
    for (int k = 0; k < 5; k++)
    {
      const int64_t i = rng.Int(0, g.GetTotalCells() - 1);
      const V4 w = g.GridIndexToLocation(g.DataIndexToGridIndex(i));
      VT_CHECK(r.GetLocationImmutable4d(w).Value() == m.cells[static_cast<size_t>(i)], "voxel/round-trip-lookup", "lookup differs after a round trip");
    }
  }
  vt::Count("round_trips");
  if (init)
  {
    // The concrete grid through its static interface; two in a row.
    vg::VoxelGrid<T, BS> v(m.origin, g.GetGridSizes(), m.def, m.oob);
    BS data(m.cells.begin(), m.cells.end());
    v.SetRawData(data);
    Buffer b2 = Prefix(rng);
    const uint64_t at2 = b2.size();
    const uint64_t w1 = vg::VoxelGrid<T, BS>::Serialize(v, b2, s);
    const uint64_t w2 = vg::VoxelGrid<T, BS>::Serialize(v, b2, s);
    const auto r1 = vg::VoxelGrid<T, BS>::Deserialize(b2, at2, d);
    const auto r2 = vg::VoxelGrid<T, BS>::Deserialize(b2, at2 + r1.BytesRead(), d);
    VT_CHECK(r1.BytesRead() == w1 && r2.BytesRead() == w2 && w1 == w2 && at2 + w1 + w2 == b2.size(), "voxel/bytes-read", "static interface counts differ");
    Compare(r1.Value(), m, "a round trip");
    Compare(r2.Value(), m, "a second round trip");
  }
  Damage(rng, b, at, written, [&](const Buffer& exact, bool truncated)
  {
    G h;
    const uint64_t n = h.DeserializeSelf(exact, at, d);
    VT_CHECK(!truncated && n <= exact.size() - at, "voxel/over-read", "claims ", n, " of ", exact.size() - at);
    const auto& z = h.GetGridSizes();
    VT_CHECK(z.Valid() == h.IsInitialized() && z.TotalCells() == static_cast<int64_t>(h.GetImmutableRawData().size()) &&
                 (!z.Valid() || (z.NumXCells() > 0 && z.NumYCells() > 0 && z.NumZCells() > 0)), "voxel/inconsistent", "damaged grid has ", z.TotalCells(), " cells and ",
             h.GetImmutableRawData().size(), " values");
    for (int64_t i = 0; i < z.TotalCells(); i++)
    {
      const auto gi = h.DataIndexToGridIndex(i);
      VT_CHECK(h.GetIndexImmutable(gi).HasValue(), "voxel/inconsistent", "a cell of a damaged grid is missing");
    }
  });
  vt::Nontrivial(vt::HashStr(std::string(b.begin(), b.end())));
}

void GridSer(Rng& rng, uint64_t c)
{
  switch (c % 4)
  {
    case 0: GridSerialization<int32_t, std::vector<int32_t>>(rng); break;
    case 1: GridSerialization<std::string, std::vector<std::string>>(rng); break;
    case 2: GridSerialization<double, std::vector<double, Eigen::aligned_allocator<double>>>(rng); break;
    default: GridSerialization<uint8_t, std::vector<uint8_t>>(rng); break;
  }
}

template<typename T, typename BS>
void HashSerialization(Rng& rng)
{
  using G = HookedHash<T, BS>;
  const auto s = Codec<T>::S();
  const auto d = Codec<T>::D();
  HashModel<T> m;
  m.origin = RandomTransform(rng);
  m.sizes = RandomSizes(rng, 3);
  m.def = Value<T>(rng);
  G g(m.origin, m.sizes, m.def, 3);
  g.tag = static_cast<uint32_t>(rng.Next());
  for (int64_t k = g_large && m.sizes.TotalCells() < 100 ? rng.Int(50, 300) : rng.Int(0, 12); k > 0; k--)
  {
    const Cell c = RandomCellOf(rng, m);
    const T v = Value<T>(rng);
    const bool cell = rng.Chance(0.6);
    g.SetLocation4d(c.world, cell ? vg::DSHVGSetType::SET_CELL : vg::DSHVGSetType::SET_CHUNK, v);
    auto& ch = m.chunks[c.chunk];
    if (!cell) { ch.cells = false; ch.v.assign(1, v); }
    else
    {
      const T fill = ch.v.empty() ? m.def : ch.v[0];
      if (ch.v.empty() || !ch.cells) { ch.cells = true; ch.v.assign(static_cast<size_t>(m.sizes.TotalCells()), fill); }
      ch.v[Off(m, c)] = v;
    }
  }
  Buffer b = Prefix(rng);
  const Buffer prefix = b;
  const uint64_t at = b.size();
  const uint64_t written = g.SerializeSelf(b, s);
  VT_CHECK(written == b.size() - at && std::equal(prefix.begin(), prefix.end(), b.begin()), "hash/bytes-written", "claims ", written, " wrote ", b.size() - at);
  const Buffer tail = Prefix(rng);
  b.insert(b.end(), tail.begin(), tail.end());
  G r;
  const uint64_t read = r.DeserializeSelf(b, at, d);
  VT_CHECK(read == written && r.tag == g.tag, "hash/bytes-read", "read ", read, " of ", written);
  CheckAll(rng, r, m, "a round trip");
  VT_CHECK(r.GetOriginTransform().matrix() == m.origin.matrix(), "hash/round-trip", "origin changed");
  for (int k = 0; k < 6; k++) { CheckCell(r, m, RandomCellOf(rng, m), "a round trip", k % 3); }
  vt::Count("round_trips");
  {
    // Concrete grid and its default-constructed form.
    using C = vg::DynamicSpatialHashedVoxelGrid<T, BS>;
    const bool empty = rng.Chance(0.3);
    C c = empty ? C() : C(m.origin, m.sizes, m.def, 2);
    if (!empty) { c.SetLocation(0.1, 0.1, 0.1, vg::DSHVGSetType::SET_CELL, m.def); }
    Buffer b2 = Prefix(rng);
    const uint64_t at2 = b2.size();
    const uint64_t w2 = C::Serialize(c, b2, s);
    const auto back = C::Deserialize(b2, at2, d);
    VT_CHECK(back.BytesRead() == w2 && at2 + w2 == b2.size() && back.Value().IsInitialized() == !empty &&
                 back.Value().GetDefaultValue() == c.GetDefaultValue() &&
                 back.Value().GetImmutableInternalChunks().size() == c.GetImmutableInternalChunks().size(), "hash/round-trip", "static interface differs");
  }
  Damage(rng, b, at, written, [&](const Buffer& exact, bool truncated)
  {
    G h;
    const uint64_t n = h.DeserializeSelf(exact, at, d);
    VT_CHECK(!truncated && n <= exact.size() - at, "hash/over-read", "claims ", n, " of ", exact.size() - at);
    VT_CHECK(h.GetChunkGridSizes().Valid() == h.IsInitialized(), "hash/inconsistent", "sizes and initialization disagree");
    // Lookups answer or throw, nothing else.
    for (int k = 0; k < 10; k++)
    {
      const Cell c = RandomCellOf(rng, m);
      const Thrown t = vt::Catch([&]
      {
        const auto q = h.GetLocationImmutable4d(c.world);
        if (q) { T copy = q.Value(); (void)copy; }
      });
      vt::Count(t == Thrown::NONE ? "damaged_lookups_answered" : "damaged_lookups_refused");
    }
  });
  vt::Nontrivial(vt::HashStr(std::string(b.begin(), b.end())));
}

void HashSer(Rng& rng, uint64_t c)
{
  switch (c % 3)
  {
    case 0: HashSerialization<int32_t, std::vector<int32_t>>(rng); break;
    case 1: HashSerialization<std::string, std::vector<std::string>>(rng); break;
    default: HashSerialization<double, std::vector<double, Eigen::aligned_allocator<double>>>(rng); break;
  }
}

// An encoding that is well formed except that it holds more or fewer values than its sizes call for.
void Miscounted(Rng& rng, uint64_t)
{
  const vg::GridSizes sizes = RandomSizes(rng, 4);
  const int64_t cells = sizes.TotalCells();
  const uint32_t mark = 0x5aa5c33c;
  const auto s = ser::SerializeMemcpyable<uint32_t>;
  const auto d = ser::DeserializeMemcpyable<uint32_t>;
  const Iso origin = RandomTransform(rng);
  const bool hash = rng.Chance(0.6), filled = rng.Chance(0.7);
  using H = vg::DynamicSpatialHashedVoxelGrid<uint32_t>;
  using G = vg::VoxelGrid<uint32_t>;
  Buffer b = Prefix(rng);
  const uint64_t at = b.size();
  if (hash)
  {
    H h(origin, sizes, 7, 1);
    h.SetLocation(0.1, 0.2, 0.3, vg::DSHVGSetType::SET_CHUNK, mark);
    if (filled) { h.SetLocation(0.1, 0.2, 0.3, vg::DSHVGSetType::SET_CELL, mark); }
    H::Serialize(h, b, s);
  }
  else { G::Serialize(G(origin, sizes, mark, 7), b, s); }
  const size_t count = static_cast<size_t>(hash && !filled ? 1 : cells);
  Buffer run(8 + 4 * count);
  const uint64_t count64 = count;
  std::memcpy(&run[0], &count64, 8);
  for (size_t i = 0; i < count; i++) { std::memcpy(&run[8 + 4 * i], &mark, 4); }
  const auto found = std::search(b.begin() + static_cast<long>(at), b.end(), run.begin(), run.end());
  if (found == b.end()) { return; }  // another layout: nothing to miscount here
  for (const int64_t change : std::vector<int64_t>{-static_cast<int64_t>(count), -1, 1, 2, 8, static_cast<int64_t>(count)})
  {
    const int64_t now = static_cast<int64_t>(count) + change;
    if (now < 0 || change == 0) { continue; }
    Buffer other(8 + 4 * static_cast<size_t>(now));
    std::memcpy(&other[0], &now, 8);
    for (int64_t i = 0; i < now; i++) { std::memcpy(&other[8 + 4 * static_cast<size_t>(i)], &mark, 4); }
    Buffer hurt(b.begin(), found);
    hurt.insert(hurt.end(), other.begin(), other.end());
    hurt.insert(hurt.end(), found + static_cast<long>(run.size()), b.end());
    hurt.shrink_to_fit();
    const Thrown t = vt::Catch([&] { if (hash) { H::Deserialize(hurt, at, d); } else { G::Deserialize(hurt, at, d); } });
    VT_CHECK(t != Thrown::NONE, "voxel/miscounted", now, " values accepted for ", hash && !filled ? 1 : cells, hash ? " in a chunk" : " cells");
    vt::Count("miscounted_rejected");
  }
  vt::Nontrivial(vt::Combine(vt::Combine(static_cast<uint64_t>(cells), hash), filled));
}

void SizesSer(Rng& rng, uint64_t)
{
  const bool valid = rng.Chance(0.9);
  const vg::GridSizes s = valid ? RandomSizes(rng, 1000) : vg::GridSizes();
  Buffer b = Prefix(rng);
  const uint64_t at = b.size();
  const uint64_t w = vg::GridSizes::Serialize(s, b);
  const auto r = vg::GridSizes::Deserialize(b, at);
  VT_CHECK(w == b.size() - at && r.BytesRead() == w && r.Value() == s && r.Value().Valid() == valid && r.Value().TotalCells() == s.TotalCells() && r.Value().Stride1() == s.Stride1(),
           "sizes/round-trip", "grid sizes changed in a round trip");
  Damage(rng, b, at, w, [&](const Buffer& exact, bool)
  {
    const auto h = vg::GridSizes::Deserialize(exact, at);
    const auto& z = h.Value();
    VT_CHECK(h.BytesRead() == w, "sizes/bytes-read", "read ", h.BytesRead());
    if (z.Valid())
    {
      const auto pos = [](double v) { return std::isfinite(v) && v > 0.0; };
      const __int128 total = static_cast<__int128>(z.NumXCells()) * z.NumYCells();
      VT_CHECK(pos(z.CellXSize()) && pos(z.CellYSize()) && pos(z.CellZSize()) && z.NumXCells() > 0 && z.NumYCells() > 0 && z.NumZCells() > 0 &&
                   total <= std::numeric_limits<int64_t>::max() && total * z.NumZCells() <= std::numeric_limits<int64_t>::max() && total * z.NumZCells() == z.TotalCells(),
               "sizes/damaged", "damaged sizes are accepted as valid");
      vt::Count("damaged_sizes_valid");
    }
    else { VT_CHECK(z.TotalCells() == 0 && z.XSize() == 0.0, "sizes/damaged", "invalid sizes are not zero"); }
  });
  const vg::ChunkRegion region(rng.Real(-9, 9), rng.Real(-9, 9), rng.Real(-9, 9));
  Buffer b2 = Prefix(rng);
  const uint64_t at2 = b2.size();
  const uint64_t w2 = vg::ChunkRegion::Serialize(region, b2);
  const auto r2 = vg::ChunkRegion::Deserialize(b2, at2);
  VT_CHECK(w2 == b2.size() - at2 && r2.BytesRead() == w2 && r2.Value() == region && std::hash<vg::ChunkRegion>()(r2.Value()) == std::hash<vg::ChunkRegion>()(region),
           "region/round-trip", "chunk region changed in a round trip");
  VT_CHECK(vg::ChunkRegion(V3(region.Base().head<3>())) == region && vg::ChunkRegion(region.Base()) == region &&
               vt::Catch([&] { vg::ChunkRegion(V4(1, 2, 3, 0.5)); }) == Thrown::INVALID_ARGUMENT, "region/forms", "chunk region forms differ");
  Damage(rng, b2, at2, w2, [&](const Buffer& exact, bool) { VT_CHECK(vg::ChunkRegion::Deserialize(exact, at2).Value().Base()(3) == 1.0, "region/damaged", "region is no point"); });
  vt::Count("round_trips", 2);
  vt::Nontrivial(vt::HashStr(std::string(b.begin(), b.end())));
}
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 35
  return vt::Main(argc, argv, {{"storage", 4000, 100000, Storage}, {"concrete", 1500, 30000, Concrete},
                               {"storage_large", 40, 1200, L<Storage>}});
#elif VT_PROP == 36
  return vt::Main(argc, argv, {{"sizes", 6000, 200000, SizesRules}, {"mapping", 6000, 200000, Mapping}, {"mapping_large", 300, 8000, L<Mapping>}});
#elif VT_PROP == 37
  return vt::Main(argc, argv, {{"grid_serialize", 2500, 60000, GridSer}, {"hash_serialize", 2000, 40000, HashSer}, {"sizes_serialize", 2500, 60000, SizesSer}, {"miscounted", 300, 5000, Miscounted},
                               {"grid_serialize_large", 16, 600, L<GridSer>}, {"hash_serialize_large", 12, 300, L<HashSer>}});
#elif VT_PROP == 38
  return vt::Main(argc, argv, {{"history", 2500, 60000, HashStorage}, {"boundaries", 2500, 60000, HashBoundaries},
                               {"history_large", 40, 1200, L<HashStorage>}});
#endif
}
