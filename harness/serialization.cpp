// P06 round trip / P07 malformed buffers for the serialization functions.
#include "alloc_watch.hpp"
#include "codecs.hpp"

using namespace vt;

namespace
{
void RoundTrip(Rng& rng, uint64_t c)
{
  Buffer buf(rng.Size(0, 5), 0xab);
  const Buffer prefix = buf;
  std::vector<Item> items;
  std::vector<uint64_t> at;
  std::vector<uint64_t> len;
  const size_t n = rng.Size(1, 6);
  uint64_t h = 0;
  for (size_t i = 0; i < n; i++)
  {
    const int kind = i == 0 ? static_cast<int>(c % kItemKinds) : static_cast<int>(rng.Int(0, kItemKinds - 1));
    items.push_back(AnyItem(rng, kind));
    const Buffer before = buf;
    const uint64_t written = items.back().serialize(buf);
    VT_CHECK(written == buf.size() - before.size(), "bytes-written-wrong", items.back().kind,
             " reported ", written, " appended ", buf.size() - before.size());
    VT_CHECK(std::equal(before.begin(), before.end(), buf.begin()), "earlier-bytes-changed",
             items.back().kind);
    VT_CHECK(written > 0, "nothing-written", items.back().kind);
    at.push_back(before.size());
    len.push_back(written);
    if (items.back().layout_ok)
    {
      VT_CHECK(items.back().layout_ok(buf, before.size()), "not-network-order", items.back().kind);
      Count("network_layouts");
    }
    h = Combine(h, HashStr(items.back().kind) + written);
  }
  // Bytes after the last item must not matter.
  for (size_t i = rng.Size(0, 4); i > 0; i--) { buf.push_back(static_cast<uint8_t>(rng.Next())); }
  std::vector<size_t> order;
  for (size_t i = 0; i < n; i++) { order.push_back(i); }
  if (rng.Chance(0.5)) { rng.Shuffle(order); }
  for (const size_t i : order)
  {
    bool equal = false;
    const uint64_t read = items[i].deserialize(buf, at[i], &equal);
    VT_CHECK(equal, "value-changed", items[i].kind, " at offset ", at[i]);
    VT_CHECK(read == len[i], "bytes-read-wrong", items[i].kind, " read ", read, " of ", len[i]);
    Count("values");
  }
  // Serializing again yields the same bytes.
  for (size_t i = 0; i < n; i++)
  {
    Buffer again;
    items[i].serialize(again);
    VT_CHECK(std::equal(again.begin(), again.end(), buf.begin() + static_cast<long>(at[i])),
             "not-deterministic", items[i].kind);
  }
  Nontrivial(h);
  Sample(Str(items[0].kind, " ... ", n, " items, ", buf.size(), " bytes"));
}

// In-place network writes: the same bytes as appending, and nothing else moves;
// a position where they do not fit is refused with the buffer untouched.
void InPlace(Rng& rng, uint64_t c)
{
  const Item it = AnyItem(rng, 7 + static_cast<int>(c % 8));
  VT_CHECK(static_cast<bool>(it.in_place), "harness", it.kind);
  Buffer plain;
  it.serialize(plain);
  Buffer buf(rng.Size(0, 24));
  for (auto& b : buf) { b = static_cast<uint8_t>(rng.Next()); }
  buf.shrink_to_fit();
  const Buffer before = buf;
  std::vector<uint64_t> places = {0, rng.Size(0, 30), buf.size(), ~uint64_t{0} - rng.Next() % 10,
                                  uint64_t{1} << 63, uint64_t{1} << rng.Int(5, 62)};
  if (buf.size() >= plain.size()) { places.push_back(buf.size() - plain.size()); }
  if (buf.size() + 1 >= plain.size()) { places.push_back(buf.size() + 1 - plain.size()); }
  for (const uint64_t at : places)
  {
    buf = before;
    const bool fits = at <= buf.size() && plain.size() <= buf.size() - at;
    uint64_t wrote = 0;
    const Thrown t = Catch([&] { wrote = it.in_place(buf, at); });
    VT_CHECK((t == Thrown::NONE) == fits, "in-place-acceptance", it.kind, " at ", at, " of ", buf.size());
    Buffer want = before;
    if (fits)
    {
      std::copy(plain.begin(), plain.end(), want.begin() + static_cast<long>(at));
      VT_CHECK(wrote == plain.size(), "in-place-size", it.kind, " reported ", wrote);
    }
    VT_CHECK(buf == want, "in-place-bytes", it.kind, " at ", at, " of ", buf.size());
    Count(fits ? "in_place_written" : "in_place_refused");
  }
  Nontrivial(Combine(HashStr(it.kind), HashStr(std::string(before.begin(), before.end()))));
}

// One item with very many elements (or a big matrix), far into a buffer.
template<void (*Fn)(Rng&, uint64_t)>
void Large(Rng& rng, uint64_t c)
{
  LengthBoost() = rng.Pick<size_t>({300, 5000, 70000});
  Fn(rng, 15 + c);
  LengthBoost() = 0;
  Count("large_cases");
}

// Every proper prefix of an encoding is rejected.
void Truncation(Rng& rng, uint64_t c)
{
  const Item it = AnyItem(rng, static_cast<int>(c % kItemKinds));
  Buffer full(rng.Size(0, 3), 0x55);
  const size_t at = full.size();
  it.serialize(full);
  const size_t step = 1 + (full.size() - at) / 64;
  for (size_t keep = 0; keep < full.size(); keep += (keep < at + 24 || keep + 24 > full.size()) ? 1 : step)
  {
    // A heap buffer of exactly the right size, so overreads are visible.
    const Buffer cut(full.begin(), full.begin() + static_cast<long>(keep));
    Buffer exact(cut);
    exact.shrink_to_fit();
    LargestAlloc() = 0;
    bool equal = false;
    const Thrown t = Catch([&] { it.deserialize(exact, at, &equal); });
    VT_CHECK(t != Thrown::NONE, "truncated-accepted", it.kind, " accepted ", keep, " of ",
             full.size(), " bytes from offset ", at);
    VT_CHECK(LargestAlloc() <= 65536 + 64 * full.size(), "allocation-out-of-proportion", it.kind,
             " allocated ", LargestAlloc().load(), " for a ", keep, " byte buffer");
    Count("truncations");
  }
  for (const uint64_t off : {full.size(), full.size() + 1, size_t{1} << 40, ~size_t{0}, ~size_t{0} - 7})
  {
    bool equal = false;
    VT_CHECK(Catch([&] { it.deserialize(full, off, &equal); }) != Thrown::NONE,
             "offset-outside-accepted", it.kind, " offset ", off);
  }
  Nontrivial(Combine(HashStr(it.kind), full.size()));
}

uint64_t HostileSize(Rng& rng)
{
  switch (rng.Int(0, 7))
  {
    case 0: return ~uint64_t{0} - static_cast<uint64_t>(rng.Int(0, 16));
    case 1: return (uint64_t{1} << 63) + static_cast<uint64_t>(rng.Int(-4, 4));
    case 2: return (uint64_t{1} << rng.Int(56, 63)) + static_cast<uint64_t>(rng.Int(0, 8));
    case 3: return (uint64_t{1} << rng.Int(29, 62)) + static_cast<uint64_t>(rng.Int(0, 3));
    case 4: return static_cast<uint64_t>(rng.Int(0, 300));
    case 5: return uint64_t{1} << rng.Int(20, 36);
    default: return rng.Next();
  }
}

// Hostile headers and random damage: rejected or decoded in bounds, with
// memory use in proportion to the buffer.
void Damage(Rng& rng, uint64_t c)
{
  // bool (kind 6) is left out: not every byte is a valid bool, and the plain
  // memcpy functions only promise anything for types where every byte is.
  const int kind = static_cast<int>(c % kItemKinds);
  const Item it = AnyItem(rng, kind == 6 ? 0 : kind);
  Buffer buf;
  it.serialize(buf);
  const std::string orig = VecStr(buf, 40);
  for (int round = 0; round < 8; round++)
  {
    Buffer b = buf;
    const bool net = it.kind.compare(0, 4, "net-") == 0;
    const int mode = static_cast<int>(rng.Int(0, 3));
    const auto put = [&](size_t pos)
    {
      if (pos + 8 <= b.size())
      {
        const uint64_t v = HostileSize(rng);
        for (size_t i = 0; i < 8; i++)
        {
          b[pos + i] = static_cast<uint8_t>(v >> (8 * (net ? 7 - i : i)));
        }
      }
    };
    if (mode == 0) { put(0); }
    else if (mode == 1) { put(0); put(8); }
    else if (mode == 2 && b.size() > 8) { put(rng.Size(0, b.size() - 8)); }
    else
    {
      for (size_t k = rng.Size(1, 3); k > 0; k--) { b[rng.Size(0, b.size() - 1)] = static_cast<uint8_t>(rng.Next()); }
    }
    if (rng.Chance(0.3)) { b.resize(rng.Size(1, b.size() + 9), 0x01); }
    b.shrink_to_fit();
    LargestAlloc() = 0;
    bool equal = false;
    uint64_t read = 0;
    const Thrown t = Catch([&] { read = it.deserialize(b, 0, &equal); });
    Count(t == Thrown::NONE ? "damaged_decoded" : "damaged_rejected");
    if (t == Thrown::NONE)
    {
      VT_CHECK(read <= b.size(), "read-past-buffer", it.kind, " claims ", read, " bytes of ", b.size());
    }
    VT_CHECK(LargestAlloc() <= 65536 + 64 * b.size(), "allocation-out-of-proportion", it.kind,
             " asked for ", LargestAlloc().load(), " bytes for a ", b.size(), " byte buffer");
    Nontrivial(Combine(HashStr(it.kind), HashStr(std::string(b.begin(), b.end()))));
  }
  Sample(Str(it.kind, " from ", orig));
}
}  // namespace

int main(int argc, char** argv)
{
#if VT_PROP == 6
  return Main(argc, argv, {{"round_trip", 4000, 80000, RoundTrip},
                           {"in_place", 600, 20000, InPlace},
                           {"round_trip_large", 66, 1500, Large<RoundTrip>}});
#else
  return Main(argc, argv, {{"truncation", 800, 12000, Truncation}, {"damage", 4000, 80000, Damage},
                           {"in_place", 300, 20000, InPlace},
                           {"truncation_large", 33, 600, Large<Truncation>},
                           {"damage_large", 66, 1500, Large<Damage>}});
#endif
}
