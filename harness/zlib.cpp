// Compression: lossless, self-contained streams; damaged input never yields
// different data silently; file variants lose nothing without saying so.
#include "common.hpp"

#include <dirent.h>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <zlib.h>

#include <common_robotics_utilities/zlib_helpers.hpp>

namespace zh = common_robotics_utilities::zlib_helpers;
using vt::Rng;
using Bytes = std::vector<uint8_t>;

namespace
{
constexpr size_t kMega = 1024 * 1024;

Bytes Data(Rng& rng, size_t n)
{
  Bytes d(n);
  const int mode = static_cast<int>(rng.Int(0, 3));
  uint64_t s = rng.Next();
  for (size_t i = 0; i < n; i++)
  {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    switch (mode)
    {
      case 0: d[i] = static_cast<uint8_t>(s >> 56); break;                   // incompressible
      case 1: d[i] = 0; break;                                             // degenerate
      case 2: d[i] = static_cast<uint8_t>((i / 7) & 0xff); break;
      default: d[i] = (s >> 60) < 12 ? 'a' : static_cast<uint8_t>(s >> 56); break;
    }
  }
  return d;
}

size_t Length(Rng& rng, uint64_t c)
{
  // Sizes around the 1 MiB internal blocks, for the raw and compressed side.
  switch (c % 8)
  {
    case 0: return rng.Size(0, 4);
    case 1: return kMega * rng.Size(1, 2) + rng.Size(0, 2) - 1;
    case 2: return kMega - rng.Size(0, 700);
    case 3: return 2 * kMega + rng.Size(0, 70000);
    default: return rng.Size(0, 3000);
  }
}

void RoundTrip(Rng& rng, uint64_t c)
{
  const size_t n = Length(rng, c);
  const Bytes in = Data(rng, n);
  const Bytes packed = zh::CompressBytes(in);
  const Bytes out = zh::DecompressBytes(packed);
  VT_CHECK(out == in, "round-trip", n, " bytes came back as ", out.size());
  VT_CHECK(zh::CompressBytes(in) == packed, "not-deterministic", n);
  // Interoperates with plain zlib, both ways.
  Bytes ref(n + 1);
  uLongf got = ref.size();
  const int rc = uncompress(ref.data(), &got, packed.data(), packed.size());
  ref.resize(rc == Z_OK ? got : 0);
  VT_CHECK(rc == Z_OK && ref == in, "not-a-zlib-stream", "zlib says ", rc, " for ", n, " bytes");
  const int level = static_cast<int>(rng.Int(0, 9));
  uLongf bound = compressBound(n);
  Bytes other(bound);
  compress2(other.data(), &bound, in.data(), n, level);
  other.resize(bound);
  VT_CHECK(zh::DecompressBytes(other) == in, "foreign-stream", "level ", level, " size ", n);
  vt::Count("bytes", n);
  if (n > kMega) { vt::Count("multi_block"); }
  if (n > 0) { vt::Nontrivial(vt::Combine(n, vt::HashStr(std::string(packed.begin(), packed.end())))); }
  vt::Sample(vt::Str(n, " -> ", packed.size(), " bytes"));
}

void Damaged(Rng& rng, uint64_t c)
{
  const size_t n = rng.Size(0, 400);
  const Bytes in = Data(rng, n);
  const Bytes packed = zh::CompressBytes(in);
  for (int round = 0; round < 40; round++)
  {
    Bytes bad = packed;
    const bool cut = rng.Chance(0.4);
    if (cut) { bad.resize(rng.Size(0, packed.size() - 1)); }
    else { bad[rng.Size(0, bad.size() - 1)] ^= static_cast<uint8_t>(1u << rng.Int(0, 7)); }
    bad.shrink_to_fit();
    Bytes out;
    const vt::Thrown t = vt::Catch([&] { out = zh::DecompressBytes(bad); });
    VT_CHECK(t == vt::Thrown::NONE || t == vt::Thrown::RUNTIME_ERROR, "wrong-exception", "");
    if (cut) { VT_CHECK(t != vt::Thrown::NONE, "truncated-accepted", bad.size(), " of ", packed.size(), " bytes"); }
    else { VT_CHECK(t != vt::Thrown::NONE || out == in, "damage-undetected", "one flipped bit gave different data"); }
    vt::Count(t == vt::Thrown::NONE ? "damage_harmless" : "damage_rejected");
    vt::Nontrivial(vt::HashStr(std::string(bad.begin(), bad.end())));
  }
  // Arbitrary bytes.
  Bytes junk = Data(rng, rng.Size(0, 60));
  if (junk.size() > 2 && c % 2 == 0) { junk[0] = 0x78; junk[1] = 0x01; }
  Bytes out;
  const vt::Thrown t = vt::Catch([&] { out = zh::DecompressBytes(junk); });
  VT_CHECK(t == vt::Thrown::NONE || t == vt::Thrown::RUNTIME_ERROR, "wrong-exception", "junk");
}

std::string Scratch()
{
  char tmpl[] = "vt_zlib_XXXXXX";  // inside the harness's own working directory
  const char* d = mkdtemp(tmpl);
  if (d == nullptr) { std::perror("mkdtemp"); std::exit(3); }
  return d;
}

void Files(Rng& rng, uint64_t c)
{
  const std::string dir = Scratch();
  const std::string path = dir + "/data.z";
  const size_t n = Length(rng, c);
  const Bytes in = Data(rng, n);
  if (rng.Chance(0.5))  // an older, longer file must be replaced entirely
  {
    std::ofstream old(path, std::ios::binary);
    const std::string junk(n + 4096, 'j');
    old << junk;
  }
  zh::CompressAndWriteToFile(in, path);
  const Bytes out = zh::LoadFromFileAndDecompress(path);
  VT_CHECK(out == in, "file-round-trip", n, " bytes came back as ", out.size());
  std::ifstream raw(path, std::ios::binary);
  const std::string disk((std::istreambuf_iterator<char>(raw)), std::istreambuf_iterator<char>());
  const Bytes packed = zh::CompressBytes(in);
  VT_CHECK(disk == std::string(packed.begin(), packed.end()), "file-contents", disk.size(), " bytes on disk");
  // Truncated file.
  {
    std::ofstream cut(path, std::ios::binary | std::ios::trunc);
    cut << disk.substr(0, rng.Size(0, disk.size() - 1));
  }
  VT_CHECK(vt::Catch([&] { zh::LoadFromFileAndDecompress(path); }) != vt::Thrown::NONE, "truncated-file-accepted", "");
  // Writes that cannot succeed are reported, never silently dropped.
  VT_CHECK(vt::Catch([&] { zh::CompressAndWriteToFile(in, dir + "/no/such/dir.z"); }) != vt::Thrown::NONE,
           "unwritable-path-silent", "write below a missing directory reported success");
  VT_CHECK(vt::Catch([&] { zh::CompressAndWriteToFile(in, dir); }) != vt::Thrown::NONE,
           "unwritable-path-silent", "write to a directory reported success");
  if (access("/dev/full", W_OK) == 0)
  {
    VT_CHECK(vt::Catch([&] { zh::CompressAndWriteToFile(in, "/dev/full"); }) != vt::Thrown::NONE,
             "full-device-silent", "write to a full device reported success");
    vt::Count("full_device");
  }
  VT_CHECK(vt::Catch([&] { zh::LoadFromFileAndDecompress(dir + "/missing"); }) == vt::Thrown::RUNTIME_ERROR,
           "missing-file", "");
  unlink(path.c_str());
  rmdir(dir.c_str());
  vt::Count("files");
  vt::Nontrivial(vt::Combine(n, packed.size()));
}

// A file-size limit stops the write at some byte: the caller must be told.
void ShortWrites(Rng& rng, uint64_t)
{
  const std::string dir = Scratch();
  const std::string path = dir + "/data.z";
  Bytes in = Data(rng, rng.Size(200000, 400000));
  for (size_t i = 0; i < in.size(); i += 2) { in[i] = static_cast<uint8_t>(rng.Next()); }
  const size_t full = zh::CompressBytes(in).size();
  const rlim_t limit = rng.Size(1, full - 1);
  struct rlimit before;
  getrlimit(RLIMIT_FSIZE, &before);
  signal(SIGXFSZ, SIG_IGN);
  struct rlimit small = before;
  small.rlim_cur = limit;
  setrlimit(RLIMIT_FSIZE, &small);
  const vt::Thrown t = vt::Catch([&] { zh::CompressAndWriteToFile(in, path); });
  setrlimit(RLIMIT_FSIZE, &before);
  Bytes out;
  const vt::Thrown back = vt::Catch([&] { out = zh::LoadFromFileAndDecompress(path); });
  unlink(path.c_str());
  rmdir(dir.c_str());
  VT_CHECK(t != vt::Thrown::NONE || (back == vt::Thrown::NONE && out == in), "short-write-silent",
           "write stopped after ", limit, " of ", full, " bytes and reported success");
  vt::Count("short_writes");
  vt::Nontrivial(vt::Combine(full, limit));
}
}  // namespace

int main(int argc, char** argv)
{
  return vt::Main(argc, argv, {{"round_trip", 160, 1600, RoundTrip},
                               {"damaged", 120, 3000, Damaged},
                               {"files", 48, 480, Files},
                               {"short_writes", 24, 240, ShortWrites}});
}
