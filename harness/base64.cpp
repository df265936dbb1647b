// Base64: round trip, RFC 4648 form, and memory safety on arbitrary strings.
#include "common.hpp"

#include <common_robotics_utilities/base64_helpers.hpp>

namespace b64 = common_robotics_utilities::base64_helpers;
using vt::Rng;

namespace
{
std::string Reference(const std::vector<uint8_t>& in)
{
  static const char* kAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string out;
  uint32_t acc = 0;
  int bits = 0;
  for (const uint8_t b : in)
  {
    acc = (acc << 8) | b;
    bits += 8;
    while (bits >= 6)
    {
      bits -= 6;
      out += kAlphabet[(acc >> bits) & 63];
    }
    acc &= 0xffff;
  }
  if (bits > 0) { out += kAlphabet[(acc << (6 - bits)) & 63]; }
  while (out.size() % 4 != 0) { out += '='; }
  return out;
}

bool g_large = false;
void RoundTrip(Rng& rng, uint64_t c)
{
  // Large: around every power of two up to a mebibyte, and anything below.
  std::vector<uint8_t> in(
      g_large ? (c % 2 == 0 ? (size_t{1} << rng.Int(10, 20)) + rng.Size(0, 8) - 4 : rng.Size(5000, 400000))
              : c < 40 ? c : rng.Size(0, rng.Chance(0.05) ? 5000 : 70));
  const int mode = static_cast<int>(rng.Int(0, 3));
  for (auto& b : in)
  {
    b = mode == 0 ? 0 : (mode == 1 ? 0xff : static_cast<uint8_t>(rng.Next()));
  }
  const auto original = in;
  const std::string enc = b64::Encode(in);
  VT_CHECK(in == original, "input-changed", "");
  VT_CHECK(enc == Reference(in), "not-rfc4648", "for ", in.size(), " bytes: ", enc.substr(0, 80));
  const auto dec = b64::Decode(enc);
  VT_CHECK(dec == in, "round-trip", in.size(), " bytes came back as ", dec.size(), " bytes of ",
           enc.substr(0, 80));
  vt::Count("bytes", in.size());
  if (!in.empty()) { vt::Nontrivial(vt::HashStr(enc)); }
  vt::Sample(enc.substr(0, 60));
}

void LargeRoundTrip(Rng& rng, uint64_t c)
{
  g_large = true;
  RoundTrip(rng, c);
  g_large = false;
  vt::Count("large_cases");
}

// All single, and many double and triple, byte inputs: each block case fully.
void Blocks(Rng& rng, uint64_t c)
{
  for (int b = 0; b < 256; b++)
  {
    std::vector<uint8_t> in;
    for (uint64_t k = 0; k < c % 6; k++) { in.push_back(static_cast<uint8_t>(rng.Next())); }
    in.push_back(static_cast<uint8_t>(b));
    if (c >= 6) { in.push_back(static_cast<uint8_t>(rng.Next())); }
    const std::string enc = b64::Encode(in);
    VT_CHECK(enc == Reference(in) && b64::Decode(enc) == in, "block", "length ", in.size(), " byte ", b);
    vt::Nontrivial(vt::HashStr(enc));
  }
}

void Arbitrary(Rng& rng, uint64_t c)
{
  std::string s(rng.Size(0, 40), 'A');
  for (auto& ch : s)
  {
    ch = c % 2 == 0 ? static_cast<char>(rng.Next())
                    : static_cast<char>(rng.Chance(0.2) ? '=' : (rng.Chance(0.2) ? rng.Next() : 'A' + rng.Int(0, 25)));
  }
  const auto any_char = [&]
  {
    return rng.Pick(std::vector<char>{'\n', '\r', ' ', '\t', '=', '-', '_', '\0', 'A', '/', '+', '9', '\x7f', '\x80', '\xff'});
  };
  if (c % 4 == 0)
  {
    // Runs of one or two characters, alone and around an encoding.
    std::vector<uint8_t> bytes(rng.Size(0, 40));
    for (auto& b : bytes) { b = static_cast<uint8_t>(rng.Next()); }
    s = rng.Chance(0.3) ? std::string() : b64::Encode(bytes);
    for (int64_t runs = rng.Int(1, 2); runs > 0; runs--)
    {
      const std::string run(rng.Size(1, 70), any_char());
      if (rng.Chance(0.3)) { s = run + s; }
      else { s += run; }
    }
    vt::Count("runs_of_one_character");
  }
  else if (c % 4 == 2)
  {
    // An encoding broken into lines, in the manner of MIME.
    std::vector<uint8_t> bytes(rng.Size(0, 120));
    for (auto& b : bytes) { b = static_cast<uint8_t>(rng.Next()); }
    const std::string enc = b64::Encode(bytes);
    const size_t width = rng.Size(1, 76);
    const std::string end = rng.Chance(0.5) ? "\n" : "\r\n";
    s.clear();
    for (size_t at = 0; at < enc.size(); at += width) { s += enc.substr(at, width) + end; }
  }
  s.shrink_to_fit();
  std::vector<uint8_t> out;
  const vt::Thrown t = vt::Catch([&] { out = b64::Decode(s); });
  if (t == vt::Thrown::NONE)
  {
    VT_CHECK(out.size() <= s.size(), "decoded-longer-than-input", out.size(), " from ", s.size());
  }
  vt::Count("arbitrary_strings");
  vt::Nontrivial(vt::HashStr(s));
}
}  // namespace

int main(int argc, char** argv)
{
  return vt::Main(argc, argv, {{"round_trip", 4000, 100000, RoundTrip},
                               {"large", 40, 800, LargeRoundTrip},
                               {"blocks", 12, 240, Blocks},
                               {"arbitrary", 6000, 200000, Arbitrary}});
}
