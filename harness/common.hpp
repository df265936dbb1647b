// Shared runtime for every monitor harness in /verif/harness.
//
// A harness registers scenarios; each scenario is a function run on numbered
// cases.  Every case derives all of its randomness from (VERIF_SEED, scenario,
// case number), so "scenario:case" replays it.  Violations are recorded with a
// stable key; the runner (check.py) turns them into verdicts.
#pragma once

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vt
{
inline uint64_t Mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

inline uint64_t HashStr(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (const char c : s)
  {
    h = (h ^ static_cast<uint8_t>(c)) * 1099511628211ull;
  }
  return Mix(h);
}

inline uint64_t Combine(uint64_t a, uint64_t b) { return Mix(a * 31 + b + 7); }

// Independent of the generators under test.
class Rng
{
public:
  using result_type = uint64_t;

  explicit Rng(uint64_t seed = 1) : s_(seed) {}

  uint64_t Next()
  {
    s_ += 0x9e3779b97f4a7c15ull;
    uint64_t x = s_;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  uint64_t operator()() { return Next(); }
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return std::numeric_limits<uint64_t>::max(); }
  // Inclusive range.
  int64_t Int(int64_t lo, int64_t hi)
  {
    const uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
    if (span == std::numeric_limits<uint64_t>::max())
    {
      return static_cast<int64_t>(Next());
    }
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + Next() % (span + 1));
  }
  size_t Size(size_t lo, size_t hi)
  {
    return static_cast<size_t>(Int(static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
  }
  double Unit() { return static_cast<double>(Next() >> 11) * 0x1.0p-53; }
  double Real(double lo, double hi) { return lo + (hi - lo) * Unit(); }
  bool Chance(double p) { return Unit() < p; }
  template<typename T>
  const T& Pick(const std::vector<T>& v)
  {
    return v.at(Size(0, v.size() - 1));
  }
  template<typename T>
  void Shuffle(std::vector<T>& v)
  {
    for (size_t i = v.size(); i > 1; i--)
    {
      std::swap(v[i - 1], v[Size(0, i - 1)]);
    }
  }
  // Doubles drawn from a mix of scales, including exact special points.
  double Wild(double scale = 1e6)
  {
    switch (Int(0, 7))
    {
      case 0: return 0.0;
      case 1: return static_cast<double>(Int(-4, 4));
      case 2: return Real(-1.0, 1.0);
      case 3: return Real(-scale, scale);
      case 4: return Real(-1e-9, 1e-9);
      case 5: return static_cast<double>(Int(-64, 64)) * 0.25;
      default: return Real(-16.0, 16.0);
    }
  }

private:
  uint64_t s_;
};

// Set by --small: large cases run at the usual size (for slow instrumentation).
inline bool& SmallOnly()
{
  static bool v = false;
  return v;
}
// Set while a scenario runs on sizes past any likely threshold in the code.
inline bool& Large()
{
  static bool large = false;
  return large;
}

struct CaseFailed : public std::exception
{
  const char* what() const noexcept override { return "case failed"; }
};

inline std::string Quote(const std::string& s)
{
  std::string out = "\"";
  for (const char c : s)
  {
    const auto u = static_cast<unsigned char>(c);
    if (c == '"' || c == '\\')
    {
      out += '\\';
      out += c;
    }
    else if (c == '\n')
    {
      out += "\\n";
    }
    else if (u < 0x20 || u >= 0x7f)
    {
      char buf[8];
      std::snprintf(buf, sizeof(buf), "\\u%04x", u);
      out += buf;
    }
    else
    {
      out += c;
    }
  }
  return out + "\"";
}

template<typename... Args>
std::string Str(const Args&... args)
{
  std::ostringstream s;
  s.precision(17);
  ((s << args), ...);
  return s.str();
}

template<typename Vec>
std::string VecStr(const Vec& v, size_t limit = 24)
{
  std::ostringstream s;
  s.precision(17);
  s << "[";
  size_t n = 0;
  for (const auto& x : v)
  {
    if (n == limit)
    {
      s << " ...";
      break;
    }
    s << (n ? " " : "") << x;
    n++;
  }
  s << "]";
  return s.str();
}

class Recorder
{
public:
  static Recorder& Get()
  {
    static Recorder r;
    return r;
  }

  void Violation(const std::string& key, const std::string& detail)
  {
    std::lock_guard<std::mutex> lock(m_);
    case_violated_ = true;
    total_violations_++;
    if (++per_key_[key] <= 3)
    {
      std::printf(
          "@V {\"key\": %s, \"scenario\": %s, \"case\": %llu, \"detail\": %s}\n",
          Quote(key).c_str(), Quote(scenario_).c_str(),
          static_cast<unsigned long long>(case_), Quote(detail.substr(0, 1500)).c_str());
      std::fflush(stdout);
    }
  }

  void BeginCase(const std::string& scenario, uint64_t c)
  {
    std::lock_guard<std::mutex> lock(m_);
    scenario_ = scenario;
    case_ = c;
    case_violated_ = false;
    evaluations_[scenario]++;
    if (progress_ != nullptr)
    {
      char buf[256];
      std::memset(buf, 0, sizeof(buf));
      std::snprintf(buf, sizeof(buf), "%s %llu", scenario.c_str(),
                    static_cast<unsigned long long>(c));
      std::memcpy(progress_, buf, sizeof(buf));
    }
  }

  bool CaseViolated()
  {
    std::lock_guard<std::mutex> lock(m_);
    return case_violated_;
  }

  void Nontrivial(uint64_t h)
  {
    std::lock_guard<std::mutex> lock(m_);
    if (hashes_[scenario_].size() < 400000)
    {
      hashes_[scenario_].insert(h);
    }
    auto& v = samples_[scenario_];
    if (v.empty())
    {
      v.push_back(Str("case ", case_, ", state ", h));
    }
  }

  void Count(const std::string& name, uint64_t n)
  {
    std::lock_guard<std::mutex> lock(m_);
    counters_[name] += n;
  }

  void MaxOf(const std::string& name, uint64_t n)
  {
    std::lock_guard<std::mutex> lock(m_);
    uint64_t& v = maxima_[name];
    v = std::max(v, n);
  }

  void Sample(const std::string& s)
  {
    std::lock_guard<std::mutex> lock(m_);
    auto& v = samples_[scenario_];
    if (v.size() < 2)
    {
      v.push_back(s.substr(0, 400));
    }
  }

  void OpenProgress(const char* path)
  {
    const int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0)
    {
      void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED)
      {
        progress_ = static_cast<char*>(p);
      }
    }
    if (fd >= 0)
    {
      close(fd);
    }
  }

  void Emit()
  {
    std::lock_guard<std::mutex> lock(m_);
    for (const auto& kv : evaluations_)
    {
      std::printf("@E %s %llu\n", kv.first.c_str(),
                  static_cast<unsigned long long>(kv.second));
    }
    for (const auto& kv : counters_)
    {
      std::printf("@C %s %llu\n", kv.first.c_str(),
                  static_cast<unsigned long long>(kv.second));
    }
    for (const auto& kv : maxima_)
    {
      std::printf("@M %s %llu\n", kv.first.c_str(),
                  static_cast<unsigned long long>(kv.second));
    }
    for (const auto& kv : samples_)
    {
      for (const auto& s : kv.second)
      {
        std::printf("@S %s %s\n", kv.first.c_str(), Quote(s).c_str());
      }
    }
    for (const auto& kv : hashes_)
    {
      for (const uint64_t h : kv.second)
      {
        std::printf("@H %s %llx\n", kv.first.c_str(), static_cast<unsigned long long>(h));
      }
    }
    std::printf("@DONE %llu\n", static_cast<unsigned long long>(total_violations_));
    std::fflush(stdout);
  }

private:
  std::mutex m_;
  std::string scenario_;
  uint64_t case_ = 0;
  bool case_violated_ = false;
  uint64_t total_violations_ = 0;
  char* progress_ = nullptr;
  std::map<std::string, int> per_key_;
  std::map<std::string, uint64_t> evaluations_;
  std::map<std::string, uint64_t> counters_;
  std::map<std::string, uint64_t> maxima_;
  std::map<std::string, std::vector<std::string>> samples_;
  std::map<std::string, std::unordered_set<uint64_t>> hashes_;
};

// Record a violation and keep going (safe from any thread and from callbacks).
inline void Record(const std::string& key, const std::string& detail)
{
  Recorder::Get().Violation(key, detail);
}

// Record a violation and leave the case (main thread of the case only).
[[noreturn]] inline void Fail(const std::string& key, const std::string& detail)
{
  Recorder::Get().Violation(key, detail);
  throw CaseFailed();
}

#define VT_CHECK(cond, key, ...)              \
  do                                          \
  {                                           \
    if (!(cond))                              \
    {                                         \
      ::vt::Fail((key), ::vt::Str(__VA_ARGS__)); \
    }                                         \
  } while (false)

#define VT_EXPECT(cond, key, ...)             \
  do                                          \
  {                                           \
    if (!(cond))                              \
    {                                         \
      ::vt::Record((key), ::vt::Str(__VA_ARGS__)); \
    }                                         \
  } while (false)

inline void Count(const std::string& name, uint64_t n = 1) { Recorder::Get().Count(name, n); }
inline void MaxOf(const std::string& name, uint64_t n) { Recorder::Get().MaxOf(name, n); }
inline void Nontrivial(uint64_t h) { Recorder::Get().Nontrivial(h); }
inline void Sample(const std::string& s) { Recorder::Get().Sample(s); }

// Runs fn and reports which exception (if any) left it.
enum class Thrown { NONE, INVALID_ARGUMENT, RUNTIME_ERROR, OUT_OF_RANGE, LOGIC, BAD_ALLOC, OTHER };

inline std::string& LastWhat()
{
  static thread_local std::string w;
  return w;
}

template<typename Fn>
Thrown Catch(Fn&& fn)
{
  LastWhat().clear();
  try
  {
    fn();
    return Thrown::NONE;
  }
  catch (const CaseFailed&)
  {
    throw;
  }
  catch (const std::invalid_argument& e)
  {
    LastWhat() = e.what();
    return Thrown::INVALID_ARGUMENT;
  }
  catch (const std::out_of_range& e)
  {
    LastWhat() = e.what();
    return Thrown::OUT_OF_RANGE;
  }
  catch (const std::runtime_error& e)
  {
    LastWhat() = e.what();
    return Thrown::RUNTIME_ERROR;
  }
  catch (const std::logic_error& e)
  {
    LastWhat() = e.what();
    return Thrown::LOGIC;
  }
  catch (const std::bad_alloc& e)
  {
    LastWhat() = e.what();
    return Thrown::BAD_ALLOC;
  }
  catch (const std::exception& e)
  {
    LastWhat() = e.what();
    return Thrown::OTHER;
  }
  catch (...)
  {
    LastWhat() = "non-std exception";
    return Thrown::OTHER;
  }
}

struct Scenario
{
  std::string name;
  uint64_t quick;
  uint64_t thorough;
  std::function<void(Rng&, uint64_t)> fn;
};

inline bool& ThoroughFlag()
{
  static bool t = false;
  return t;
}

inline int Main(int argc, char** argv, const std::vector<Scenario>& scenarios)
{
  uint64_t seed = 1;
  bool thorough = false;
  uint64_t shard = 0;
  uint64_t shards = 1;
  double scale = 1.0;
  double budget = 0.0;  // seconds, shared evenly by the scenarios; 0: no limit
  std::string only;
  int64_t only_case = -1;
  std::string resume_scenario;
  uint64_t resume_case = 0;
  for (int i = 1; i < argc; i++)
  {
    const std::string a = argv[i];
    const auto val = [&]() -> std::string
    {
      if (i + 1 >= argc)
      {
        std::fprintf(stderr, "missing value for %s\n", a.c_str());
        std::exit(3);
      }
      return argv[++i];
    };
    if (a == "--seed") { seed = std::strtoull(val().c_str(), nullptr, 10); }
    else if (a == "--tier") { thorough = (val() == "thorough"); }
    else if (a == "--shard") { shard = std::strtoull(val().c_str(), nullptr, 10); }
    else if (a == "--shards") { shards = std::strtoull(val().c_str(), nullptr, 10); }
    else if (a == "--small") { SmallOnly() = true; }
    else if (a == "--budget") { budget = std::atof(val().c_str()); }
    else if (a == "--scale") { scale = std::atof(val().c_str()); }
    else if (a == "--only") { only = val(); }
    else if (a == "--case") { only_case = std::atoll(val().c_str()); }
    else if (a == "--resume-scenario") { resume_scenario = val(); }
    else if (a == "--resume-case") { resume_case = std::strtoull(val().c_str(), nullptr, 10); }
    else if (a == "--progress") { Recorder::Get().OpenProgress(val().c_str()); }
    else
    {
      std::fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  ThoroughFlag() = thorough;
  bool skipping = !resume_scenario.empty();
  for (const auto& sc : scenarios)
  {
    uint64_t first = 0;
    if (skipping)
    {
      if (sc.name != resume_scenario)
      {
        continue;
      }
      skipping = false;
      first = resume_case + 1;
    }
    if (!only.empty() && sc.name != only)
    {
      continue;
    }
    uint64_t n = thorough ? sc.thorough : sc.quick;
    n = std::max<uint64_t>(1, static_cast<uint64_t>(static_cast<double>(n) * scale));
    const auto begun = std::chrono::steady_clock::now();
    for (uint64_t c = first; c < n; c++)
    {
      if (budget > 0.0 && only_case < 0 &&
          std::chrono::duration<double>(std::chrono::steady_clock::now() - begun).count() * 
              static_cast<double>(scenarios.size()) > budget)
      {
        break;
      }
      if (only_case >= 0)
      {
        c = static_cast<uint64_t>(only_case);
      }
      else if (c % shards != shard)
      {
        continue;
      }
      Recorder::Get().BeginCase(sc.name, c);
      Rng rng(Combine(Combine(seed, HashStr(sc.name)), c));
      try
      {
        sc.fn(rng, c);
      }
      catch (const CaseFailed&)
      {
      }
      catch (const std::exception& e)
      {
        Record("unexpected-exception/" + sc.name, e.what());
      }
      catch (...)
      {
        Record("unexpected-exception/" + sc.name, "non-std exception");
      }
      if (only_case >= 0)
      {
        break;
      }
    }
  }
  Recorder::Get().Emit();
  return 0;
}
// The same scenario with Large() set.
template<void (*Fn)(Rng&, uint64_t)>
void LargeCase(Rng& rng, uint64_t c)
{
  Large() = !SmallOnly();
  struct Off
  {
    ~Off() { Large() = false; }
  } off;
  Fn(rng, c);
  if (!SmallOnly()) { Count("large_cases"); }
}
}  // namespace vt
