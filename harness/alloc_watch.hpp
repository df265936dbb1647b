// Replaces the global allocation functions: tracks the largest single request
// and refuses absurd ones with std::bad_alloc instead of letting the sanitizer
// abort, so "bounded allocation" can be judged by the harness.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdlib>
#include <new>

namespace vt
{
inline std::atomic<size_t>& LargestAlloc()
{
  static std::atomic<size_t> v{0};
  return v;
}
constexpr size_t kRefuseAbove = size_t{1} << 28;
}  // namespace vt

static void* VtAlloc(size_t n, size_t align)
{
  size_t seen = vt::LargestAlloc().load(std::memory_order_relaxed);
  while (n > seen && !vt::LargestAlloc().compare_exchange_weak(seen, n)) {}
  if (n > vt::kRefuseAbove) { throw std::bad_alloc(); }
  void* p = nullptr;
  if (align <= alignof(std::max_align_t)) { p = std::malloc(n == 0 ? 1 : n); }
  else if (posix_memalign(&p, align, n == 0 ? 1 : n) != 0) { p = nullptr; }
  if (p == nullptr) { throw std::bad_alloc(); }
  return p;
}
void* operator new(size_t n) { return VtAlloc(n, 1); }
void* operator new[](size_t n) { return VtAlloc(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return VtAlloc(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return VtAlloc(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }
