// Replaces the global allocation functions to count live blocks and to fail a chosen allocation.
// Include in exactly one translation unit.
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
namespace vh { namespace fault {
inline long & liveRef() { static thread_local long n = 0; return n; }
inline long & countdownRef() { static thread_local long n = -1; return n; }
inline long & madeRef() { static thread_local long n = 0; return n; }
inline bool & onRef() { static thread_local bool b = false; return b; }
inline long live() { return liveRef(); }
// The k-th allocation (counting from 0) made from now on fails; all later ones succeed.
inline void arm(long k) { countdownRef() = k; madeRef() = 0; onRef() = true; }
inline long disarm() { onRef() = false; countdownRef() = -1; return madeRef(); }
inline void * get(std::size_t n, std::size_t align = 0) {
    if (onRef()) {
        ++madeRef();
        if (countdownRef() == 0) { countdownRef() = -1; throw std::bad_alloc(); }
        if (countdownRef() > 0) --countdownRef();
    }
    void * p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    ++liveRef();
    return p;
}
inline void put(void * p) { if (p) { --liveRef(); std::free(p); } }
}}
void * operator new(std::size_t n) { return vh::fault::get(n); }
void * operator new[](std::size_t n) { return vh::fault::get(n); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { try { return vh::fault::get(n); } catch (...) { return nullptr; } }
void * operator new[](std::size_t n, std::nothrow_t const &) noexcept { try { return vh::fault::get(n); } catch (...) { return nullptr; } }
void * operator new(std::size_t n, std::align_val_t a) { return vh::fault::get(n, static_cast<std::size_t>(a)); }
void * operator new[](std::size_t n, std::align_val_t a) { return vh::fault::get(n, static_cast<std::size_t>(a)); }
void operator delete(void * p) noexcept { vh::fault::put(p); }
void operator delete[](void * p) noexcept { vh::fault::put(p); }
void operator delete(void * p, std::size_t) noexcept { vh::fault::put(p); }
void operator delete[](void * p, std::size_t) noexcept { vh::fault::put(p); }
void operator delete(void * p, std::align_val_t) noexcept { vh::fault::put(p); }
void operator delete[](void * p, std::align_val_t) noexcept { vh::fault::put(p); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { vh::fault::put(p); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { vh::fault::put(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { vh::fault::put(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { vh::fault::put(p); }
