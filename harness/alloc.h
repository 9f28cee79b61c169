// With the address sanitizer a failing operator new ends the process instead of throwing std::bad_alloc.
// These replacements throw for sizes that only a corrupted file asks for, like a machine without that much
// memory does, and leave everything else to the sanitizer's malloc.
#pragma once
#if defined (__SANITIZE_ADDRESS__) || defined (MC_LIMIT_ALLOC)
#ifndef MC_LIMIT_ALLOC
#define MC_LIMIT_ALLOC (std::size_t (1) << 30)
#endif
#include <cstdlib>
#include <new>
#ifdef __SANITIZE_ADDRESS__
#include <malloc.h>
#include <sanitizer/asan_interface.h>
#endif
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
// The sanitizer gives large blocks back to the system at once, which makes a reader with a buffer of a
// megabyte slow. A few of them are kept, poisoned, for the next request of exactly the same size.
#ifdef __SANITIZE_ADDRESS__
enum { MC_KEPT = 6 };
static thread_local struct { void *p; std::size_t n; } mc_kept[MC_KEPT];
#endif
static void *mc_alloc (std::size_t n)
{
    if (n > MC_LIMIT_ALLOC) throw std::bad_alloc ();
#ifdef __SANITIZE_ADDRESS__
    if (n >= 200000)
        for (auto &k : mc_kept)
            if (k.p && k.n == n)
            {
                void *p = k.p;
                k.p = nullptr;
                __asan_unpoison_memory_region (p, n);
                return p;
            }
#endif
    void *p = std::malloc (n ? n : 1);
    if (!p) throw std::bad_alloc ();
    return p;
}
static void mc_free (void *p) noexcept
{
#ifdef __SANITIZE_ADDRESS__
    if (p)
    {
        if (__asan_address_is_poisoned (p)) (void) *(volatile char *) p; // freed before: the sanitizer reports it

        const std::size_t n = malloc_usable_size (p);
        if (n >= 200000 && n <= (std::size_t (4) << 20))
            for (auto &k : mc_kept)
                if (!k.p)
                {
                    k.p = p; k.n = n;
                    __asan_poison_memory_region (p, n);
                    return;
                }
    }
#endif
    std::free (p);
}
__attribute__ ((noinline)) void *operator new (std::size_t n) { return mc_alloc (n); }
__attribute__ ((noinline)) void *operator new[] (std::size_t n) { return mc_alloc (n); }
__attribute__ ((noinline)) void *operator new (std::size_t n, const std::nothrow_t &) noexcept { try { return mc_alloc (n); } catch (...) { return nullptr; } }
__attribute__ ((noinline)) void *operator new[] (std::size_t n, const std::nothrow_t &) noexcept { try { return mc_alloc (n); } catch (...) { return nullptr; } }
__attribute__ ((noinline)) void operator delete (void *p, const std::nothrow_t &) noexcept { mc_free (p); }
__attribute__ ((noinline)) void operator delete[] (void *p, const std::nothrow_t &) noexcept { mc_free (p); }
__attribute__ ((noinline)) void operator delete (void *p) noexcept { mc_free (p); }
__attribute__ ((noinline)) void operator delete[] (void *p) noexcept { mc_free (p); }
__attribute__ ((noinline)) void operator delete (void *p, std::size_t) noexcept { mc_free (p); }
__attribute__ ((noinline)) void operator delete[] (void *p, std::size_t) noexcept { mc_free (p); }
#pragma GCC diagnostic pop
#endif
