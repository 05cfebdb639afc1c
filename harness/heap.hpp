#pragma once
// Monitor of C25: every request for heap memory made while an evaluation runs ends the program with status 97.
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <new>
#include <unistd.h>

namespace vf
{
inline volatile bool watching = false;

[[noreturn]] inline void tell(char const* what)
{
    watching = false;
    std::size_t n = 0;
    while (what[n] != 0)
    {
        ++n;
    }
    if (::write(1, what, n) < 0)
    {}
    ::_exit(97);
}

inline void asked()
{
    if (watching)
    {
        tell("\nHEAP memory was requested\n");
    }
}

struct window
{
    window() { watching = true; }
    ~window() { watching = false; }
};
} // namespace vf

extern "C" void* __libc_malloc(std::size_t);
extern "C" void* __libc_calloc(std::size_t, std::size_t);
extern "C" void* __libc_realloc(void*, std::size_t);
extern "C" void* __libc_memalign(std::size_t, std::size_t);

extern "C" void* malloc(std::size_t n) noexcept
{
    vf::asked();
    return __libc_malloc(n);
}

extern "C" void* calloc(std::size_t a, std::size_t b) noexcept
{
    vf::asked();
    return __libc_calloc(a, b);
}

extern "C" void* realloc(void* p, std::size_t n) noexcept
{
    vf::asked();
    return __libc_realloc(p, n);
}

extern "C" void* aligned_alloc(std::size_t a, std::size_t n) noexcept
{
    vf::asked();
    return __libc_memalign(a, n);
}

extern "C" int posix_memalign(void** p, std::size_t a, std::size_t n) noexcept
{
    vf::asked();
    *p = __libc_memalign(a, n);
    return *p == nullptr;
}
