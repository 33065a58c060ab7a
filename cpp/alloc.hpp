// A stateless allocator for the AR_ALLOCATOR configuration: every block is marked, so memory that did
// not come from here, or is freed with another size or element type's count, is noticed.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <new>

template <typename T>
struct rt_alloc {
    using value_type = T;
    rt_alloc() noexcept = default;
    template <typename U>
    rt_alloc(const rt_alloc<U>&) noexcept
    {
    }
    T* allocate(std::size_t n)
    {
        auto* p = static_cast<unsigned char*>(std::malloc(n * sizeof(T) + 32));
        if (!p) {
            throw std::bad_alloc{};
        }
        *reinterpret_cast<std::size_t*>(p) = 0xA110CA7EDu;
        *reinterpret_cast<std::size_t*>(p + 8) = n * sizeof(T);
        return reinterpret_cast<T*>(p + 32);
    }
    void deallocate(T* q, std::size_t n) noexcept
    {
        auto* p = reinterpret_cast<unsigned char*>(q) - 32;
        if (*reinterpret_cast<std::size_t*>(p) != 0xA110CA7EDu || *reinterpret_cast<std::size_t*>(p + 8) != n * sizeof(T)) {
            std::fputs("foreign memory freed through the allocator\n", stderr);
            std::abort();
        }
        *reinterpret_cast<std::size_t*>(p) = 0;
        std::free(p);
    }
    template <typename U>
    friend bool operator==(const rt_alloc&, const rt_alloc<U>&) noexcept
    {
        return true;
    }
    template <typename U>
    friend bool operator!=(const rt_alloc&, const rt_alloc<U>&) noexcept
    {
        return false;
    }
};
