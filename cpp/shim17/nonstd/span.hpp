// The part of nonstd::span the library uses, for C++17 compilation in this sandbox (span-lite is not installed here)
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace nonstd { namespace span_lite {
constexpr std::size_t dynamic_extent = static_cast<std::size_t>(-1);
template <typename T, std::size_t Extent = dynamic_extent>
class span
{
public:
    using element_type = T;
    using value_type = std::remove_cv_t<T>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    using iterator = T*;
    using reverse_iterator = std::reverse_iterator<iterator>;

    constexpr span() noexcept : p_{nullptr}, n_{0} {}
    constexpr span(T* p, size_type n) : p_{p}, n_{n} {}
    constexpr span(T* b, T* e) : p_{b}, n_{static_cast<size_type>(e - b)} {}
    template <std::size_t N>
    constexpr span(T (&a)[N]) noexcept : p_{a}, n_{N} {}
    template <typename C, typename = std::enable_if_t<std::is_convertible_v<decltype(std::data(std::declval<C&>())), T*> &&
                                                      !std::is_array_v<C>>>
    constexpr span(C& c) : p_{std::data(c)}, n_{std::size(c)} {}
    template <typename C, typename = std::enable_if_t<std::is_convertible_v<decltype(std::data(std::declval<const C&>())), T*> &&
                                                      !std::is_array_v<C>>, typename = void>
    constexpr span(const C& c) : p_{std::data(c)}, n_{std::size(c)} {}

    constexpr iterator begin() const { return p_; }
    constexpr iterator end() const { return p_ + n_; }
    constexpr reverse_iterator rbegin() const { return reverse_iterator{end()}; }
    constexpr reverse_iterator rend() const { return reverse_iterator{begin()}; }
    constexpr size_type size() const { return n_; }
    constexpr bool empty() const { return n_ == 0; }
    constexpr T* data() const { return p_; }
    constexpr T& operator[](size_type i) const { assert(i < n_); return p_[i]; }
    constexpr T& front() const { assert(n_); return p_[0]; }
    constexpr T& back() const { assert(n_); return p_[n_ - 1]; }
    constexpr span<T> subspan(size_type o, size_type c = dynamic_extent) const
    {
        assert(o <= n_);
        return {p_ + o, c == dynamic_extent ? n_ - o : c};
    }
    constexpr span<T> first(size_type c) const { assert(c <= n_); return {p_, c}; }
    constexpr span<T> last(size_type c) const { assert(c <= n_); return {p_ + (n_ - c), c}; }

private:
    T* p_;
    size_type n_;
};
template <typename T, std::size_t N> span(T (&)[N]) -> span<T>;
template <typename C> span(C&) -> span<std::remove_pointer_t<decltype(std::data(std::declval<C&>()))>>;
template <typename C> span(const C&) -> span<std::remove_pointer_t<decltype(std::data(std::declval<const C&>()))>>;
}
using span_lite::span;
}
