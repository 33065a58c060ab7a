// libFuzzer entry point for the text utilities: stay inside the string, end, cover it exactly.
#include "arg_router/arg_router.hpp"
#include "arg_router/utility/utf8.hpp"
#include "arg_router/utility/utf8/levenshtein_distance.hpp"

#include <cstdlib>
#include <cstring>
#include <memory>

namespace u8 = arg_router::utility::utf8;

static volatile std::size_t sink;

struct Buf {
    Buf(const unsigned char* d, std::size_t s) : n{s}, p{new char[s ? s : 1]} { std::memcpy(p.get(), d, s); }
    std::string_view view() const { return {n ? p.get() : p.get() + 1, n}; }
    std::size_t n;
    std::unique_ptr<char[]> p;
};

template <typename It>
static void walk(It it, std::string_view v, bool tiles)
{
    std::size_t steps = 0, off = 0;
    for (; it != It{}; ++it) {
        const auto s = *it;
        if (++steps > v.size() + 2 || s.data() < v.data() || s.data() + s.size() > v.data() + v.size() ||
            (tiles && (s.data() != v.data() + off || s.empty()))) {
            std::abort();
        }
        off += s.size();
        sink = sink + (s.empty() ? 0 : s.front() + s.back());
    }
    if (tiles && off != v.size()) {
        std::abort();
    }
}

extern "C" int LLVMFuzzerTestOneInput(const unsigned char* data, std::size_t size)
{
    if (size < 2 || size > 2000) {
        return 0;
    }
    const Buf b{data + 2, size - 2};
    const auto v = b.view();
    walk(u8::code_point::iterator{v}, v, true);
    walk(u8::iterator{v}, v, true);
    for (auto cp : u8::code_point::iterator::range(v)) {
        const auto d = u8::code_point::decode(cp);
        sink = sink + (d ? *d : 0);
        sink = sink + u8::code_point::size(cp);
    }
    sink = sink + u8::count(v) + u8::code_point::count(v) + u8::terminal_width(v) + u8::is_whitespace(v) +
           u8::contains_whitespace(v);
    const std::size_t width = data[0] & 0x7F;
    walk(u8::line_iterator{v, width ? width : 1}, v, false);
    const std::size_t cut = v.empty() ? 0 : data[1] % (v.size() + 1);
    const Buf x{data + 2, cut}, y{data + 2 + cut, v.size() - cut};
    if (v.size() <= 200) {
        const auto d1 = u8::levenshtein_distance(x.view(), y.view());
        if (d1 != u8::levenshtein_distance(y.view(), x.view()) || u8::levenshtein_distance(v, v) != 0) {
            std::abort();
        }
        sink = sink + d1;
    }
    return 0;
}
