// Run-time glue shared by every generated tree: observes router calls and exposes the tree through
// a virtual interface to the server loop.
#pragma once
#include "arg_router/arg_router.hpp"

#include <cstdio>
#include <deque>
#include <filesystem>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace ar = arg_router;
namespace arp = ar::policy;
namespace ard = ar::dependency;
using namespace ar::literals;

struct Pt {
    int x = 0;
    int y = 0;
};
enum class Col : int { red, green, blue };
struct custom_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

namespace rt
{
#ifdef RT_MT
inline thread_local std::string log;
#else
inline std::string log;
#endif
inline std::string lang;   // for multi-language trees

// What the next router call throws, 0: nothing
#ifdef RT_MT
inline thread_local int bomb = 0;
#else
inline int bomb = 0;
#endif
struct Boom {
    int id;
};
struct Boom2 : std::runtime_error {
    int id;
    explicit Boom2(int i) : std::runtime_error{"boom"}, id{i} {}
};
struct Boom3 : Boom2 {
    using Boom2::Boom2;
};

inline std::string hex(std::string_view s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    r.reserve(s.size() * 2);
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}
template <typename T>
std::string ser(const T& v);
template <typename T>
struct is_opt : std::false_type {};
template <typename T>
struct is_opt<std::optional<T>> : std::true_type {};
template <typename T>
struct is_var : std::false_type {};
template <typename... T>
struct is_var<std::variant<T...>> : std::true_type {};

template <typename T>
std::string ser(const T& v)
{
    if constexpr (std::is_same_v<T, bool>) {
        return v ? "true" : "false";
    } else if constexpr (std::is_floating_point_v<T>) {
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", double(v));
        return b;
    } else if constexpr (std::is_enum_v<T>) {
        return std::to_string(int(v));
    } else if constexpr (std::is_integral_v<T>) {
        return std::to_string(v);
    } else if constexpr (std::is_same_v<T, Pt>) {
        return "p" + std::to_string(v.x) + ";" + std::to_string(v.y);
    } else if constexpr (std::is_same_v<T, std::filesystem::path>) {
        return "s" + hex(v.native());
    } else if constexpr (std::is_convertible_v<T, std::string_view>) {
        return "s" + hex(v);
    } else if constexpr (is_opt<T>::value) {
        return v ? "o" + ser(*v) : "null";
    } else if constexpr (is_var<T>::value) {
        return "v" + std::to_string(v.index()) + "(" +
               std::visit([](const auto& x) { return ser(x); }, v) + ")";
    } else {
        std::string r = "[";
        for (const auto& e : v) {
            if (r.size() > 1) {
                r += ",";
            }
            r += ser<std::decay_t<decltype(e)>>(e);
        }
        return r + "]";
    }
}

template <typename... A>
void call(int id, const A&... a)
{
    log += "|r" + std::to_string(id) + "(";
    std::size_t i = 0;
    ((log += (i++ ? " " : ""), log += ser(a)), ...);
    log += ")";
    switch (bomb) {
    case 1: throw Boom{1};
    case 2: throw 2;
    case 3: throw Boom3{3};
    case 4: throw ar::parse_exception{"boom 4"};
    case 5: throw std::string{"boom 5"};
    default: break;
    }
}

// Custom parsers used by generated trees
inline int cp_len(std::string_view s)
{
    int h = int(s.size()) * 1000;
    for (unsigned char c : s) {
        h = (h * 31 + c) % 1000003;
    }
    return h;
}
inline std::string cp_brk(std::string_view s) { return "<" + std::string{s} + ">"; }
inline Pt cp_pt(std::string_view s)
{
    Pt p;
    char extra = 0;
    const std::string t{s};
    if (std::sscanf(t.c_str(), "%d;%d%c", &p.x, &p.y, &extra) != 2) {
        throw custom_error{"bad point " + t};
    }
    return p;
}
}  // namespace rt

// The global parser of a user type, told apart from the custom_parser above by its result
template <>
struct arg_router::parser<Pt> {
    [[nodiscard]] static Pt parse(std::string_view s)
    {
        const auto p = rt::cp_pt(s);
        return {p.y, p.x};
    }
};

namespace rt
{
inline Col cp_col(std::string_view s)
{
    if (s == "red") {
        return Col::red;
    }
    if (s == "green") {
        return Col::green;
    }
    if (s == "blue") {
        return Col::blue;
    }
    throw custom_error{"bad colour " + std::string{s}};
}
}  // namespace rt

struct IRoot {
    virtual ~IRoot() = default;
    virtual void parse(int how, std::vector<std::string>& v) = 0;
    virtual std::string help() = 0;
    virtual IRoot* clone() const = 0;
};
IRoot* make_root(unsigned en);

template <typename R>
struct Impl : IRoot {
    R r;
    explicit Impl(R x) : r{std::move(x)} {}
    void parse(int how, std::vector<std::string>& v) override
    {
        switch (how) {
#ifdef RT_VARIANTS
        case 1: {
            std::vector<char*> p;
            std::string prog = "program";
            p.push_back(prog.data());
            for (auto& s : v) {
                p.push_back(s.data());
            }
            p.push_back(nullptr);
            r.parse(int(p.size() - 1), p.data());
            break;
        }
        case 2: {
            std::list<std::string_view> l{v.begin(), v.end()};
            r.parse(l.begin(), l.end());
            break;
        }
        case 3: {
            auto c = r;
            c.parse(v);
            break;
        }
        case 4: {
            auto c = r;
            auto d = std::move(c);
            d.parse(v);
            break;
        }
        case 5: {
            ar::vector<ar::parsing::token_type> t;
            for (auto& s : v) {
                t.push_back({ar::parsing::prefix_type::none, s});
            }
            r.parse(std::move(t));
            break;
        }
#endif
#ifdef RT_EXACT
        case 6: {
            // every token ends where its allocation ends, and dies when parse() is left
            std::vector<std::unique_ptr<char[]>> mem;
            std::vector<std::string_view> l;
            for (auto& s : v) {
                mem.emplace_back(new char[s.size() ? s.size() : 1]);
                std::copy(s.begin(), s.end(), mem.back().get());
                l.emplace_back(s.empty() ? mem.back().get() + 1 : mem.back().get(), s.size());
            }
            r.parse(l.begin(), l.end());
            break;
        }
#endif
        default: r.parse(v);
        }
    }
    std::string help() override
    {
#ifdef RT_HELP
        auto s = r.help();
        std::ostringstream o;
        r.help(o);
        if (o.str() != std::string{s.begin(), s.end()}) {
            return "help() and help(stream) differ: " + o.str();
        }
        return o.str();
#else
        return {};
#endif
    }
#ifdef RT_VARIANTS
    IRoot* clone() const override { return new Impl<R>{r}; }
#else
    IRoot* clone() const override { return nullptr; }
#endif
};
