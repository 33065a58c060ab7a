// Text server: UTF-8, grapheme, width, wrapping and distance functions over strings given in hex.
// Every string is held in a heap block of exactly its size so that AddressSanitizer sees any overrun.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "arg_router/arg_router.hpp"

namespace u8 = arg_router::utility::utf8;

struct Buf {
    explicit Buf(const std::string& hex)
    {
        n = hex.size() > 1 ? (hex.size() - 1) / 2 : 0;
        p.reset(new char[n ? n : 1]);
        for (std::size_t i = 0; i < n; ++i) {
            p[i] = static_cast<char>(std::stoi(hex.substr(1 + i * 2, 2), nullptr, 16));
        }
        // an empty string gets a view that must not be read at all
    }
    std::string_view view() const { return {n ? p.get() : p.get() + 1, n}; }
    std::size_t n;
    std::unique_ptr<char[]> p;
};

static std::string enc(std::uint32_t c)
{
    std::string s;
    if (c < 0x80) {
        s += char(c);
    } else if (c < 0x800) {
        s += char(0xC0 | c >> 6);
        s += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += char(0xE0 | c >> 12);
        s += char(0x80 | (c >> 6 & 63));
        s += char(0x80 | (c & 63));
    } else {
        s += char(0xF0 | c >> 18);
        s += char(0x80 | (c >> 12 & 63));
        s += char(0x80 | (c >> 6 & 63));
        s += char(0x80 | (c & 63));
    }
    return s;
}

template <typename F>
static void sweep(F f)
{
    // run-length encoded value per scalar value
    std::string cur;
    std::uint32_t from = 0;
    bool any = false;
    for (std::uint32_t c = 0; c <= 0x10FFFF; ++c) {
        if (c >= 0xD800 && c <= 0xDFFF) {
            continue;
        }
        const auto v = f(c);
        if (!any) {
            cur = v;
            from = c;
            any = true;
        } else if (v != cur) {
            std::cout << std::hex << from << '=' << cur << ' ';
            cur = v;
            from = c;
        }
    }
    std::cout << std::hex << from << '=' << cur << std::dec;
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is{line};
        std::string cmd;
        is >> cmd;
        if (cmd == "cps") {
            std::string h;
            is >> h;
            const Buf b{h};
            const auto v = b.view();
            std::size_t steps = 0;
            std::cout << u8::code_point::count(v) << ' ' << u8::code_point::size(v);
            std::size_t off = 0;
            for (auto cp : u8::code_point::iterator::range(v)) {
                if (++steps > v.size() + 2) {
                    std::cout << " LOOP";
                    break;
                }
                const auto d = u8::code_point::decode(cp);
                std::cout << ' ' << (cp.data() == v.data() + off ? "" : "GAP") << cp.size() << ':';
                if (d) {
                    std::cout << *d;
                } else {
                    std::cout << '-';
                }
                off += cp.size();
            }
            // the iterator's own relations
            auto it = u8::code_point::iterator{v};
            const auto old = it++;
            std::cout << ' ' << (v.empty() || (old != it && old == u8::code_point::iterator{v}) ? "ok" : "ITER");
        } else if (cmd == "gcs") {
            std::string h;
            is >> h;
            const Buf b{h};
            const auto v = b.view();
            std::size_t steps = 0;
            std::cout << u8::count(v);
            std::size_t off = 0;
            for (auto g : u8::iterator::range(v)) {
                if (++steps > v.size() + 2) {
                    std::cout << " LOOP";
                    break;
                }
                std::cout << ' ' << (g.data() == v.data() + off ? "" : "GAP") << g.size();
                off += g.size();
            }
            auto it = u8::iterator{v};
            const auto old = it++;
            std::cout << ' ' << (v.empty() || (old != it && old == u8::iterator{v}) ? "ok" : "ITER");
        } else if (cmd == "w") {
            std::string h;
            is >> h;
            const Buf b{h};
            const auto v = b.view();
            std::cout << u8::terminal_width(v) << ' ' << u8::is_whitespace(v) << ' ' << u8::contains_whitespace(v);
        } else if (cmd == "wrap") {
            std::size_t n;
            std::string h;
            is >> n >> h;
            const Buf b{h};
            const auto v = b.view();
            std::size_t steps = 0;
            std::cout << "L";
            for (auto it = u8::line_iterator{v, n}; it != u8::line_iterator{}; ++it) {
                if (++steps > v.size() + 2) {
                    std::cout << " LOOP";
                    break;
                }
                const auto l = *it;
                std::cout << ' ' << (l.data() - v.data()) << ':' << l.size();
            }
        } else if (cmd == "lev") {
            std::string h1, h2;
            is >> h1 >> h2;
            const Buf a{h1}, b{h2};
            std::cout << u8::levenshtein_distance(a.view(), b.view());
        } else if (cmd == "range") {
            std::uint32_t f, l, c, f2, l2;
            unsigned m;
            is >> f >> l >> m >> c >> f2 >> l2;
            const u8::code_point::range r{f, l, static_cast<std::uint8_t>(m)};
            const u8::code_point::range q{f2, l2};
            std::cout << r.first() << ' ' << r.last() << ' ' << unsigned(r.meta()) << ' ' << (r < c) << ' ' << (r < q)
                      << ' ' << (q < r);
        } else if (cmd == "sweep") {
            std::string what;
            is >> what;
            if (what == "cp") {
                sweep([](std::uint32_t c) {
                    const auto s = enc(c);
                    const auto d = u8::code_point::decode(s);
                    return std::string(u8::code_point::count(s) == 1 && u8::code_point::size(s) == s.size() && d && *d == c ?
                                           "1" : "0");
                });
            } else if (what == "w") {
                sweep([](std::uint32_t c) {
                    const auto s = enc(c);
                    return std::to_string(u8::terminal_width(s)) + (u8::is_whitespace(s) ? "w" : "");
                });
            } else if (what == "gc") {
                std::vector<std::string> reps;
                std::string h;
                while (is >> h) {
                    const Buf b{h};
                    reps.emplace_back(b.view());
                }
                sweep([&](std::uint32_t c) {
                    const auto s = enc(c);
                    std::string r;
                    for (auto& p : reps) {
                        r += char('0' + u8::count(s + p));
                        r += char('0' + u8::count(p + s));
                        r += char('0' + u8::count(p + s + p));
                    }
                    return r;
                });
            } else if (what == "lb") {
                // break opportunity between c and rep: with the limit at the width of the first part,
                // followed by enough columns that the line has to break
                std::vector<std::string> reps;
                std::string h;
                while (is >> h) {
                    const Buf b{h};
                    reps.emplace_back(b.view());
                }
                sweep([&](std::uint32_t c) {
                    const auto s = enc(c);
                    std::string r;
                    for (auto& p : reps) {
                        for (int k = 0; k < 2; ++k) {
                            // "aa" + x + y + "aaaa": where does the first line end?
                            const auto x = k ? p : s;
                            const auto y = k ? s : p;
                            const auto t = "a" + x + y + "aaaaaaaa";
                            const auto n = u8::terminal_width("a" + x + y) + 2;
                            const auto it = u8::line_iterator{t, n};
                            r += char('0' + (*it).size());
                        }
                    }
                    return r;
                });
            }
        } else {
            std::cout << "?";
        }
        std::cout << '\n';
        std::cout.flush();
    }
    return 0;
}
