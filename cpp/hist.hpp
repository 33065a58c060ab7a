// Histories decoded from byte strings: one hex line in, one "ok <ops> <nontrivial classes>" or "bad <what>" line out.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

struct Bad : std::runtime_error {
    using std::runtime_error::runtime_error;
};
#define REQ(cond, ...) \
    do { \
        if (!(cond)) throw Bad(std::string(#cond) + " " + std::string(__VA_ARGS__)); \
    } while (0)

class Bytes
{
public:
    explicit Bytes(std::string s) : s_(std::move(s)) {}
    bool more() const { return i_ < s_.size(); }
    unsigned u8() { return i_ < s_.size() ? static_cast<unsigned char>(s_[i_++]) : 0; }
    unsigned below(unsigned n) { return n ? u8() % n : 0; }

private:
    std::string s_;
    std::size_t i_ = 0;
};

inline std::string unhex(const std::string& h)
{
    std::string o;
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) o += char(std::stoi(h.substr(i, 2), nullptr, 16));
    return o;
}

// history(bytes, trace) runs one history, returns the classes of operations it met
using History = std::function<std::string(Bytes&, std::string&)>;

inline int serve(const History& f)
{
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty() || line[0] != 'x') continue;
        Bytes b{unhex(line.substr(1))};
        std::string trace, out;
        try {
            out = "ok " + f(b, trace);
        } catch (const Bad& e) {
            out = std::string("bad ") + e.what() + " | " + trace;
        } catch (const std::exception& e) {
            out = std::string("bad exception ") + e.what() + " | " + trace;
        }
        for (auto& c : out) if (c == '\n') c = ' ';
        std::cout << out << "\n" << std::flush;
    }
    return 0;
}
