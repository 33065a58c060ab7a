// Runs operations of one root on several threads at once; one request per input line:
//   T <mask> <threads> <rounds> <op>;<op>;...    op: P <how> <hex>*  |  H
// Every thread performs all the operations, each starting at another one.  The outcomes are compared
// with those of the same operations performed one after another on roots of their own.
#include <atomic>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "rt.hpp"

static std::string unhex(const std::string& s)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) {
        r += char(v(s[i]) * 16 + v(s[i + 1]));
    }
    return r;
}

struct Op {
    bool help = false;
    int how = 0;
    std::vector<std::string> args;
};

static std::string perform(IRoot& r, const Op& op)
{
    rt::log.clear();
    auto args = op.args;
    try {
        if (op.help) {
            return "HE " + rt::hex(r.help());
        }
        r.parse(op.how, args);
        return "OK" + rt::log;
    } catch (ar::parse_exception& e) {
        return "EX " + rt::hex(e.what()) + rt::log;
    } catch (std::exception& e) {
        return "UE " + rt::hex(e.what()) + rt::log;
    } catch (...) {
        return "UE ?" + rt::log;
    }
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is{line};
        std::string cmd;
        unsigned mask;
        int threads, rounds;
        is >> cmd >> mask >> threads >> rounds;
        std::vector<Op> ops;
        std::string t;
        while (std::getline(is, t, ';')) {
            std::istringstream os{t};
            std::string k;
            Op op;
            os >> k;
            if (k == "H") {
                op.help = true;
            } else {
                os >> op.how;
                while (os >> t) {
                    op.args.push_back(unhex(t.substr(1)));
                }
            }
            ops.push_back(std::move(op));
        }
        std::vector<std::vector<std::string>> got(static_cast<std::size_t>(threads));
        {
            std::unique_ptr<IRoot> root{make_root(mask)};
            std::atomic<int> ready{0};
            std::vector<std::thread> ts;
            for (int i = 0; i < threads; ++i) {
                ts.emplace_back([&, i] {
                    auto& out = got[std::size_t(i)];
                    out.resize(ops.size() * std::size_t(rounds));
                    // relaxed, so that nothing but the library orders what follows
                    ready.fetch_add(1, std::memory_order_relaxed);
                    while (ready.load(std::memory_order_relaxed) < threads) {
                        std::this_thread::yield();
                    }
                    for (std::size_t n = 0; n < out.size(); ++n) {
                        const auto at = (n + std::size_t(i) * ops.size() / std::size_t(threads)) % out.size();
                        out[at] = perform(*root, ops[at % ops.size()]);
                    }
                });
            }
            for (auto& x : ts) {
                x.join();
            }
        }
        std::string out;
        std::string seq;
        for (std::size_t j = 0; j < ops.size(); ++j) {
            std::unique_ptr<IRoot> root{make_root(mask)};
            const auto ref = perform(*root, ops[j]);
            seq += " " + ref;
            for (std::size_t i = 0; out.empty() && i < got.size(); ++i) {
                for (std::size_t n = j; n < got[i].size(); n += ops.size()) {
                    if (got[i][n] != ref) {
                        out = "DIFF thread " + std::to_string(i) + " op " + std::to_string(j) + " got " + got[i][n] + " alone " + ref;
                        break;
                    }
                }
            }
        }
        if (out.empty()) {
            out = "SAME";
            for (std::size_t p = 0; (p = seq.find(' ', p)) != std::string::npos; ++p) {
                const auto k = seq.substr(p + 1, 2);
                if (k == "OK" || k == "EX" || k == "HE" || k == "UE") {
                    out += " " + k;
                }
            }
        }
        std::cout << out << std::endl;
    }
    return 0;
}
