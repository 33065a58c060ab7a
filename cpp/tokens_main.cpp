// C25: parsing::dynamic_token_adapter against a plain sequence with a movable boundary
#include "hist.hpp"

#include "arg_router/parsing/dynamic_token_adapter.hpp"

#include <set>

namespace ar = arg_router;
using ar::parsing::dynamic_token_adapter;
using ar::parsing::prefix_type;
using ar::parsing::token_type;
using It = dynamic_token_adapter::iterator;

static const std::vector<std::string>& pool()
{
    static const auto p = [] {
        std::vector<std::string> v;
        for (int i = 0; i < 4096; ++i) v.push_back("t" + std::to_string(i));
        return v;
    }();
    return p;
}

static std::string history(Bytes& in, std::string& trace)
{
    unsigned next = 0;
    auto fresh = [&] {
        const auto p = in.below(3);
        return token_type{p == 0 ? prefix_type::none : p == 1 ? prefix_type::short_ : prefix_type::long_,
                          pool()[next++ % pool().size()]};
    };
    ar::vector<token_type> proc, unproc;
    std::vector<token_type> seq;
    const auto np = in.below(5), nu = in.below(7);
    for (auto i = 0u; i < np; ++i) { proc.push_back(fresh()); seq.push_back(proc.back()); }
    for (auto i = 0u; i < nu; ++i) { unproc.push_back(fresh()); seq.push_back(unproc.back()); }
    std::size_t b = np;
    trace += "start " + std::to_string(np) + "+" + std::to_string(nu) + ";";
    dynamic_token_adapter a{proc, unproc};
    ar::vector<token_type> oproc, ounproc{seq.begin(), seq.end()};
    dynamic_token_adapter other{oproc, ounproc};
    std::set<std::string> cls;
    bool crossed = false;

    auto state = [&] {
        REQ(a.processed().size() == b, "processed size, expected " + std::to_string(b) + " got " + std::to_string(a.processed().size()));
        REQ(a.unprocessed().size() == seq.size() - b, "unprocessed size");
        for (std::size_t i = 0; i < seq.size(); ++i) {
            const auto& t = i < b ? a.processed()[i] : a.unprocessed()[i - b];
            REQ(t == seq[i], "element " + std::to_string(i));
            REQ(t.prefix == seq[i].prefix && t.name == seq[i].name, "element " + std::to_string(i));
        }
        REQ(a.size() == seq.size(), "");
        REQ(a.empty() == seq.empty(), "");
        std::size_t n = 0;
        for (auto it = a.begin(); it != a.end(); ++it, ++n) {
            REQ(n < seq.size(), "iteration runs past the end");
            REQ(*it == seq[n], "iteration");
            REQ(it->name == seq[n].name, "arrow");
        }
        REQ(n == seq.size(), "iteration ends early");
    };
    state();
    // an iterator at index k, spelt one of several ways
    auto at = [&](std::size_t k) -> It {
        switch (in.below(6)) {
        case 0: return a.begin() + std::ptrdiff_t(k);
        case 1: { auto i = a.begin(); i += std::ptrdiff_t(k); return i; }
        case 2: { auto i = a.begin(); for (std::size_t j = 0; j < k; ++j) i++; return i; }
        case 3: { auto i = a.begin() + std::ptrdiff_t(k + 3); i -= 3; return i; }
        case 4: return std::ptrdiff_t(k) + a.begin();
        default: { auto i = a.begin() + std::ptrdiff_t(k + 2); --i; i--; return i; }
        }
    };
    unsigned ops = 0;
    while (in.more() && ops < 60) {
        ++ops;
        const auto op = in.below(10);
        switch (op) {
        case 0: {  // insert one
            const auto k = in.below(seq.size() + 1);
            const bool use_end = k == seq.size() && in.below(2);
            const auto v = fresh();
            trace += "insert@" + std::to_string(k) + (use_end ? "end" : "") + ";";
            const auto r = a.insert(use_end ? a.end() : at(k), v);
            if (k > b) crossed = true, b = k;
            seq.insert(seq.begin() + k, v);
            ++b;
            REQ(r != a.end(), "insert returns an iterator to the inserted value");
            REQ(*r == v, "insert returns an iterator to the inserted value");
            REQ(r == a.begin() + k, "insert returns an iterator to the inserted value");
            cls.insert(use_end ? "insert-end" : "insert");
            break;
        }
        case 1: {  // insert range
            const auto k = in.below(seq.size() + 1);
            const bool use_end = k == seq.size() && in.below(2);
            std::vector<token_type> vs;
            for (auto n = in.below(4); n; --n) vs.push_back(fresh());
            trace += "insert" + std::to_string(vs.size()) + "@" + std::to_string(k) + (use_end ? "end" : "") + ";";
            const auto r = a.insert(use_end ? a.end() : at(k), vs.begin(), vs.end());
            if (k > b) crossed = true, b = k;
            seq.insert(seq.begin() + k, vs.begin(), vs.end());
            b += vs.size();
            if (!vs.empty()) {
                REQ(r != a.end() && *r == vs.front(), "insert returns an iterator to the first of the range");
                REQ(r == a.begin() + k, "insert returns an iterator to the first of the range");
            }
            cls.insert(use_end ? "insert-range-end" : "insert-range");
            break;
        }
        case 2: {  // erase
            const auto k = in.below(seq.size() + 1);
            const auto it = k == seq.size() ? (in.below(2) ? a.end() : at(k)) : at(k);
            trace += "erase@" + std::to_string(k) + ";";
            const auto r = a.erase(it);
            if (k < seq.size()) {
                seq.erase(seq.begin() + k);
                if (k < b) --b; else cls.insert("erase-unprocessed");
                if (k < seq.size()) {
                    REQ(r != a.end() && *r == seq[k], "erase returns the following element");
                } else {
                    REQ(r == a.end(), "erase of the last element returns the end");
                }
            } else {
                REQ(r == a.end(), "erase of the end is a no-op");
            }
            break;
        }
        case 3: {  // transfer
            const auto k = in.below(seq.size() + 2);
            trace += "transfer@" + std::to_string(k) + ";";
            if (k == seq.size() + 1) {
                a.transfer(a.begin() - 1);
            } else {
                a.transfer(k == seq.size() ? a.end() : at(k));
                const auto nb = std::min<std::size_t>(seq.size(), k + 1);
                if (nb > b) crossed = true, b = nb;
            }
            cls.insert("transfer");
            break;
        }
        case 4: {  // set
            if (seq.empty()) break;
            const auto k = in.below(seq.size());
            const auto v = fresh();
            trace += "set@" + std::to_string(k) + ";";
            auto it = at(k);
            it.set(v);
            if (k + 1 > b) crossed = true, b = k + 1;
            seq[k] = v;
            REQ(*it == v, "set is visible through the iterator");
            cls.insert("set");
            break;
        }
        case 5: {  // iterator relations
            const auto i = in.below(seq.size() + 1), j = in.below(seq.size() + 1);
            const auto x = at(i), y = at(j);
            trace += "cmp " + std::to_string(i) + "," + std::to_string(j) + ";";
            REQ((x == y) == (i == j), "");
            REQ((x != y) == (i != j), "");
            REQ((x < y) == (i < j), "");
            REQ((x > y) == (i > j), "");
            REQ((x <= y) == (i <= j), "");
            REQ((x >= y) == (i >= j), "");
            REQ((x == a.end()) == (i == seq.size()), "");
            REQ((a.end() == x) == (i == seq.size()), "");
            REQ((a.begin() == a.end()) == seq.empty(), "");
            if (i < seq.size() && j < seq.size()) {
                REQ(x[std::ptrdiff_t(j) - std::ptrdiff_t(i)] == seq[j], "subscript");
                REQ(*(x + (std::ptrdiff_t(j) - std::ptrdiff_t(i))) == seq[j], "plus");
                REQ(*(x - (std::ptrdiff_t(i) - std::ptrdiff_t(j))) == seq[j], "minus");
                auto p = x;
                auto q = p++;
                REQ(*q == seq[i] && p == x + 1, "post-increment");
                q = p--;
                REQ(q == x + 1 && *p == seq[i], "post-decrement");
                REQ(&++p == &p && p == x + 1, "pre-increment");
                REQ(&--p == &p && p == x, "pre-decrement");
                if (i >= j) REQ((x - y) == a.begin() + std::ptrdiff_t(i - j), "difference");
            }
            if (i < ounproc.size() && i < seq.size()) {
                REQ(!(other.begin() + i == x), "iterators of differing adapters are never equal");
            }
            cls.insert("relations");
            break;
        }
        case 6: {  // the edits policies make through the containers
            const auto w = in.below(4);
            trace += "direct" + std::to_string(w) + ";";
            if (w == 0) {
                const auto v = fresh();
                a.processed().push_back(v);
                seq.insert(seq.begin() + b, v);
                ++b;
            } else if (w == 1 && b) {
                const auto n = 1 + in.below(b);
                a.processed().erase(a.processed().begin(), a.processed().begin() + n);
                seq.erase(seq.begin(), seq.begin() + n);
                b -= n;
            } else if (w == 2) {
                const auto v = fresh();
                a.unprocessed().insert(a.unprocessed().begin(), v);
                seq.insert(seq.begin() + b, v);
            } else if (w == 3 && b < seq.size()) {
                a.unprocessed().erase(a.unprocessed().begin());
                seq.erase(seq.begin() + b);
            }
            break;
        }
        case 7: {  // copies refer to the same sequence
            auto c = a;
            REQ(c == a && !(c != a), "");
            REQ(!(c == other) && c != other, "");
            if (!seq.empty()) {
                const auto k = in.below(seq.size());
                trace += "copy-set@" + std::to_string(k) + ";";
                const auto v = fresh();
                (c.begin() + k).set(v);
                b = std::max<std::size_t>(b, k + 1);
                seq[k] = v;
            }
            cls.insert("copy");
            break;
        }
        case 8: {  // erase while iterating, as a filter would
            trace += "filter;";
            for (auto it = a.begin(); it != a.end();) {
                if (it->prefix == prefix_type::long_) it = a.erase(it); else ++it;
            }
            std::size_t nb = 0;
            std::vector<token_type> kept;
            for (std::size_t i = 0; i < seq.size(); ++i) {
                if (seq[i].prefix != prefix_type::long_) {
                    kept.push_back(seq[i]);
                    nb += i < b;
                }
            }
            seq = kept;
            b = nb;
            cls.insert("filter");
            break;
        }
        default: {  // insert chain through the returned iterator
            const auto k = in.below(seq.size() + 1);
            trace += "chain@" + std::to_string(k) + ";";
            auto it = at(k);
            if (k > b) crossed = true, b = k;
            for (unsigned n = 0, e = 1 + in.below(3); n < e; ++n) {
                const auto v = fresh();
                it = a.insert(it, v);
                seq.insert(seq.begin() + k + n, v);
                ++b;
                ++it;
            }
            cls.insert("insert-chain");
        }
        }
        state();
    }
    if (crossed) cls.insert("crossed");
    std::string r = std::to_string(ops);
    for (auto& c : cls) r += " " + c;
    return r;
}

int main() { return serve(history); }
