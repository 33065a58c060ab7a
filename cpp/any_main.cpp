// C26: utility::unsafe_any_t, utility::result, parsing::parse_target, compile_time_optional against plain values
#include "hist.hpp"

#include "arg_router/parsing/parse_target.hpp"
#include "arg_router/tree_node.hpp"
#include "arg_router/utility/compile_time_optional.hpp"
#include "arg_router/utility/result.hpp"
#include "arg_router/utility/unsafe_any.hpp"

#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <variant>

namespace ar = arg_router;

// ---- heap balance
static long g_live = 0;
void* operator new(std::size_t n)
{
    ++g_live;
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc{};
}
void operator delete(void* p) noexcept { if (p) { --g_live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }

// ---- value types: every size class, trivial and not, throwing and not
static int g_throw = -1;   // countdown to the next throwing copy
struct Thrown {};
template <int Tag, std::size_t Pad, bool Throws, bool Self>
struct Obj {
    static inline long live = 0;
    static inline std::set<const void*> where;
    int v;
    std::conditional_t<Self, const void*, char> self;
    std::array<unsigned char, Pad> pad;
    explicit Obj(int x) : v(x) { enter(); }
    Obj(const Obj& o) : v(0)
    {
        o.ok();
        if (Throws && g_throw >= 0 && g_throw-- == 0) throw Thrown{};
        v = o.v;
        enter();
    }
    Obj(Obj&& o) noexcept : v(o.v) { o.ok(); enter(); }
    Obj& operator=(const Obj& o) { ok(); o.ok(); v = o.v; return *this; }
    ~Obj()
    {
        ok();
        --live;
        if constexpr (Self) where.erase(this);
    }
    bool operator==(const Obj& o) const { return v == o.v; }
    void enter()
    {
        ++live;
        pad.fill(static_cast<unsigned char>(v));
        if constexpr (Self) { self = this; where.insert(this); }
    }
    void ok() const
    {
        if constexpr (Self) REQABORT(self == this);
    }
    static void REQABORT(bool b)
    {
        if (!b) { std::cerr << "an object was relocated without its move constructor\n" << std::flush; std::_Exit(3); }
    }
};
using Small = Obj<0, 3, false, false>;     // 8 bytes, not trivial
using Mid = Obj<1, 8, false, false>;       // 16 bytes
using Big = Obj<2, 60, false, false>;      // heap
using BigThrow = Obj<3, 40, true, false>;  // heap, copy may throw
using SelfBig = Obj<4, 40, false, true>;   // heap, address sensitive
using SelfSmall = Obj<5, 0, false, true>;  // 16 bytes, address sensitive (see unsafe_any_t's small storage)
struct alignas(16) Wide { double a; int v; };

static long objects()
{
    return Small::live + Mid::live + Big::live + BigThrow::live + SelfBig::live + SelfSmall::live;
}

template <typename T> T mk(int x)
{
    if constexpr (std::is_same_v<T, std::string>) return std::string(x % 40, char('a' + x % 26));
    else if constexpr (std::is_same_v<T, std::vector<int>>) return std::vector<int>(x % 9, x);
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return std::make_shared<int>(x);
    else if constexpr (std::is_same_v<T, std::string_view>) return std::string_view("abcdefghijklmnopqrstuvwxyz").substr(x % 9, x % 17);
    else if constexpr (std::is_same_v<T, Wide>) return Wide{x / 2.0, x};
    else if constexpr (std::is_same_v<T, std::optional<int>>) return x % 3 ? std::optional<int>{x} : std::nullopt;
    else if constexpr (std::is_same_v<T, std::function<int()>>) return [x] { return x; };
    else if constexpr (std::is_same_v<T, std::map<int, std::string>>) return std::map<int, std::string>{{x, "m"}, {x + 1, std::string(30, 'z')}};
    else return T(x);
}
template <typename T> bool eq(const T& a, int x)
{
    if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return a && *a == x;
    else if constexpr (std::is_same_v<T, Wide>) return a.a == x / 2.0 && a.v == x;
    else if constexpr (std::is_same_v<T, std::function<int()>>) return a && a() == x;
    else return a == mk<T>(x);
}

template <typename... Ts> struct Types {
    static constexpr std::size_t n = sizeof...(Ts);
    template <typename F> static void at(std::size_t i, F f)
    {
        std::size_t k = 0;
        (void)std::initializer_list<int>{(k++ == i ? (f(static_cast<Ts*>(nullptr)), 0) : 0)...};
    }
};
using All = Types<bool, signed char, int, unsigned long long, double, std::string_view, std::string, std::vector<int>, std::shared_ptr<int>,
                  std::optional<int>, std::function<int()>, std::map<int, std::string>, Wide, Small, Mid, Big, BigThrow, SelfBig, SelfSmall>;

template <std::size_t N>
static void any_history(Bytes& in, std::string& trace, std::set<std::string>& cls, unsigned& ops)
{
    using Any = ar::utility::unsafe_any_t<N>;
    struct Model { int type = -1; int v = 0; };
    constexpr auto S = 5u;
    std::array<std::optional<Any>, S> slot;
    std::array<Model, S> mod;
    auto boolval = [](int t, int v) { return t == 0 ? v & 1 : v; };
    auto state = [&] {
        long want = 0;
        for (auto i = 0u; i < S; ++i) {
            if (!slot[i]) continue;
            REQ(slot[i]->has_value() == (mod[i].type >= 0), "has_value of slot " + std::to_string(i));
            if (mod[i].type < 0) continue;
            if (mod[i].type >= 13) ++want;
            All::at(mod[i].type, [&](auto* p) {
                using T = std::decay_t<decltype(*p)>;
                REQ(eq<T>(slot[i]->template get<T>(), mod[i].v), "value of slot " + std::to_string(i));
                REQ(eq<T>(std::as_const(*slot[i]).template get<T>(), mod[i].v), "const value of slot " + std::to_string(i));
            });
        }
        REQ(objects() == want, "live objects " + std::to_string(objects()) + ", expected " + std::to_string(want));
    };
    while (in.more() && ops < 60) {
        ++ops;
        const auto i = in.below(S), j = in.below(S);
        auto& a = slot[i];
        auto& b = slot[j];
        switch (in.below(12)) {
        case 0:
        case 1: {  // put a value in
            const auto t = in.below(All::n);
            const auto v = boolval(t, 1 + in.below(120));
            const auto how = in.below(5);
            trace += "put" + std::to_string(how) + " s" + std::to_string(i) + " type" + std::to_string(t) + " " + std::to_string(v) + ";";
            All::at(t, [&](auto* p) {
                using T = std::decay_t<decltype(*p)>;
                T val = mk<T>(v);
                const T& cval = val;
                if (how == 0) a.emplace(cval);
                else if (how == 1) a.emplace(std::move(val));
                else if (how == 2) { if (!a) a.emplace(); *a = Any(cval); }
                else if (how == 3) { if (!a) a.emplace(); *a = val; }
                else { a.emplace(val); if constexpr (!std::is_same_v<T, std::function<int()>>) REQ(eq<T>(val, v), "copying a value in leaves it"); }
            });
            mod[i] = {int(t), v};
            cls.insert("type" + std::to_string(t));
            break;
        }
        case 2:  // copy construct
            trace += "copy s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (i != j && b) {
                a.emplace(*b);
                mod[i] = mod[j];
                cls.insert(mod[j].type < 0 ? "copy-empty" : "copy");
            }
            break;
        case 3:  // move construct
            trace += "move s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (i != j && b) {
                a.emplace(std::move(*b));
                mod[i] = mod[j];
                mod[j] = {};
                cls.insert("move");
            }
            break;
        case 4:  // copy assign, also to itself
            trace += "assign s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (a && b) {
                *a = *b;
                mod[i] = mod[j];
                cls.insert(i == j ? "self-assign" : mod[j].type < 0 ? "assign-empty" : "assign");
            }
            break;
        case 5:  // move assign
            trace += "move-assign s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (a && b && i != j) {
                *a = std::move(*b);
                mod[i] = mod[j];
                mod[j] = {};
                cls.insert("move-assign");
            }
            break;
        case 6:  // swap
            trace += "swap s" + std::to_string(i) + ",s" + std::to_string(j) + ";";
            if (a && b) {
                swap(*a, *b);
                std::swap(mod[i], mod[j]);
                cls.insert("swap");
            }
            break;
        case 7:
            trace += "destroy s" + std::to_string(i) + ";";
            a.reset();
            mod[i] = {};
            break;
        case 8:
            trace += "default s" + std::to_string(i) + ";";
            a.emplace();
            mod[i] = {};
            break;
        case 9:  // write through the reference
            if (a && mod[i].type >= 0) {
                const auto v = boolval(mod[i].type, 1 + in.below(120));
                trace += "write s" + std::to_string(i) + " " + std::to_string(v) + ";";
                All::at(mod[i].type, [&](auto* p) {
                    using T = std::decay_t<decltype(*p)>;
                    a->template get<T>() = mk<T>(v);
                });
                mod[i].v = v;
                if (mod[i].type >= 13) cls.insert("write");
            }
            break;
        case 10: {  // a throwing copy leaves both sides as they were
            if (!a || !b || i == j || mod[j].type != 16) break;
            trace += "throwing-assign s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            const auto heap = g_live;
            g_throw = in.below(2);
            try {
                *a = *b;
                mod[i] = mod[j];
            } catch (Thrown&) {
                const auto now = g_live;
                cls.insert("throwing-assign");
                REQ(now == heap, "heap blocks after a throwing copy");
            }
            g_throw = -1;
            break;
        }
        default: {  // constructing from a throwing value
            trace += "throwing-put;";
            const auto heap = g_live;
            bool threw = false;
            {
                BigThrow v(3);
                g_throw = 0;
                try {
                    Any x(v);
                } catch (Thrown&) {
                    threw = true;
                }
                g_throw = -1;
            }
            const auto now = g_live;
            if (threw) cls.insert("throwing-put");
            REQ(now == heap, "heap blocks after a throwing construction");
        }
        }
        state();
    }
    for (auto& s : slot) s.reset();
    for (auto& m : mod) m = {};
    state();
}

// ---- result
struct Err {
    int code;
    std::string text;
};
template <typename T>
static void result_history(Bytes& in, std::string& trace, std::set<std::string>& cls, unsigned& ops)
{
    using R = ar::utility::result<T, Err>;
    struct Model { bool err; int v; };
    constexpr auto S = 4u;
    std::array<std::optional<R>, S> slot;
    std::array<Model, S> mod{};
    auto text = [](int v) { return std::string(v % 50, 'e'); };
    auto state = [&] {
        for (auto i = 0u; i < S; ++i) {
            if (!slot[i]) continue;
            const auto& r = *slot[i];
            REQ(r.has_result() == !mod[i].err && r.has_error() == mod[i].err, "has_result/has_error");
            REQ(static_cast<bool>(r) == !mod[i].err && !r == mod[i].err, "bool conversion");
            if (mod[i].err) {
                REQ(!r.get_if() && !slot[i]->get_if(), "get_if of an error");
                for (int how = 0; how < 2; ++how) {
                    auto hit = false;
                    try {
                        if (how) r.throw_exception(); else (void)r.get();
                    } catch (const Err& e) {
                        hit = e.code == mod[i].v && e.text == text(mod[i].v);
                    }
                    REQ(hit, "the stored exception is thrown");
                }
            } else {
                r.throw_exception();
                REQ(r.get_if() && eq<T>(*r.get_if(), mod[i].v), "get_if");
                REQ(eq<T>(r.get(), mod[i].v), "get");
            }
            for (auto j = 0u; j < S; ++j) {
                if (!slot[j]) continue;
                const auto e = !mod[i].err && !mod[j].err && mk<T>(mod[i].v) == mk<T>(mod[j].v);
                REQ((r == *slot[j]) == e && (r != *slot[j]) == !e, "comparison of results");
                const auto val = mk<T>(mod[j].v);
                const auto ev = !mod[i].err && mk<T>(mod[i].v) == val;
                REQ((r == val) == ev && (r != val) == !ev && (val == r) == ev && (val != r) == !ev, "comparison with a value");
            }
        }
    };
    while (in.more() && ops < 40) {
        ++ops;
        const auto i = in.below(S), j = in.below(S);
        switch (in.below(8)) {
        case 0:
        case 1: {
            const auto v = 1 + in.below(100);
            trace += "value s" + std::to_string(i) + " " + std::to_string(v) + ";";
            if (in.below(2) || !slot[i]) slot[i].emplace(mk<T>(v)); else *slot[i] = R{mk<T>(v)};
            mod[i] = {false, int(v)};
            break;
        }
        case 2: {
            const auto v = 1 + in.below(100);
            trace += "error s" + std::to_string(i) + " " + std::to_string(v) + ";";
            if (in.below(2) || !slot[i]) slot[i].emplace(Err{int(v), text(v)}); else *slot[i] = R{Err{int(v), text(v)}};
            mod[i] = {true, int(v)};
            cls.insert("result-error");
            break;
        }
        case 3:
            trace += "copy s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (slot[j] && i != j) { slot[i].emplace(*slot[j]); mod[i] = mod[j]; cls.insert("result-copy"); }
            break;
        case 4:
            trace += "assign s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (slot[j] && slot[i]) { *slot[i] = *slot[j]; mod[i] = mod[j]; }
            break;
        case 5:
            trace += "move s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (slot[j] && i != j) { R t = std::move(*slot[j]); slot[i].emplace(std::move(t)); mod[i] = mod[j]; slot[j].reset(); cls.insert("result-move"); }
            break;
        case 6:
            trace += "extract s" + std::to_string(i) + ";";
            if (slot[i]) {
                auto hit = false;
                try {
                    const T t = slot[i]->extract();
                    hit = !mod[i].err && eq<T>(t, mod[i].v);
                } catch (const Err& e) {
                    hit = mod[i].err && e.code == mod[i].v && e.text == text(mod[i].v);
                }
                REQ(hit, "extract");
                slot[i].reset();
                cls.insert("result-extract");
            }
            break;
        default:
            trace += "drop s" + std::to_string(i) + ";";
            slot[i].reset();
        }
        state();
    }
}

// ---- parse_target
struct Invocation { std::vector<std::string> toks; std::size_t subs, type; };
static std::vector<Invocation> g_inv;
static int g_ret = 0;
template <int Tag, typename... Policies>
struct Stub : ar::tree_node<Policies...> {
    using value_type = int;
    constexpr explicit Stub(Policies... p) : ar::tree_node<Policies...>{std::move(p)...} {}
    template <typename... Parents>
    auto parse(ar::parsing::parse_target target, const Parents&...) const
        -> std::conditional_t<Tag == 3, void, std::conditional_t<Tag == 2, std::string, int>>
    {
        Invocation v;
        for (auto& t : target.tokens()) v.toks.emplace_back(t.name);
        v.subs = target.sub_targets().size();
        v.type = target.node_type();
        g_inv.push_back(v);
        for (auto& s : target.sub_targets()) (void)s();
        if constexpr (Tag == 2) return std::string(40, char('a' + g_ret % 26));
        else if constexpr (Tag != 3) return g_ret;
    }
};

static void target_history(Bytes& in, std::string& trace, std::set<std::string>& cls, unsigned& ops)
{
    using ar::parsing::parse_target;
    static const auto n0 = Stub<0>{};
    static const auto n1 = Stub<1>{};
    static const auto n2 = Stub<2>{};
    static const auto n3 = Stub<3>{};
    static const auto types = std::array{ar::utility::type_hash<Stub<0>>(), ar::utility::type_hash<Stub<1>>(),
                                         ar::utility::type_hash<Stub<2>>(), ar::utility::type_hash<Stub<3>>()};
    static const std::vector<std::string> names{"a", "bb", "ccc", "\xc3\xa9", "", "x y"};
    struct Model {
        int node = 0;
        bool live = true;
        std::vector<std::string> toks;
        std::vector<Model> subs;
        void flat(std::vector<Invocation>& o) const
        {
            if (!live) return;
            o.push_back({toks, subs.size(), types[node]});
            for (auto& s : subs) s.flat(o);
        }
    };
    constexpr auto S = 4u;
    std::array<std::optional<parse_target>, S> slot;
    std::array<Model, S> mod;
    auto toks = [&](std::vector<std::string>& m) {
        ar::vector<ar::parsing::token_type> t;
        for (auto n = in.below(4); n; --n) {
            const auto& s = names[in.below(names.size())];
            t.push_back({ar::parsing::prefix_type::none, s});
            m.push_back(s);
        }
        return t;
    };
    std::function<void(const parse_target&, const Model&)> same = [&](const parse_target& t, const Model& m) {
        REQ(static_cast<bool>(t) == m.live, "invocable");
        if (!m.live) return;   // its tokens moved into the invocation
        REQ(t.node_type() == types[m.node], "node type");
        REQ(t.tokens().size() == m.toks.size(), "token count");
        for (std::size_t i = 0; i < m.toks.size(); ++i) REQ(t.tokens()[i].name == m.toks[i], "token");
        REQ(t.sub_targets().size() == m.subs.size(), "sub-target count");
        for (std::size_t i = 0; i < m.subs.size(); ++i) same(t.sub_targets()[i], m.subs[i]);
    };
    while (in.more() && ops < 40) {
        ++ops;
        const auto i = in.below(S), j = in.below(S);
        switch (in.below(8)) {
        case 0:
        case 1: {
            Model m;
            m.node = in.below(4);
            trace += "make s" + std::to_string(i) + " node" + std::to_string(m.node) + ";";
            const auto with = in.below(2);
            auto t = with ? toks(m.toks) : ar::vector<ar::parsing::token_type>{};
            if (m.node == 0) { if (with) slot[i].emplace(t, n0); else slot[i].emplace(n0, n1); }
            else if (m.node == 1) { if (with) slot[i].emplace(t, n1, n0); else slot[i].emplace(n1); }
            else if (m.node == 2) { if (with) slot[i].emplace(t, n2, n1, n0); else slot[i].emplace(n2); }
            else { if (with) slot[i].emplace(t, n3); else slot[i].emplace(n3); }
            mod[i] = m;
            break;
        }
        case 2:
            trace += "sub s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (slot[i] && slot[j] && mod[i].live && mod[i].subs.size() < 4) {
                if (i == j || in.below(2)) {
                    slot[i]->add_sub_target(*slot[j]);
                    auto c = mod[j];
                    mod[i].subs.push_back(c);
                } else {
                    slot[i]->add_sub_target(std::move(*slot[j]));
                    mod[i].subs.push_back(mod[j]);
                    slot[j].reset();
                }
                cls.insert("sub-target");
            }
            break;
        case 3:
            if (slot[i] && mod[i].live) {
                trace += "tokens s" + std::to_string(i) + ";";
                mod[i].toks.clear();
                slot[i]->tokens(toks(mod[i].toks));
            }
            break;
        case 4:
        case 5:
            if (slot[i]) {
                trace += "invoke s" + std::to_string(i) + ";";
                g_inv.clear();
                g_ret = in.below(100);
                const auto r = (*slot[i])();
                std::vector<Invocation> want;
                mod[i].flat(want);
                REQ(g_inv.size() == want.size(), "invocations " + std::to_string(g_inv.size()) + " expected " + std::to_string(want.size()));
                for (std::size_t k = 0; k < want.size(); ++k) {
                    REQ(g_inv[k].toks == want[k].toks && g_inv[k].subs == want[k].subs && g_inv[k].type == want[k].type, "invocation " + std::to_string(k));
                }
                REQ(r.has_value() == (mod[i].live && mod[i].node != 3), "result");
                if (r.has_value()) {
                    if (mod[i].node == 2) REQ(r.get<std::string>() == std::string(40, char('a' + g_ret % 26)), "string result");
                    else REQ(r.get<int>() == g_ret, "int result");
                }
                cls.insert(mod[i].live ? (mod[i].subs.empty() ? "invoke" : "invoke-with-subs") : "invoke-again");
                mod[i].live = false;
            }
            break;
        case 6:
            trace += "copy s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (slot[j] && i != j) { slot[i] = slot[j]; mod[i] = mod[j]; cls.insert("target-copy"); }
            break;
        default:
            trace += "move s" + std::to_string(j) + "->s" + std::to_string(i) + ";";
            if (slot[j] && i != j) { slot[i] = std::move(slot[j]); mod[i] = mod[j]; slot[j].reset(); cls.insert("target-move"); }
        }
        for (auto k = 0u; k < S; ++k) if (slot[k]) same(*slot[k], mod[k]);
    }
}

static void optional_history(Bytes& in, std::string& trace, std::set<std::string>& cls, unsigned& ops)
{
    using ar::utility::compile_time_optional;
    static_assert(compile_time_optional<void>::empty && !compile_time_optional<int>::empty);
    REQ(!compile_time_optional<void>{}, "empty optional");
    while (in.more() && ops < 20) {
        ++ops;
        const auto v = int(in.below(100));
        trace += "optional " + std::to_string(v) + ";";
        compile_time_optional<std::string> o{mk<std::string>(v)};
        REQ(static_cast<bool>(o) && *o == mk<std::string>(v) && o->size() == std::size_t(v % 40), "value");
        auto c = o;
        *c += "x";
        REQ(*o == mk<std::string>(v) && *c == mk<std::string>(v) + "x", "copies are independent");
        const auto& k = c;
        REQ(k->back() == 'x' && (*k).back() == 'x', "const access");
        std::string s = mk<std::string>(v);
        compile_time_optional<std::reference_wrapper<std::string>> r{std::ref(s)};
        *r += "y";
        REQ(s.back() == 'y' && r->back() == 'y' && &*r == &s, "references are transparent");
        cls.insert("ct-optional");
    }
}

static std::string history(Bytes& in, std::string& trace)
{
    std::set<std::string> cls;
    unsigned ops = 0;
    const auto heap = g_live;
    std::string r;
    {
        const auto kind = in.below(16);
        trace.reserve(1 << 16);
        long inner;
        {
            std::string mytrace;
            std::set<std::string> mycls;
            const auto h = g_live;
            try {
                switch (kind) {
                case 0: case 1: case 2: case 3: any_history<sizeof(std::string_view)>(in, mytrace, mycls, ops); break;
                case 4: case 5: any_history<8>(in, mytrace, mycls, ops); break;
                case 6: any_history<64>(in, mytrace, mycls, ops); break;
                case 7: case 8: result_history<std::string>(in, mytrace, mycls, ops); break;
                case 9: result_history<int>(in, mytrace, mycls, ops); break;
                case 10: result_history<Mid>(in, mytrace, mycls, ops); break;
                case 11: result_history<SelfBig>(in, mytrace, mycls, ops); break;
                case 12: case 13: case 14: target_history(in, mytrace, mycls, ops); break;
                default: optional_history(in, mytrace, mycls, ops); break;
                }
                cls = mycls;
            } catch (...) {
                trace += mytrace;
                throw;
            }
            trace += mytrace;
            (void)h;
        }
        r = std::to_string(ops);
        for (auto& c : cls) r += " " + c;
    }
    REQ(objects() == 0, "objects left over");
    std::vector<Invocation>{}.swap(g_inv);
    cls.clear();
    (void)heap;
    return r;
}

int main()
{
    {   // statics first, the heap balance is per history
        Bytes none{""};
        std::string t;
        std::set<std::string> c;
        unsigned ops = 0;
        target_history(none, t, c, ops);
    }
    return serve([](Bytes& b, std::string& t) {
        Small::live = Mid::live = Big::live = BigThrow::live = SelfBig::live = SelfSmall::live = 0;
        g_throw = -1;
        long before = 0, after = 0;
        std::string keep;
        keep.reserve(4096);
        t.reserve(1 << 16);
        before = g_live;
        {
            std::string r = history(b, t);
            keep.assign(r);
        }
        after = g_live;
        REQ(after == before, "heap blocks left over: " + std::to_string(after - before));
        return keep;
    });
}
