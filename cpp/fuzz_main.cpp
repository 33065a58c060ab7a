// libFuzzer entry point for a generated tree: the first byte selects how tokens are handed over, the
// rest is split into tokens at 0x1F.
#include <cstdlib>

#include "rt.hpp"

extern "C" int LLVMFuzzerTestOneInput(const unsigned char* data, std::size_t size)
{
    if (!size || size > 3000) {
        return 0;
    }
    const unsigned char sel = data[0];
    std::vector<std::string> args(1);
    for (std::size_t i = 1; i < size; ++i) {
        if (data[i] == 0x1F) {
            args.emplace_back();
        } else {
            args.back() += char(data[i]);
        }
    }
    if (args.size() == 1 && args[0].empty()) {
        args.clear();
    }
    rt::log.clear();
    static const std::unique_ptr<IRoot> all{make_root(~0u)};
    try {
        if (sel & 0x40) {
            all->parse(6, args);
        } else {
            const std::unique_ptr<IRoot> r{make_root(sel & 0x80 ? ~0u : sel & 0x3F)};
            r->parse(6, args);
        }
    } catch (std::exception& e) {
        rt::log += e.what();
    }
    return 0;
}
