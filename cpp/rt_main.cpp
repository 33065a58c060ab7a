// Server loop: one command per input line, one response per output line.
//   F <mask> <how> <hex>*   fresh root with run-time enable mask, parse
//   N <mask>                make the persistent root
//   P <how> <hex>*          parse with the persistent root
//   S <slot>                use another persistent root from here on
//   C                       replace the persistent root by a copy of itself
//   H <mask>                fresh root, help text;   h  help of the persistent root
//   L <hex>                 language requested by the roots made from here on;   I <hex>  locale name
//   W <columns>             width of the terminal, 0 for none
//   X <mask> <hex>*         fresh root, parse in a child process: exit status and standard output
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "rt.hpp"
#ifdef RT_EXACT
#    include <sanitizer/lsan_interface.h>
#endif

static unsigned short columns = 0;

// stands in for the terminal, whose width is the only thing the library asks for
extern "C" int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* p = va_arg(ap, void*);
    va_end(ap);
    if (req == TIOCGWINSZ && columns) {
        *static_cast<winsize*>(p) = winsize{25, columns, 0, 0};
        return 0;
    }
    return int(syscall(SYS_ioctl, fd, req, p));
}

static std::string child(unsigned mask, std::vector<std::string>& args)
{
    int fd[2];
    if (::pipe(fd)) {
        return "??";
    }
    const auto pid = ::fork();
    if (pid == 0) {
        ::dup2(fd[1], 1);
        ::close(fd[0]);
        ::close(fd[1]);
        try {
            std::unique_ptr<IRoot> r{make_root(mask)};
            r->parse(0, args);
        } catch (std::exception& e) {
            std::cout.flush();
            ::_exit(77);
        }
        std::cout.flush();
        ::_exit(78);
    }
    ::close(fd[1]);
    std::string out;
    char buf[4096];
    for (ssize_t n; (n = ::read(fd[0], buf, sizeof buf)) > 0;) {
        out.append(buf, std::size_t(n));
    }
    ::close(fd[0]);
    int st = 0;
    ::waitpid(pid, &st, 0);
    return "EXIT " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)) + " " + rt::hex(out);
}

static std::string unhex(const std::string& s)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) {
        r += char(v(s[i]) * 16 + v(s[i + 1]));
    }
    return r;
}

static std::string attempt(IRoot& r, int how, std::vector<std::string>& args)
{
    rt::log.clear();
    rt::bomb = how / 64;
    try {
        r.parse(how % 64, args);
        return "OK" + rt::log;
    } catch (rt::Boom& e) {
        return "BM " + std::to_string(e.id) + rt::log;
    } catch (int e) {
        return "BM " + std::to_string(e) + rt::log;
    } catch (rt::Boom2& e) {
        return "BM " + std::to_string(typeid(e) == typeid(rt::Boom3) ? e.id : -1) + rt::log;
    } catch (std::string& e) {
        return "BM " + (e == "boom 5" ? e.substr(5) : "?") + rt::log;
    } catch (ar::parse_exception& e) {
        if (e.what() == std::string{"boom 4"}) {
            return "BM 4" + rt::log;
        }
        return "EX " + rt::hex(e.what()) + rt::log;
    } catch (std::exception& e) {
        return "UE " + rt::hex(e.what()) + rt::log;
    } catch (...) {
        return "UE ?" + rt::log;
    }
}

int main()
{
    std::string line;
    std::unique_ptr<IRoot> roots[4];
    std::size_t slot = 0;
    std::string buf;
    while (std::getline(std::cin, line)) {
        auto& root = roots[slot];
        std::istringstream is{line};
        std::string cmd;
        is >> cmd;
        std::string out;
        auto rest = [&] {
            std::vector<std::string> v;
            std::string t;
            while (is >> t) {
                v.push_back(unhex(t.substr(1)));
            }
            return v;
        };
        if (cmd == "F") {
            unsigned m;
            int how;
            is >> m >> how;
            auto v = rest();
            std::unique_ptr<IRoot> r{make_root(m)};
            out = attempt(*r, how, v);
        } else if (cmd == "N") {
            unsigned m;
            is >> m;
            root.reset(make_root(m));
            out = "OK";
        } else if (cmd == "P") {
            int how;
            is >> how;
            auto v = rest();
            out = attempt(*root, how, v);
        } else if (cmd == "S") {
            is >> slot;
            slot %= 4;
            out = "OK";
        } else if (cmd == "C") {
            root.reset(root->clone());
            out = "OK";
        } else if (cmd == "L" || cmd == "I") {
            std::string h;
            is >> h;
            if (cmd == "L") {
                rt::lang = unhex(h.substr(1));
                out = "OK";
            } else {
                const auto l = ar::multi_lang::iso_locale(unhex(h.substr(1)));
                out = "x" + rt::hex({l.data(), l.size()});
            }
        } else if (cmd == "W") {
            is >> columns;
            out = "OK";
        } else if (cmd == "X") {
            unsigned m;
            is >> m;
            auto v = rest();
            out = child(m, v);
        } else if (cmd == "H" || cmd == "h") {
            try {
                if (cmd == "H") {
                    unsigned m;
                    is >> m;
                    std::unique_ptr<IRoot> r{make_root(m)};
                    out = "HE " + rt::hex(r->help());
                } else {
                    out = "HE " + rt::hex(root->help());
                }
            } catch (std::exception& e) {
                out = "UE " + rt::hex(e.what());
            }
#ifdef RT_EXACT
        } else if (cmd == "K") {
            for (auto& r : roots) {
                r.reset();
            }
            out = __lsan_do_recoverable_leak_check() ? "LEAK" : "OK";
#endif
        } else {
            out = "??";
        }
        out += "\n";
        const char* p = out.data();
        std::size_t n = out.size();
        while (n) {
            auto w = ::write(1, p, n);
            if (w <= 0) {
                return 3;
            }
            p += w;
            n -= std::size_t(w);
        }
    }
    return 0;
}
