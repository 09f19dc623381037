// Entry point: runs a range of cases of one property; the driver (tools/check.py) watches, restarts and aggregates.
#include "core.h"
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#if defined(__has_include)
#if __has_include(<sanitizer/common_interface_defs.h>)
#include <sanitizer/common_interface_defs.h>
#endif
#endif

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define TP_STACK_TRACE() __sanitizer_print_stack_trace()
#endif
#endif
#ifndef TP_STACK_TRACE
#define TP_STACK_TRACE() (void)0
#endif

using namespace tp;

#ifndef TP_NO_MAIN

static int outFd = -1;
static std::string esc(std::string_view s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += static_cast<char>(c);
    }
    return r;
}
static void emit(const std::string &line)
{
    std::string l = line + "\n";
    syscall(SYS_write, outFd, l.data(), l.size());
}

static void onProf(int)
{
    static const char msg[] = "TPCHECK-HANG: CPU budget of the case used up\n";
    syscall(SYS_write, 2, msg, sizeof msg - 1);
    TP_STACK_TRACE();
    _exit(97);
}

static void onRunaway(int)
{
    static const char msg[] = "TPCHECK-RUNAWAY: file written by the case exceeds the size limit\n";
    syscall(SYS_write, 2, msg, sizeof msg - 1);
    TP_STACK_TRACE();
    _exit(96);
}

int main(int argc, char **argv)
{
    std::string prop, out, dir, artdir;
    std::uint64_t seed = 1, from = 0, to = 1, step = 1;
    unsigned cpu = 60;
    bool thorough = false, verbose = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop")
            prop = val();
        else if (a == "--seed")
            seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--from")
            from = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--to")
            to = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--step")
            step = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out")
            out = val();
        else if (a == "--dir")
            dir = val();
        else if (a == "--artifacts")
            artdir = val();
        else if (a == "--cpu")
            cpu = static_cast<unsigned>(atoi(val().c_str()));
        else if (a == "--thorough")
            thorough = true;
        else if (a == "-v")
            verbose = true;
        else if (a == "--list") {
            for (const auto &r : registry())
                printf("%s\n", r.first.c_str());
            return 0;
        }
    }
    auto it = registry().find(prop);
    if (it == registry().end()) {
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        return 3;
    }
    outFd = out.empty() ? 1 : open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (outFd < 0 || dir.empty()) {
        fprintf(stderr, "bad --out/--dir\n");
        return 3;
    }
    mkdir(dir.c_str(), 0755);
    signal(SIGPROF, onProf);
    // a runaway write ends the case (and is reported with its stack) before it can fill the scratch file system
    signal(SIGXFSZ, onRunaway);
    struct rlimit rl { };
    rl.rlim_cur = 96u << 20;
    rl.rlim_max = 512u << 20;
    setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGPIPE, SIG_IGN);
    for (std::uint64_t i = from; i < to; i += step) {
        emit("{\"start\":" + std::to_string(i) + "}");
        emptyDir(dir);
        Ctx c;
        c.prop = prop;
        c.seed = seed;
        c.idx = i;
        c.thorough = thorough;
        c.dir = dir;
        c.rng = Rng(fnv(prop) ^ (seed * 0x9E3779B97F4A7C15ull) ^ (i * 0xD1B54A32D192ED03ull));
        struct itimerval tv { };
        tv.it_value.tv_sec = cpu;
        setitimer(ITIMER_PROF, &tv, nullptr);
        iomon.reset();
        allocmon = AllocMon();
        std::string harnessError;
        try {
            it->second(c);
        } catch (const EndCase &) {
        } catch (const std::exception &e) {
            // exceptions the checks did not expect from the library
            c.fail(std::string("unexpected-exception:") + typeid(e).name(), std::string("unexpected exception: ") + e.what());
        }
        iomon.reset();
        allocmon = AllocMon();
        tv.it_value.tv_sec = 0;
        setitimer(ITIMER_PROF, &tv, nullptr);
        std::string l = "{\"i\":" + std::to_string(i) + ",\"sig\":\"" + strf("%016llx", static_cast<unsigned long long>(c.sig)) + "\",\"nt\":" + (c.nontrivial ? "true" : "false");
        l += ",\"cov\":[";
        bool first = true;
        for (const auto &f : c.cov) {
            l += std::string(first ? "" : ",") + "\"" + esc(f) + "\"";
            first = false;
        }
        l += "],\"counts\":{";
        first = true;
        for (const auto &f : c.counts) {
            l += std::string(first ? "" : ",") + "\"" + esc(f.first) + "\":" + std::to_string(f.second);
            first = false;
        }
        l += "},\"fails\":[";
        first = true;
        for (const auto &f : c.failures) {
            l += std::string(first ? "" : ",") + "{\"key\":\"" + esc(f.key) + "\",\"msg\":\"" + esc(f.msg.substr(0, 3000)) + "\"}";
            first = false;
        }
        l += "]";
        if (i < from + step * 2 || !c.failures.empty() || verbose)
            l += ",\"desc\":\"" + esc(c.desc) + "\"";
        l += "}";
        emit(l);
        if (!c.failures.empty() && !artdir.empty()) {
            mkdir(artdir.c_str(), 0755);
            for (const auto &a : c.artifacts)
                writeFile(artdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(i) + "-" + a.first, a.second);
        }
    }
    emptyDir(dir);
    emit("{\"done\":true}");
    return 0;
}
#endif
