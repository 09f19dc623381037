// Core of the monitoring harness: deterministic randomness, case context, fault injection, reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace tp {

using Bytes = std::string;

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1)
        : s(seed)
    {
        next();
    }
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n)
    {
        return n ? next() % n : 0;
    }
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi)
    {
        return lo + below(hi - lo + 1);
    }
    bool chance(unsigned percent)
    {
        return below(100) < percent;
    }
    bool coin()
    {
        return next() & 1;
    }
    template <class C> const auto &pick(const C &c)
    {
        return *(std::begin(c) + static_cast<std::ptrdiff_t>(below(std::size(c))));
    }
    template <class T> T pick(std::initializer_list<T> c)
    {
        return *(c.begin() + below(c.size()));
    }
    Bytes bytes(std::size_t n)
    {
        Bytes r(n, '\0');
        for (auto &c : r)
            c = static_cast<char>(next());
        return r;
    }
    // bytes which are distinctive (no zero run, no sync words); used as media payload
    Bytes payload(std::size_t n)
    {
        Bytes r(n, '\0');
        for (auto &c : r)
            c = static_cast<char>(1 + below(250));
        return r;
    }
    // size with a bias to small values and to boundaries
    std::uint64_t size(std::uint64_t max);
    Rng fork()
    {
        return Rng(next());
    }
};

std::uint64_t fnv(std::string_view data, std::uint64_t h = 1469598103934665603ull);

// thrown to end a case early (after recording a failure, or because the case turned out inapplicable)
struct EndCase { };

struct Ctx {
    std::string prop;
    std::uint64_t seed = 1, idx = 0;
    bool thorough = false;
    Rng rng;
    std::string dir; // scratch directory of the worker (emptied before each case)
    // results
    struct Failure {
        std::string key, msg;
    };
    std::vector<Failure> failures;
    std::set<std::string> cov;
    std::string desc;
    std::uint64_t sig = 0;
    bool nontrivial = false;
    std::map<std::string, std::uint64_t> counts;
    std::vector<std::pair<std::string, Bytes>> artifacts;

    void fail(std::string key, std::string msg);
    [[noreturn]] void failNow(std::string key, std::string msg)
    {
        fail(std::move(key), std::move(msg));
        throw EndCase();
    }
    void cover(std::string feature)
    {
        if (cov.size() < 400)
            cov.insert(std::move(feature));
    }
    void count(const std::string &what, std::uint64_t n = 1)
    {
        counts[what] += n;
    }
    void note(std::string_view text)
    {
        if (desc.size() < 4000)
            desc += text;
    }
    void mix(std::string_view data)
    {
        sig = fnv(data, sig ? sig : 1469598103934665603ull);
    }
    void mix(std::uint64_t v)
    {
        mix(std::string_view(reinterpret_cast<const char *>(&v), sizeof v));
    }
    void artifact(std::string name, Bytes data)
    {
        artifacts.emplace_back(std::move(name), std::move(data));
    }
    std::string path(std::string_view name) const
    {
        return dir + "/" + std::string(name);
    }
};

using CaseFn = void (*)(Ctx &);
struct PropReg {
    const char *id;
    CaseFn fn;
    PropReg(const char *id, CaseFn fn);
};
const std::map<std::string, CaseFn> &registry();

// file helpers (not using the library)
Bytes readFile(const std::string &path);
bool fileExists(const std::string &path);
void writeFile(const std::string &path, std::string_view data);
std::vector<std::string> listDir(const std::string &path);
void emptyDir(const std::string &path);
std::string hex(std::string_view data, std::size_t max = 64);
std::string quote(std::string_view data, std::size_t max = 200);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// I/O monitor: counts and faults for read/write/lseek done by the library (calls made in monitored scope only)
struct IoMon {
    bool active = false;
    std::uint64_t reads = 0, readBytes = 0, writes = 0, writeBytes = 0, seeks = 0;
    std::int64_t failWriteAtByte = -1; // the write crossing this many bytes fails with errno
    bool shortWrite = true; // write what fits before failing
    int failErrno = 28; // ENOSPC
    bool sticky = true;
    bool tripped = false;
    std::int64_t failReadAtByte = -1;
    bool readTripped = false;
    std::function<void()> onOp; // called on every operation
    std::function<int(const char *call, const char *path)> onCall; // called for fopen, rename, truncate, remove; returns errno to fail with
    void reset()
    {
        *this = IoMon();
    }
};
extern IoMon iomon;
struct IoScope {
    IoScope()
    {
        iomon.active = true;
    }
    ~IoScope()
    {
        iomon.active = false;
    }
};
// allocation monitor
struct AllocMon {
    bool active = false;
    std::uint64_t maxSingle = 0, total = 0, count = 0, live = 0, peak = 0;
};
extern AllocMon allocmon;

} // namespace tp
