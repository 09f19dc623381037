#include <dlfcn.h>
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace tp {

IoMon iomon;
AllocMon allocmon;

std::uint64_t Rng::size(std::uint64_t max)
{
    switch (below(6)) {
    case 0:
        return below(std::min<std::uint64_t>(max, 4) + 1);
    case 1:
    case 2:
        return below(std::min<std::uint64_t>(max, 40) + 1);
    case 3: {
        static const std::uint64_t b[] = { 126, 127, 128, 129, 254, 255, 256, 257, 509, 510, 511, 512, 1023, 1024, 4095, 4096, 16382, 16383, 16384, 65024, 65025, 65026, 65535, 65536 };
        auto v = b[below(sizeof b / sizeof *b)];
        return std::min(v, max);
    }
    default:
        return below(max + 1);
    }
}

std::uint64_t fnv(std::string_view data, std::uint64_t h)
{
    for (unsigned char c : data)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

void Ctx::fail(std::string key, std::string msg)
{
    for (const auto &f : failures)
        if (f.key == key)
            return; // one report per kind and case
    if (failures.size() < 20)
        failures.push_back({ std::move(key), std::move(msg) });
}

static std::map<std::string, CaseFn> &reg()
{
    static std::map<std::string, CaseFn> r;
    return r;
}
PropReg::PropReg(const char *id, CaseFn fn)
    : id(id)
    , fn(fn)
{
    reg()[id] = fn;
}
const std::map<std::string, CaseFn> &registry()
{
    return reg();
}

Bytes readFile(const std::string &path)
{
    Bytes r;
    int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
    if (fd < 0)
        throw std::runtime_error("harness: cannot read " + path);
    struct stat st;
    fstat(fd, &st);
    r.resize(static_cast<std::size_t>(st.st_size));
    std::size_t off = 0;
    while (off < r.size()) {
        auto n = syscall(SYS_read, fd, r.data() + off, r.size() - off);
        if (n <= 0)
            break;
        off += static_cast<std::size_t>(n);
    }
    r.resize(off);
    ::close(fd);
    return r;
}
bool fileExists(const std::string &path)
{
    struct stat st;
    return ::lstat(path.c_str(), &st) == 0;
}
void writeFile(const std::string &path, std::string_view data)
{
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    if (fd < 0)
        throw std::runtime_error("harness: cannot write " + path);
    std::size_t off = 0;
    while (off < data.size()) {
        auto n = syscall(SYS_write, fd, data.data() + off, data.size() - off);
        if (n <= 0) {
            ::close(fd);
            throw std::runtime_error("harness: cannot write " + path);
        }
        off += static_cast<std::size_t>(n);
    }
    ::close(fd);
}
std::vector<std::string> listDir(const std::string &path)
{
    std::vector<std::string> r;
    if (DIR *d = opendir(path.c_str())) {
        while (auto *e = readdir(d)) {
            std::string n = e->d_name;
            if (n != "." && n != "..")
                r.push_back(n);
        }
        closedir(d);
    }
    std::sort(r.begin(), r.end());
    return r;
}
void emptyDir(const std::string &path)
{
    for (const auto &n : listDir(path)) {
        auto p = path + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            chmod(p.c_str(), 0755);
            emptyDir(p);
            rmdir(p.c_str());
        } else {
            unlink(p.c_str());
        }
    }
}
std::string hex(std::string_view data, std::size_t max)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (std::size_t i = 0; i < data.size() && i < max; ++i) {
        r += d[static_cast<unsigned char>(data[i]) >> 4];
        r += d[data[i] & 15];
    }
    if (data.size() > max)
        r += "...(" + std::to_string(data.size()) + ")";
    return r;
}
std::string quote(std::string_view data, std::size_t max)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < data.size() && i < max; ++i) {
        unsigned char c = static_cast<unsigned char>(data[i]);
        if (c < 32 || c == '"' || c == '\\' || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        } else
            r += static_cast<char>(c);
    }
    r += '"';
    if (data.size() > max)
        r += "...(" + std::to_string(data.size()) + ")";
    return r;
}
std::string strf(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

} // namespace tp

#if !defined(__SANITIZE_THREAD__) && !(defined(__has_feature) && __has_feature(thread_sanitizer))
using tp::iomon;
extern "C" {
__attribute__((visibility("default"))) ssize_t read(int fd, void *buf, size_t n)
{
    if (iomon.active && fd > 2) {
        ++iomon.reads;
        if (iomon.onOp)
            iomon.onOp();
        if (iomon.failReadAtByte >= 0 && iomon.readBytes + n > static_cast<std::uint64_t>(iomon.failReadAtByte)) {
            iomon.readTripped = true;
            errno = EIO;
            return -1;
        }
    }
    auto r = syscall(SYS_read, fd, buf, n);
    if (iomon.active && fd > 2 && r > 0)
        iomon.readBytes += static_cast<std::uint64_t>(r);
    return r;
}
static ssize_t monWrite(int fd, const char *buf, size_t n)
{
    if (iomon.active && fd > 2) {
        ++iomon.writes;
        if (iomon.onOp)
            iomon.onOp();
        if (iomon.tripped && iomon.sticky) {
            errno = iomon.failErrno;
            return -1;
        }
        if (iomon.failWriteAtByte >= 0 && iomon.writeBytes + n > static_cast<std::uint64_t>(iomon.failWriteAtByte)) {
            iomon.tripped = true;
            auto fit = static_cast<std::uint64_t>(iomon.failWriteAtByte) - iomon.writeBytes;
            if (!iomon.sticky)
                iomon.failWriteAtByte = -1;
            if (iomon.shortWrite && fit > 0) {
                auto r = syscall(SYS_write, fd, buf, fit);
                if (r > 0)
                    iomon.writeBytes += static_cast<std::uint64_t>(r);
                if (!iomon.sticky)
                    iomon.failWriteAtByte = static_cast<std::int64_t>(iomon.writeBytes);
                return r;
            }
            errno = iomon.failErrno;
            return -1;
        }
    }
    auto r = syscall(SYS_write, fd, buf, n);
    if (iomon.active && fd > 2 && r > 0)
        iomon.writeBytes += static_cast<std::uint64_t>(r);
    return r;
}
__attribute__((visibility("default"))) ssize_t write(int fd, const void *buf, size_t n)
{
    return monWrite(fd, static_cast<const char *>(buf), n);
}
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec *iov, int cnt)
{
    if (!(iomon.active && fd > 2))
        return syscall(SYS_writev, fd, iov, cnt);
    ssize_t total = 0;
    for (int i = 0; i < cnt; ++i) {
        if (!iov[i].iov_len)
            continue;
        auto r = monWrite(fd, static_cast<const char *>(iov[i].iov_base), iov[i].iov_len);
        if (r < 0)
            return total ? total : r;
        total += r;
        if (static_cast<size_t>(r) < iov[i].iov_len)
            break;
    }
    return total;
}
__attribute__((visibility("default"))) off_t lseek(int fd, off_t off, int whence) noexcept
{
    if (iomon.active && fd > 2) {
        ++iomon.seeks;
        if (iomon.onOp)
            iomon.onOp();
    }
    return syscall(SYS_lseek, fd, off, whence);
}
static bool failCall(const char *call, const char *path)
{
    if (!iomon.active || !iomon.onCall)
        return false;
    if (auto e = iomon.onCall(call, path)) {
        errno = e;
        return true;
    }
    return false;
}
__attribute__((visibility("default"))) FILE *fopen(const char *path, const char *mode)
{
    static auto real = reinterpret_cast<FILE *(*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen"));
    return failCall(strchr(mode, 'w') || strchr(mode, '+') || strchr(mode, 'a') ? "fopen-write" : "fopen-read", path) ? nullptr : real(path, mode);
}
__attribute__((visibility("default"))) FILE *fopen64(const char *path, const char *mode)
{
    return fopen(path, mode);
}
__attribute__((visibility("default"))) int rename(const char *from, const char *to) noexcept
{
    return failCall("rename", from) ? -1 : static_cast<int>(syscall(SYS_rename, from, to));
}
__attribute__((visibility("default"))) int truncate(const char *path, off_t size) noexcept
{
    return failCall("truncate", path) ? -1 : static_cast<int>(syscall(SYS_truncate, path, size));
}
__attribute__((visibility("default"))) int remove(const char *path) noexcept
{
    static auto real = reinterpret_cast<int (*)(const char *)>(dlsym(RTLD_NEXT, "remove"));
    return failCall("remove", path) ? -1 : real(path);
}
__attribute__((visibility("default"))) off_t lseek64(int fd, off_t off, int whence) noexcept
{
    return lseek(fd, off, whence);
}
}
#if defined(__has_feature) && __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
static void onMalloc(const volatile void *, size_t n)
{
    auto &m = tp::allocmon;
    if (m.active) {
        ++m.count;
        m.total += n;
        if (n > m.maxSingle)
            m.maxSingle = n;
        m.live += n;
        if (m.live > m.peak)
            m.peak = m.live;
    }
}
static void onFree(const volatile void *p)
{
    auto &m = tp::allocmon;
    if (m.active && p) {
        auto n = __sanitizer_get_allocated_size(p);
        m.live = m.live > n ? m.live - n : 0;
    }
}
__attribute__((constructor)) static void installHooks()
{
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
}
#endif
#endif
