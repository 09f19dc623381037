// Byte writers/readers used by the generators and independent readers.
#pragma once
#include "core.h"
namespace tp {
struct W {
    Bytes b;
    W &u8(std::uint64_t v)
    {
        b += static_cast<char>(v);
        return *this;
    }
    W &be(std::uint64_t v, int n)
    {
        for (int i = n - 1; i >= 0; --i)
            b += static_cast<char>(v >> (8 * i));
        return *this;
    }
    W &le(std::uint64_t v, int n)
    {
        for (int i = 0; i < n; ++i)
            b += static_cast<char>(v >> (8 * i));
        return *this;
    }
    W &be16(std::uint64_t v) { return be(v, 2); }
    W &be24(std::uint64_t v) { return be(v, 3); }
    W &be32(std::uint64_t v) { return be(v, 4); }
    W &be64(std::uint64_t v) { return be(v, 8); }
    W &le16(std::uint64_t v) { return le(v, 2); }
    W &le32(std::uint64_t v) { return le(v, 4); }
    W &le64(std::uint64_t v) { return le(v, 8); }
    W &s(std::string_view v)
    {
        b += v;
        return *this;
    }
    W &zero(std::size_t n)
    {
        b.append(n, '\0');
        return *this;
    }
};
inline std::uint64_t rbe(std::string_view d, std::size_t off, int n)
{
    std::uint64_t v = 0;
    if (off + n > d.size())
        throw std::out_of_range("rbe");
    for (int i = 0; i < n; ++i)
        v = (v << 8) | static_cast<unsigned char>(d[off + i]);
    return v;
}
inline std::uint64_t rle(std::string_view d, std::size_t off, int n)
{
    std::uint64_t v = 0;
    if (off + n > d.size())
        throw std::out_of_range("rle");
    for (int i = n - 1; i >= 0; --i)
        v = (v << 8) | static_cast<unsigned char>(d[off + i]);
    return v;
}
inline void wbe(Bytes &d, std::size_t off, std::uint64_t v, int n)
{
    for (int i = n - 1; i >= 0; --i)
        d[off + static_cast<std::size_t>(n - 1 - i)] = static_cast<char>(v >> (8 * i));
}
// thrown by the independent readers on malformed structure
struct Malformed : std::runtime_error {
    using std::runtime_error::runtime_error;
};
} // namespace tp
