// Basic types, PRNG, hashing, CRC model and the loader for images of the real library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <csetjmp>
#include <exception>
#include <dlfcn.h>
#include <link.h>

typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

static inline u64 mix64(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline u64 h2(u64 a, u64 b) { return mix64(mix64(a) ^ (b * 0xD6E8FEB86659FD93ull + 0x1234567)); }
static inline u64 h3(u64 a, u64 b, u64 c) { return h2(h2(a, b), c); }
static inline u64 h4(u64 a, u64 b, u64 c, u64 d) { return h2(h3(a, b, c), d); }

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0xA5A5A5A5DEADBEEFull)) {}
    u64 next()
    {
        s += 0x9E3779B97F4A7C15ull;
        u64 x = s;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    i64 below(i64 n) { return n <= 0 ? 0 : (i64)(next() % (u64)n); }
    i64 range(i64 a, i64 b) { return a + below(b - a + 1); } // inclusive
    bool pct(int p) { return (i64)(next() % 100) < p; }
    bool permille(int p) { return (i64)(next() % 1000) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// CRC-16/MODBUS, bitwise: deliberately not the library's table
static inline u16 crcStep(u16 c, u8 b)
{
    c ^= b;
    for (int i = 0; i < 8; i++)
        c = c & 1 ? (c >> 1) ^ 0xA001 : c >> 1;
    return c;
}
static inline u16 crc16(const u8 *p, size_t n)
{
    static u16 tab[256];
    static bool init = false;
    if (!init)
    {
        for (int i = 0; i < 256; i++)
        {
            u16 c = i;
            for (int k = 0; k < 8; k++)
                c = (c & 1) ? (c >> 1) ^ 0xA001 : c >> 1;
            tab[i] = c;
        }
        init = true;
    }
    u16 c = 0xFFFF;
    while (n--)
        c = (c >> 8) ^ tab[(c ^ *p++) & 0xFF];
    return c;
}
static inline void addCrc(Bytes &b)
{
    u16 c = crc16(b.data(), b.size());
    b.push_back(c & 0xFF);
    b.push_back(c >> 8);
}
static inline bool crcOk(const Bytes &b)
{
    if (b.size() < 4)
        return false;
    u16 c = crc16(b.data(), b.size() - 2);
    return b[b.size() - 2] == (c & 0xFF) && b[b.size() - 1] == (c >> 8);
}
static inline int be16(const u8 *p) { return (p[0] << 8) | p[1]; }
static inline void put16(Bytes &b, int v)
{
    b.push_back((v >> 8) & 0xFF);
    b.push_back(v & 0xFF);
}
static inline std::string hex(const Bytes &b)
{
    std::string s;
    char t[4];
    for (u8 c : b)
    {
        snprintf(t, sizeof t, "%02x", c);
        s += t;
    }
    return s.empty() ? "-" : s;
}
static inline Bytes unhex(const std::string &s)
{
    Bytes b;
    if (s == "-")
        return b;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        b.push_back((u8)strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return b;
}
static inline std::string sfmt(const char *f, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// a 16 bit data value: style 0 evenly random, 1 now and then, 2 mostly one of the values that code likes to treat specially
extern u64 g_palette; // not 0: registers hold and get no more than a few different values
static inline u16 dataValue(u64 h, int style)
{
    if (g_palette)
        return (u16)(g_palette >> (16 * (h % 3)));
    static const u16 corner[] = {0, 0xFFFF, 0x00FF, 0xFF00, 1, 0x0100, 0x8000, 0x7FFF, 0x0080, 0x8001, 0xFEFF, 0xFFFE, 0x0102, 0x0306, 0x0F10, 0x0055};
    u16 v = (u16)(h >> 8);
    if ((style == 1 && (h >> 24) % 7 == 0) || (style == 2 && (h >> 24) % 7))
        return corner[(h >> 32) % ((h >> 40) % 3 ? 4 : 16)];
    return v;
}

// ------------------------------------------------------------------------------------------------
// images
enum { ROLE_M = 0, ROLE_S = 1 };
static const int MAXVAR = 6, SLOTS = 6;

struct Image
{
    int variant = -1, slot = -1;
    void *h = nullptr;
    char *base = nullptr, *end = nullptr;
    struct Seg { char *p; size_t n; std::vector<char> snap; };
    std::vector<Seg> segs;
    int (*master_req)(int, int, int, int, u16 *, bool *, int) = nullptr;
    void (*master_init)(unsigned, int, int) = nullptr; // baud, parity, 1 = unsupported mode
    void (*master_poll)() = nullptr;
    void (*master_tick)() = nullptr;
    void (*slave_init)(unsigned, int, int, int) = nullptr;
    void (*slave_poll)() = nullptr;
    void (*reg)(int, int, void *) = nullptr;
    int (*isr_rx)(int, int) = nullptr;
    void *(*rx_len)(int) = nullptr;
    void (*isr_t15)(int) = nullptr;
    void (*isr_t35)(int) = nullptr;
    void (*isr_ferr)(int) = nullptr;
    void (*isr_txdone)(int) = nullptr;
    int (*tx_byte)(int, int) = nullptr;
    const int *cfg = nullptr;
    const int *en = nullptr;
    void **self = nullptr;
    // present when a real driver of the repository runs on emulated hardware in this image (see stm/hw.c)
    int stm = -1; // role of that driver
    char *hwLo = nullptr, *hwHi = nullptr;
    void (*hw_settle)() = nullptr;
    void (*hw_access)(void *, int) = nullptr;
    int (*hw_rxon)() = nullptr;
    int (*hw_rx)(int) = nullptr;
    int (*hw_rto_bits)() = nullptr;
    void (*hw_rto)() = nullptr;
    void (*hw_shifted)() = nullptr;
    void (*hw_timexp)() = nullptr;
    int (*hw_pending)() = nullptr;
    int (*hw_masked)() = nullptr;
    void (*hw_call)(int) = nullptr;
    int (*hw_line)(int) = nullptr;
    int (*hw_len)() = nullptr;
    void (*hw_sync)() = nullptr;

    bool load(const std::string &path);
    void restore();
};

extern Image g_img[MAXVAR][SLOTS];
extern int g_nvar;
extern bool g_stmAny;   // some loaded image contains a real driver
extern Image *g_pendImg; // image with a register access whose effect has not been applied yet
extern int g_loadingVariant;
extern std::vector<u32> g_edgeCount; // per variant: number of edges
