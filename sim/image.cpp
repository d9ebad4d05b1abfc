// Loads copies of the real library, snapshots and restores their memory, and receives the instrumentation
// callbacks that turn every memory access of library code into a possible preemption point.
#include "world.hpp"

Image g_img[MAXVAR][SLOTS];
int g_nvar = 0;
bool g_stmAny = false;
Image *g_pendImg = nullptr;
static std::vector<Image *> stmImages;
int g_loadingVariant = -1;
std::vector<u32> g_edgeCount(MAXVAR, 0);
u8 *g_edgeHit = nullptr; // MAXVAR * 65536, shared between workers

struct Find
{
    Image *im;
    const char *base;
};
static int phdr(struct dl_phdr_info *i, size_t, void *d)
{
    Find *f = (Find *)d;
    if ((const char *)i->dlpi_addr != f->base)
        return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
    {
        const ElfW(Phdr) &p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD)
            continue;
        char *e = (char *)i->dlpi_addr + p.p_vaddr + p.p_memsz;
        if (e > f->im->end)
            f->im->end = e;
        if (p.p_flags & PF_W)
            f->im->segs.push_back({(char *)i->dlpi_addr + p.p_vaddr, (size_t)p.p_memsz, {}});
    }
    return 1;
}

__attribute__((no_sanitize("address", "undefined"))) static void rawCopy(volatile char *d, const volatile char *s, size_t n)
{
    while (n >= 8 && ((uintptr_t)d & 7) == 0 && ((uintptr_t)s & 7) == 0)
    {
        *(volatile u64 *)d = *(const volatile u64 *)s;
        d += 8;
        s += 8;
        n -= 8;
    }
    while (n--)
        *d++ = *s++;
}

bool Image::load(const std::string &path)
{
    h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h)
    {
        fprintf(stderr, "cannot load %s: %s\n", path.c_str(), dlerror());
        return false;
    }
#define SYM(f, n) *(void **)(&f) = dlsym(h, n); if (!f) { fprintf(stderr, "%s: no symbol %s\n", path.c_str(), n); return false; }
    SYM(master_req, "g_master_req")
    SYM(master_init, "g_master_init")
    SYM(master_poll, "g_master_poll")
    SYM(master_tick, "g_master_tick")
    SYM(slave_init, "g_slave_init")
    SYM(slave_poll, "g_slave_poll")
    SYM(reg, "g_reg")
    SYM(isr_rx, "g_isr_rx")
    SYM(rx_len, "g_rx_len")
    SYM(isr_t15, "g_isr_t15")
    SYM(isr_t35, "g_isr_t35")
    SYM(isr_ferr, "g_isr_ferr")
    SYM(isr_txdone, "g_isr_txdone")
    SYM(tx_byte, "g_tx_byte")
    SYM(cfg, "g_cfg")
    SYM(en, "g_enum")
    SYM(self, "g_self")
    if (int *role = (int *)dlsym(h, "g_stm"))
    {
        void *lo, *hi;
        SYM(lo, "g_hw_lo")
        SYM(hi, "g_hw_hi")
        SYM(hw_settle, "g_hw_settle")
        SYM(hw_access, "g_hw_access")
        SYM(hw_rxon, "g_hw_rxon")
        SYM(hw_rx, "g_hw_rx")
        SYM(hw_rto_bits, "g_hw_rto_bits")
        SYM(hw_rto, "g_hw_rto")
        SYM(hw_shifted, "g_hw_shifted")
        SYM(hw_timexp, "g_hw_timexp")
        SYM(hw_pending, "g_hw_pending")
        SYM(hw_masked, "g_hw_masked")
        SYM(hw_call, "g_hw_call")
        SYM(hw_line, "g_hw_line")
        SYM(hw_len, "g_hw_len")
        SYM(hw_sync, "g_hw_sync")
        stm = *role;
        hwLo = *(char **)lo;
        hwHi = *(char **)hi;
        stmImages.push_back(this);
        g_stmAny = true;
    }
    struct link_map *lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    base = (char *)lm->l_addr;
    Find f{this, base};
    dl_iterate_phdr(phdr, &f);
    for (auto &s : segs)
    {
        s.n = (s.n + 7) & ~(size_t)7; // stays inside the mapped page
        s.snap.resize(s.n);
        rawCopy(s.snap.data(), s.p, s.n);
    }
    return true;
}

void Image::restore()
{
    for (auto &s : segs)
        rawCopy(s.p, s.snap.data(), s.n);
}

static inline void hook(void *pc, void *adr, int store)
{
    if (g_isrNode && store)
        g_isrNode->racyAdd(adr);
    if (g_pendImg)
    {
        Image *p = g_pendImg;
        g_pendImg = nullptr;
        p->hw_settle();
        if (g_hookOn && W && W->cur)
            W->stormWait(*W->cur);
    }
    if (g_hookOn && W && W->cur)
    {
        Node &n = *W->cur;
        char *c = (char *)pc;
        Image *im = n.img[0];
        if ((c < im->base || c >= im->end) && n.img[1])
            im = n.img[1];
        n.spinning(adr);
        W->onAccess((u64)(c - im->base), adr);
        if (g_stmAny)
            W->stormWait(n);
    }
    if (g_stmAny)
        for (Image *p : stmImages)
            if ((char *)adr >= p->hwLo && (char *)adr < p->hwHi)
            {
                p->hw_access(adr, store);
                g_pendImg = p;
            }
}

extern "C"
{
    void __sanitizer_cov_trace_pc_guard_init(u32 *start, u32 *stop)
    {
        if (start == stop || *start || g_loadingVariant < 0)
            return;
        u32 i = 0;
        for (u32 *p = start; p < stop; p++, i++)
            *p = g_loadingVariant * 65536 + std::min<u32>(i + 1, 65535);
        g_edgeCount[g_loadingVariant] = i;
    }
    void __sanitizer_cov_trace_pc_guard(u32 *g)
    {
        if (*g && g_edgeHit)
            g_edgeHit[*g] = 1;
    }
#define LS(n)                                                                                  \
    void __sanitizer_cov_load##n(void *a) { hook(__builtin_return_address(0), a, 0); }         \
    void __sanitizer_cov_store##n(void *a) { hook(__builtin_return_address(0), a, 1); }
    LS(1)
    LS(2)
    LS(4)
    LS(8)
    LS(16)
}
