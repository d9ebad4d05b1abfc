#include "world.hpp"
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

World *W = nullptr;
bool g_hookOn = false;
bool g_racy = false;
Node *g_isrNode = nullptr;

static const i64 US = 1000, MS = 1000000;
static const int readKind[5] = {-1, 0, 1, 3, 2}; // function code -> object kind (0 coil 1 din 2 inreg 3 hreg)
static int fcKind(int fc)
{
    switch (fc)
    {
    case 1: case 5: case 15: return 0;
    case 2: return 1;
    case 4: return 2;
    default: return 3;
    }
}
static int kindTab(int kind) { return kind; } // table numbering equals kind numbering

u64 g_palette = 0;

World::World(const Plan &p, u32 targetTags, bool verb, bool splitImages) : pl(p), verbose(verb), target(targetTags), split(splitImages)
{
    memset(slotUsed, 0, sizeof slotUsed);
    g_palette = pl.palette;
    for (auto &bc : pl.bus)
    {
        Bus b;
        b.baud = bc.baud;
        b.ch = 11ll * 1000000000ll / bc.baud;
        if (bc.baud <= 19200)
        {
            b.t15 = b.ch * 3 / 2;
            b.t35 = b.ch * 7 / 2;
        }
        else
        {
            b.t15 = 750 * US;
            b.t35 = 1750 * US;
        }
        bus.push_back(b);
    }
    node.resize(pl.node.size());
    for (size_t i = 0; i < node.size(); i++)
    {
        Node &n = node[i];
        n.id = (int)i;
        n.c = pl.node[i];
        n.period = n.c.periodUs * US;
        auto takeSlot = [&]() {
            int v = n.c.variant % g_nvar;
            for (int s = 0; s < SLOTS; s++)
                if (!slotUsed[v][s] && g_img[v][s].h)
                {
                    slotUsed[v][s] = true;
                    return &g_img[v][s];
                }
            fprintf(stderr, "out of image slots\n");
            exit(3);
        };
        auto addPort = [&](int role, int b, bool stub) {
            Port po;
            po.id = (int)port.size();
            po.node = n.id;
            po.role = role;
            po.bus = b;
            po.stub = stub;
            po.sid = n.c.sid;
            po.stm = !stub && g_img[n.c.variant % g_nvar][0].stm == role;
            if (po.stm)
                n.c.cancelOnSend[role] = role == ROLE_M;
            port.push_back(po);
            bus[b].ports.push_back(po.id);
            return po.id;
        };
        if (n.c.roles & 1)
            n.port[0] = addPort(ROLE_M, n.c.mbus, false);
        if (n.c.roles & 2)
        {
            n.port[1] = addPort(ROLE_S, n.c.sbus, false);
            bus[n.c.sbus].nslaves++;
        }
        if (n.c.roles & 4)
        {
            n.port[1] = addPort(ROLE_S, n.c.sbus, true);
            bus[n.c.sbus].nslaves++;
        }
        if (n.c.roles & 3)
        {
            n.img[0] = takeSlot();
            n.img[1] = n.img[0];
            if (split && (n.c.roles & 3) == 3)
                n.img[1] = takeSlot();
        }
        n.s.sid = n.c.sid;
        if (n.c.roles & 2)
        {
            const int *cfg = n.img[1]->cfg;
            int sz[4] = {cfg[3], cfg[4], cfg[5], cfg[6]};
            for (int t = 0; t < 4; t++)
            {
                VarTab &v = n.tab[t];
                v.n = sz[t];
                v.size = t < 2 ? 1 : 2;
                v.mem = (u8 *)aligned_alloc(16, ((size_t)v.n * 8 + 31) & ~15ull);
                memset(v.mem, 0, (size_t)v.n * 8 + 8);
                v.mir.resize(v.n);
                v.reg.resize(v.n);
                v.moved.resize(v.n);
                for (int a = 0; a < v.n; a++)
                {
                    if (!v.near(a))
                        continue;
                    v.live.push_back(a);
                    u64 r = h4(n.c.varSeed, t, a, 77);
                    u16 val = t < 2 ? (r & 1) : dataValue(r, (int)(n.c.varSeed % 3));
                    if (t < 2 && n.c.varSeed % 7 == 0)
                        val = n.c.varSeed & 8 ? 1 : 0;
                    v.mir[a] = val;
                    if (t < 2)
                        v.mem[a * 8] = (u8)val;
                    else
                        memcpy(&v.mem[a * 8], &val, 2);
                    v.reg[a] = n.c.regMode == 0 ? 1 : n.c.regMode == 1 ? (r >> 40) % 100 < 96 : (r >> 40) % 100 < 50;
                }
            }
        }
        for (auto &x : pl.pre)
            if (x.node == (int)i)
                n.pre.push_back(x);
        n.pcount = pl.preemptGap ? (i64)(h3(pl.sched, i, 11) % (2 * (u64)pl.preemptGap)) + 1 : 0;
    }
#ifdef SIM_ASAN
    for (auto &n : node)
        for (auto &v : n.tab)
            if (v.mem)
            {
                // each application variable is its own island: touching a neighbouring byte is an error
                ASAN_POISON_MEMORY_REGION(v.mem, (size_t)v.n * 8);
                for (int a : v.live)
                    ASAN_UNPOISON_MEMORY_REGION(&v.mem[a * 8], v.size);
            }
#endif
    for (size_t i = 0; i < pl.items.size(); i++)
    {
        if (pl.items[i].kind == IT_CBREQ)
        {
            int nn = (int)pl.items[i].a[0];
            if (nn < (int)node.size() && (node[nn].c.roles & 1))
                node[nn].cbItems.push_back((int)i);
        }
        else
            push(pl.items[i].t, EV_ITEM, (int)i);
    }
    for (auto &it : pl.items)
        if (it.kind == IT_REINIT && it.a[1] == 1 && it.a[2] > 0)
            sidsChange = true;
    push(pl.tQuiet, EV_CTRL, 0);
    if (pl.endless())
        maxEvents = 60000000;
}

World::~World()
{
    for (auto &n : node)
        for (auto &t : n.tab)
        {
#ifdef SIM_ASAN
            if (t.mem)
                ASAN_UNPOISON_MEMORY_REGION(t.mem, (size_t)t.n * 8);
#endif
            free(t.mem);
        }
}

void World::traceLine(const char *f, ...)
{
    if (!verbose && !keepText)
        return;
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    std::string s = sfmt("%12.3f ms  %s\n", now / 1e6, buf);
    if (keepText)
    {
        traceText += s;
        if (traceText.size() > 3000000) // of very long runs: the beginning and the end
            traceText.replace(60000, 1500000, "\n...\n");
    }
    else
        fputs(s.c_str(), stdout);
}

void World::viol(u32 tags, int nodeId, const char *key, const char *f, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (hwLong && !(tags & P(24)))
        return; // the driver was held up for so long that the library's guarantees are not its concern
    Viol v;
    v.tags = tags;
    v.key = key;
    v.msg = buf;
    v.t = now;
    v.node = nodeId;
    viols.push_back(v);
    mixLog(0x51, tags, now);
    std::string ts;
    for (int i = 1; i < 32; i++)
        if (tags & P(i))
            ts += sfmt("C%02d ", i);
    trace("### VIOLATION [%s] %s: %s", ts.c_str(), key, buf);
    if ((tags & target) || viols.size() > 20)
        stop = true;
}

void World::push(i64 t, int kind, int a, i64 b, u64 g)
{
    Ev e{t, seq++, kind, a, b, g};
    q.push_back(e);
    std::push_heap(q.begin(), q.end());
}

void World::step()
{
    std::pop_heap(q.begin(), q.end());
    Ev e = q.back();
    q.pop_back();
    if (e.t > now)
        now = e.t;
    if (++evCount > maxEvents)
    {
        stop = true;
        return;
    }
    dispatch(e);
}

void World::runUntil(i64 t)
{
    while (!stop && !q.empty() && q.front().t <= t)
        step();
    if (now < t)
        now = t;
}

void World::run()
{
    W = this;
    g_racy = pl.preemptMode == 1 && (pl.preemptStyle & 8);
    g_isrNode = nullptr;
    for (int v = 0; v < MAXVAR; v++)
        for (int s = 0; s < SLOTS; s++)
            if (slotUsed[v][s])
                g_img[v][s].restore();
    for (auto &n : node)
    {
        if (n.c.roles & 3)
            boot(n, true);
        else
            for (int r = 0; r < 2; r++)
                if (n.port[r] >= 0)
                    port[n.port[r]].inited = port[n.port[r]].en = true;
        if (n.c.roles & 1)
            push(n.c.tickPhaseUs * US, EV_TICK, n.id);
    }
    while (!stop && !q.empty())
        step();
    st.runs++;
    st.events += evCount;
    st.simNs += now;
    W = nullptr;
}

// ------------------------------------------------------------------------------------------------
// calling into images

template <class F> void World::callMain(Node &n, F f)
{
    Node *volatile prev = cur;
    volatile bool ph = g_hookOn;
    volatile int pd = depth;
    n.inMain = true;
    n.callAcc = 0;
    n.spinRun = n.spinMax = 0;
    n.debt = 0;
    n.preAt = -1;
    n.calls++;
    if (pl.preemptMode == 1 && (pl.preemptStyle & 1))
    {
        u64 r = h4(pl.sched, n.id, n.calls, 15);
        if (r & 1)
            n.preAt = (i64)((r >> 16) % (8ull << (2 * ((r >> 8) % 5))));
    }
    cur = &n;
    if (setjmp(n.jb) == 0)
    {
        g_hookOn = true;
        f();
    }
    if (n.crash)
        g_pendImg = nullptr;
    g_hookOn = ph;
    u32 spin = std::max(n.spinMax, n.spinRun);
    if (spin >= 300 && !n.crash && !g_stmAny)
        viol(P(25), n.id, "call-waits", "node %d: a library call made %u memory accesses in a row to at most four variables: it seems to wait for something", n.id, spin);
    cur = prev;
    depth = pd;
    n.inMain = false;
    n.inCallback = false;
}

void World::checkCrash(Node &n)
{
    if (n.crash)
        longjmp(n.jb, 1);
}

void World::nestedRun(Node &n, i64 dur)
{
    Node *pc = cur;
    bool ph = g_hookOn;
    cur = nullptr;
    g_hookOn = false;
    depth++;
    st.nested++;
    runUntil(now + dur);
    depth--;
    cur = pc;
    g_hookOn = ph;
    checkCrash(n);
}

// runs until the next interrupt of that kind on this node, at most 40 ms; returns how long it took
i64 World::nestedUntil(Node &n, int what)
{
    Node *pc = cur;
    bool ph = g_hookOn;
    i64 t0 = now;
    u64 k = n.isrN[what];
    cur = nullptr;
    g_hookOn = false;
    depth++;
    st.nested++;
    while (!stop && !q.empty() && q.front().t <= t0 + 40 * MS && n.isrN[what] == k)
        step();
    runUntil(now);
    depth--;
    cur = pc;
    g_hookOn = ph;
    return now - t0;
}

// a preemption point: a memory access of library code running in main context, or a driver/app boundary
void World::onAccess(u64 pcoff, void *adr)
{
    Node &n = *cur;
    n.acc++;
    n.callAcc++;
    if (n.callAcc == 400000)
        viol(P(25), n.id, "call-waits", "node %d: a library call is still running after %llu memory accesses; it seems to wait for something", n.id, (unsigned long long)n.callAcc);
    if (n.callAcc > 1500000 && n.callAcc % 50000 == 0)
    {
        if (n.callAcc > 6000000)
        {
            viol(P(10) | P(15) | P(20) | P(21) | P(11) | P(1) | P(14) | n.m.ini() | n.s.ini() | (n.cbItems.empty() ? 0 : P(23)), n.id, "call-does-not-return", "node %d: a library call does not return (%llu memory accesses)", n.id, (unsigned long long)n.callAcc);
            stop = true;
            n.crash = n.dead = true;
            longjmp(n.jb, 1);
        }
        if (depth < 3)
            nestedRun(n, 1 * MS);
        return;
    }
    if (stop || preemptOff || depth >= 3 || (g_stmAny && masked(n)))
        return;
    i64 dur = -1;
    int until = -1;
    if (pl.preemptMode == 1)
    {
        bool fire = false;
        if (pl.preemptStyle & 2)
        {
            n.debt += 1 + (i64)(h4(pl.sched, n.id, n.acc, 16) % (2 * (u64)pl.preemptGap));
            if (!q.empty() && q.front().t <= now + n.debt && n.preemptsFired < 4000)
            {
                dur = n.debt;
                n.debt = 0;
            }
        }
        if (pl.preemptStyle & 8)
        {
            if (adr && n.racy(adr))
                fire = h4(pl.sched, n.id, n.acc, 19) % (u64)pl.preemptGap == 0;
        }
        else if (pl.preemptStyle & 3)
        {
            if (n.preAt >= 0 && n.callAcc > (u64)n.preAt)
            {
                fire = true;
                u64 r = h4(pl.sched, n.id, n.acc, 17);
                n.preAt = r & 1 ? n.preAt + 1 + (i64)((r >> 8) % 6) : -1;
            }
        }
        else if (--n.pcount <= 0)
        {
            n.pcount = (i64)(h4(pl.sched, n.id, n.acc, 12) % (2 * (u64)pl.preemptGap)) + 1;
            fire = true;
        }
        else if (pcoff >= 0xF000000000000000ull)
            fire = (h4(pl.sched, n.id, n.acc, 13) & 3) == 0;
        else if ((h2(pcoff, pl.sched) & 63) == 0)
            fire = (h4(pl.sched, n.id, n.acc, 13) & 7) == 0;
        if ((pl.preemptStyle & 4) && hwInDriver(n))
            fire = (h4(pl.sched, n.id, n.acc, 18) & 7) == 0;
        if (dur < 0 && fire && n.preemptsFired < 400)
        {
            u64 r = h4(pl.sched, n.id, n.acc, 14);
            int cls = -1;
            for (int k = 0; k < 8; k++)
            {
                int c = (int)((r >> (k * 4)) % 8);
                if (pl.preemptDur & (1 << c))
                {
                    cls = c;
                    break;
                }
            }
            i64 ch = bus[0].ch;
            u64 r2 = r >> 32;
            i64 nextd = q.empty() ? 0 : std::max<i64>(0, q.front().t - now);
            switch (cls)
            {
            case 0: dur = nextd; break;
            case 1: dur = (i64)(r2 % (u64)ch); break;
            case 2: dur = (i64)(r2 % (u64)(6 * ch)); break;
            case 3: dur = (i64)(r2 % (u64)(3 * MS)); break;
            case 4: dur = (i64)(r2 % (u64)(20 * MS)); break;
            case 5: dur = (i64)(r2 % (u64)(150 * MS)); break;
            case 6: until = 1; break; // the next 1.5 character expiry
            case 7: until = (int)(r2 & 3) == 0 ? (int)((r2 >> 8) % 5) : 2; break; // mostly the next 3.5 character expiry
            default: break;
            }
        }
    }
    else if (pl.preemptMode == 2)
    {
        while (n.preIdx < n.pre.size() && n.pre[n.preIdx].acc < n.acc)
            n.preIdx++;
        if (n.preIdx < n.pre.size() && n.pre[n.preIdx].acc == n.acc)
            dur = n.pre[n.preIdx++].dur;
    }
    if (dur < 0 && until < 0 && pl.appIrq && adr && n.s.inPoll && pl.preemptMode == 1 && n.preemptsFired < 400 && h4(pl.sched, n.id, n.acc, 21) % (u64)pl.appIrq == 0 && n.varAt(adr) >= 0)
        dur = APPIRQ + (i64)(h4(pl.sched, n.id, n.acc, 22) & 0xFFFF);
    if (dur >= APPIRQ)
    {
        if (appInterrupt(n, adr, (u16)dur))
        {
            n.preemptsFired++;
            fired.push_back({n.id, n.acc, dur});
        }
        return;
    }
    if (until >= 0 && g_stmAny)
    {
        dur = 4 * bus[0].ch;
        until = -1;
    }
    if (until >= 0)
        dur = 0;
    if (dur < 0)
        return;
    if (g_stmAny)
        dur = hwBound(n, dur);
    n.preemptsFired++;
    fired.push_back({n.id, n.acc, dur});
    st.preempts++;
    if (pcoff == 0xF000000000000001ull)
        st.preemptSend++;
    if (pcoff == 0xF000000000000002ull)
        st.preemptCallback++;
    distHash = h3(distHash, 0x77, pcoff);
    trace("node %d main preempted at access %llu (code offset 0x%llx) for %.3f us", n.id, (unsigned long long)n.acc, (unsigned long long)pcoff, dur / 1e3);
    if (until >= 0)
    {
        size_t at = fired.size() - 1;
        fired[at].dur = nestedUntil(n, until);
        checkCrash(n);
    }
    else
        nestedRun(n, dur);
}

int Node::varAt(const void *adr) const
{
    for (int t = 0; t < 4; t++)
        if ((const u8 *)adr >= tab[t].mem && (const u8 *)adr < tab[t].mem + 8 * (size_t)tab[t].n)
            return t;
    return -1;
}

// An interrupt of the application changes the variable that the slave is just about to access.  Only variables the
// request under way cannot write: what such a write and the application make of a variable together is not specified.
bool World::appInterrupt(Node &n, void *adr, u16 val)
{
    int t = n.varAt(adr);
    if (t < 0 || n.s.cands.empty())
        return false;
    const Frame &f = n.s.cands.back().f;
    if ((t == 0 || t == 3) && (n.s.cands.size() > 1 || f.b[1] >= 5 || n.s.chain.size() > f.b.size() || port[n.port[1]].open))
        return false;
    VarTab &v = n.tab[t];
    int a = (int)(((u8 *)adr - v.mem) / 8);
    v.touch(a);
    if (v.size == 1)
        val &= 1;
    if (v.raw(a) != v.mir[a])
        return false; // something is wrong already
    n.s.midCall.push_back({t, a, (u16)v.mir[a]});
    memcpy(v.at(a), &val, v.size);
    setVar(n, t, a, val);
    st.appIrqs++;
    distHash = h4(distHash, 0x79, t, a);
    trace("node %d application interrupt inside the slave's poll: table %d, variable %d becomes %d", n.id, t, a, val);
    return true;
}

void World::isr(Port &p, int what, int arg)
{
    Node &n = node[p.node];
    if (n.dead || p.stub)
        return;
    Node *pc = cur;
    bool ph = g_hookOn;
    cur = nullptr;
    g_hookOn = false;
    if (n.inMain)
        st.isrInMain++;
    Image *im = n.img[p.role];
    if (what == 2)
        p.t35n++;
    static const char *const nm[] = {"rx", "t1.5", "t3.5", "frame_error", "tx_done"};
    if (what != 0)
        trace("node %d %s ISR %s%s", n.id, p.role ? "slave" : "master", nm[what], n.inMain ? " (inside main call)" : "");
    plogAdd(n, p.role, nm[what], arg, 0);
    n.isrN[what]++;
    if (g_racy)
        g_isrNode = &n;
    if (!p.stm) // a real driver has called the library itself
        switch (what)
    {
    case 1: im->isr_t15(p.role); break;
    case 2: im->isr_t35(p.role); break;
    case 3: im->isr_ferr(p.role); break;
    case 4: im->isr_txdone(p.role); break;
    }
    g_isrNode = nullptr;
    mixLog(what + 10, p.id, now);
    distHash = h3(distHash, what + 10, p.id * 4 + (n.inMain ? 2 : 0));
    cur = pc;
    g_hookOn = ph;
}

void World::plogAdd(Node &n, int role, const char *what, u64 a, u64 b)
{
    if (!pl.twin)
        return;
    PortLog &l = plog[(n.id * 2 + role) & 15];
    u64 k = 0;
    for (const char *c = what; *c; c++)
        k = k * 131 + *c;
    l.h.push_back(h4(k, a, b, now));
    if (l.txt.size() < 4000)
        l.txt.push_back(sfmt("%.3f ms %s %llx %llx", now / 1e6, what, (unsigned long long)a, (unsigned long long)b));
}

// ------------------------------------------------------------------------------------------------
// node life cycle

void World::registerVars(Node &n)
{
    if (!(n.c.roles & 2))
        return;
    for (int t = 0; t < 4; t++)
        for (int a : n.tab[t].live)
            if (n.tab[t].reg[a])
                n.img[1]->reg(t, a, n.tab[t].at(a));
}

void World::masterInit(Node &n, int mode, bool inCb)
{
    n.m.inits++;
    n.m.passive = mode != 0;
    n.m.wasPassive |= n.m.passive;
    n.m.pend.clear();
    n.m.at = Attempt();
    n.m.outKind = 0;
    n.m.nGot = 0;
    n.m.prevKind = 3; // nothing to be silent after
    n.m.inPoll &= inCb;
    progress(n);
    trace("node %d modbus_master_init%s%s", n.id, mode ? " in an unsupported mode" : "", inCb ? " (in callback)" : "");
    if (mode)
        st.passiveM++;
    if (inCb)
    {
        st.reinitM++;
        st.reinitCb++;
        n.img[0]->master_init(bus[n.c.mbus].baud, pl.bus[n.c.mbus].parity, mode);
        plogAdd(n, 0, "init", 0, 0);
        progress(n);
        return;
    }
    if (n.c.preBaud && !mode)
    {
        n.preInit = true;
        n.m.wasPassive |= (n.c.early & 8) != 0;
        callMain(n, [&] { n.img[0]->master_init(n.c.preBaud, n.c.preParity, n.c.early & 8 ? 1 : 0); });
        n.preInit = false;
        if (n.dead)
            return;
    }
    callMain(n, [&] { n.img[0]->master_init(bus[n.c.mbus].baud, pl.bus[n.c.mbus].parity, mode); });
    plogAdd(n, 0, "init", 0, 0);
    progress(n);
}

void World::slaveInit(Node &n, int sid, int mode)
{
    n.s.inits++;
    n.s.passive = mode != 0;
    n.s.wasPassive |= n.s.passive;
    n.s.cands.clear();
    n.s.chain.clear();
    n.s.sid = sid;
    port[n.port[1]].sid = sid;
    n.s.inPoll = false;
    n.s.sentThisCall = 0;
    trace("node %d modbus_slave_init id %d%s", n.id, sid, mode ? " in an unsupported mode" : "");
    if (mode)
        st.passiveS++;
    if (n.c.preBaud && !mode)
    {
        n.preInit = true;
        n.s.wasPassive |= (n.c.early & 8) != 0;
        callMain(n, [&] { n.img[1]->slave_init(n.c.preBaud, n.c.preParity, sid, n.c.early & 8 ? 1 : 0); });
        n.preInit = false;
        if (n.dead)
            return;
    }
    callMain(n, [&] { n.img[1]->slave_init(bus[n.c.sbus].baud, pl.bus[n.c.sbus].parity, sid, mode); });
    plogAdd(n, 1, "init", sid, 0);
    checkVars(n, true, "init");
}

// an application may call the library before it initialises it, or initialise it in a mode that is not supported
void World::earlyCalls(Node &n)
{
    auto rounds = [&](int k) {
        for (int i = 0; i < k && !n.dead && !stop; i++)
        {
            st.early++;
            pollNode(n);
            if (!n.dead && (n.c.roles & 1))
            {
                g_isrNode = g_racy ? &n : nullptr;
                n.img[0]->master_tick();
                g_isrNode = nullptr;
                static const int fcs[] = {1, 2, 3, 4, 5, 6, 15, 16};
                doReq(n, {fcs[h3(pl.sched, n.id, i) % 8], i, 1 + i, 1 + n.id, 1, 7}, false);
            }
        }
    };
    if (!n.c.early || quiet)
        return;
    n.m.wasPassive = n.s.wasPassive = true;
    rounds(n.c.early & 3);
    if (!(n.c.early & 4) || n.dead)
        return;
    if (n.c.roles & 1)
        masterInit(n, 1);
    if (!n.dead && (n.c.roles & 2))
        slaveInit(n, n.c.sid, 1);
    rounds(n.c.early & 3);
}

void World::boot(Node &n, bool first)
{
    n.dead = n.crash = n.up = false;
    if (!first)
    {
        n.img[0]->restore();
        if (n.img[1] != n.img[0])
            n.img[1]->restore();
    }
    *n.img[0]->self = &n;
    *n.img[1]->self = &n;
    registerVars(n);
    n.m.passive = n.s.passive = true;
    earlyCalls(n);
    if (n.dead)
        return;
    if (n.c.order == 0)
    {
        if (n.c.roles & 1)
            masterInit(n);
        if (n.dead)
            return;
        if (n.c.roles & 2)
            slaveInit(n, n.c.sid);
    }
    else
    {
        if (n.c.roles & 2)
            slaveInit(n, n.c.sid);
        if (n.dead)
            return;
        if (n.c.roles & 1)
            masterInit(n);
    }
    if (n.dead)
        return;
    n.up = true;
    n.pg++;
    push(now + (i64)(h3(pl.sched, n.id, n.pg) % (u64)((quiet ? n.qPeriod : n.period) + 1)), EV_POLL, n.id, 0, n.pg);
}

void World::portReset(Port &p)
{
    abortTx(p);
    hwReset(p);
    closeAbandoned(p);
    p.inited = p.en = false;
    p.st = 0;
    p.tg++;
}

void World::powerOff(Node &n)
{
    trace("node %d POWER OFF%s", n.id, n.inMain ? " (inside main call)" : "");
    st.power++;
    if (n.inMain)
        st.crashInMain++;
    n.dead = true;
    n.crash = n.inMain;
    for (int r = 0; r < 2; r++)
        if (n.port[r] >= 0)
            portReset(port[n.port[r]]);
    n.pg++;
    n.m.pend.clear();
    n.m.at = Attempt();
    if (n.inMain && n.s.inPoll)
    {
        for (auto &c : n.s.cands)
            acceptPartial(n, c);
        for (auto &c : chainCands(n))
            acceptPartial(n, c);
    }
    n.s.cands.clear();
    n.s.chain.clear();
    mixLog(0x60, n.id, now);
}

void World::masterPoll(Node &n)
{
    MasterM &m = n.m;
    m.pollSeq++;
    m.inPoll = true;
    m.pollStart = now;
    m.pollStartTick = m.tick;
    callMain(n, [&] { n.img[0]->master_poll(); });
    if (n.dead)
        return;
    m.inPoll = false;
    m.pollsDone++;
    masterPollEnd(n);
}

void World::slavePoll(Node &n)
{
    SlaveM &s = n.s;
    s.pollSeq++;
    s.inPoll = true;
    s.midCall.clear();
    s.sentThisCall = 0;
    callMain(n, [&] { n.img[1]->slave_poll(); });
    if (n.dead)
        return;
    s.inPoll = false;
    s.pollsDone++;
    slavePollEnd(n);
}

void World::pollNode(Node &n)
{
    if (quiet && n.up) // at the end everybody is in the supported mode
    {
        if (n.m.passive && (n.c.roles & 1))
            masterInit(n);
        if (n.s.passive && (n.c.roles & 2) && !n.dead)
            slaveInit(n, n.s.sid);
        if (n.dead)
            return;
    }
    st.polls++;
    n.pollIdx++;
    bool ms = n.c.order == 0;
    for (int k = 0; k < 2; k++)
    {
        bool doM = (k == 0) == ms;
        if (doM && (n.c.roles & 1))
            masterPoll(n);
        if (!doM && (n.c.roles & 2))
            slavePoll(n);
        if (n.dead || stop)
            return;
    }
}

void World::dispatch(const Ev &e)
{
    switch (e.kind)
    {
    case EV_ITEM:
        doItem(e.a);
        break;
    case EV_POLL:
    {
        Node &n = node[e.a];
        if (e.g != n.pg || n.dead)
            break;
        i64 per = quiet ? n.qPeriod : n.period;
        if (!n.inMain && !storming(n) && (quiet || now >= n.stallUntil))
            pollNode(n);
        if (n.dead || stop)
            break;
        if (n.loopLeft > 0 && !n.inMain)
            loopReq(n);
        if (n.dead || stop)
            break;
        i64 jit = quiet ? 0 : per * n.c.jitter / 100;
        i64 d = per;
        if (jit > 0)
            d += (i64)(h3(pl.sched ^ 0x99, n.id, n.pollIdx) % (u64)(2 * jit + 1)) - jit;
        if (d < 2 * US)
            d = 2 * US;
        push(now + d, EV_POLL, n.id, 0, n.pg);
        break;
    }
    case EV_TICK:
    {
        Node &n = node[e.a];
        push(e.t + MS + (i64)n.c.tickPpm, EV_TICK, n.id);
        if (n.dead)
            break;
        if (now < n.tickStallUntil && !quiet)
        {
            st.tickStalls++;
            break;
        }
        n.m.tick++;
        Node *pc = cur;
        bool ph = g_hookOn;
        cur = nullptr;
        g_hookOn = false;
        g_isrNode = g_racy ? &n : nullptr;
        n.img[0]->master_tick();
        g_isrNode = nullptr;
        cur = pc;
        g_hookOn = ph;
        break;
    }
    case EV_BSTART:
        byteStart(tx[e.a]);
        break;
    case EV_BEND:
        byteEnd(tx[e.a]);
        break;
    case EV_T15:
    {
        Port &p = port[e.a];
        if (e.g != p.tg)
            break;
        if (p.st == 1 || (p.st == 2 && node[p.node].c.t15rep))
            fireT15(p);
        break;
    }
    case EV_T35:
    {
        Port &p = port[e.a];
        if (e.g != p.tg)
            break;
        if (p.st != 0)
            fireT35(p);
        break;
    }
    case EV_HWRTO:
    case EV_HWTIM:
    case EV_HWSHIFT:
    case EV_HWIRQ:
    case EV_HWCHECK:
        hwEvent(e);
        break;
    case EV_TXDONE:
    {
        Port &p = port[e.a];
        if (e.g != p.txg || !p.txActive)
            break;
        txDone(p);
        break;
    }
    case EV_WIREEND:
    {
        Port &p = port[e.a];
        if (e.g != p.txg)
            break;
        p.wireTx = false;
        Node &n = node[p.node];
        p.pollsAtActivity = p.role == ROLE_M ? n.m.pollsDone : n.s.pollsDone;
        p.lastWasOwnTx = true;
        break;
    }
    case EV_STUBTX:
    {
        Port &p = port[e.a];
        Tx &t = tx[e.b];
        if (p.wireTx || (quiet && t.t0 < quietStart))
            break; // a reply that was under way for so long counts as a fault
        startTx(t, p.id);
        break;
    }
    case EV_BOOT:
    {
        Node &n = node[e.a];
        if (!n.dead)
            break;
        if (n.inMain)
        {
            push(now + 10 * US, EV_BOOT, e.a);
            break;
        }
        trace("node %d POWER ON", n.id);
        boot(n, false);
        break;
    }
    case EV_CTRL:
        ctrl();
        break;
    }
}

// ------------------------------------------------------------------------------------------------
// plan items

bool World::doReq(Node &n, const std::vector<i64> &a, bool inCb)
{
    // a: fc adr qty sid val seed
    int fc = (int)a[0], adr = (int)a[1] & 0xFFFF, qty = (int)a[2] & 0xFFFF, sid = (int)a[3] & 0xFF, val = (int)a[4] & 0xFFFF;
    u64 seed = (u64)a[5];
    MasterM &m = n.m;
    Req r;
    r.fc = fc;
    r.adr = adr;
    r.sid = sid;
    r.qty = (fc == 5 || fc == 6) ? 1 : qty;
    r.val = fc == 5 ? (val & 1) : val;
    r.inCb = inCb;
    r.tAcc = now;
    bool legal = true;
    switch (fc)
    {
    case 1: case 2: legal = qty >= 1 && qty <= 2000; break;
    case 3: case 4: legal = qty >= 1 && qty <= 125; break;
    case 15: legal = qty >= 1 && qty <= 1968; break;
    case 16: legal = qty >= 1 && qty <= 123; break;
    }
    r.adu = {(u8)sid, (u8)fc};
    put16(r.adu, adr);
    if (fc == 5)
        put16(r.adu, r.val ? 0xFF00 : 0);
    else if (fc == 6)
        put16(r.adu, val);
    else
        put16(r.adu, qty);
    u16 *regs = nullptr;
    bool *coils = nullptr;
    if (legal && fc == 15)
    {
        coils = (bool *)malloc(qty);
        int bc = (qty + 7) / 8;
        r.adu.push_back(bc);
        Bytes d(bc, 0);
        r.data.resize(qty);
        for (int i = 0; i < qty; i++)
        {
            bool c = seed == 0 ? true : seed % 11 == 0 ? false : (h3(seed, i, 5) & 1);
            coils[i] = c;
            r.data[i] = c;
            if (c)
                d[i / 8] |= 1 << (i % 8);
        }
        r.adu.insert(r.adu.end(), d.begin(), d.end());
    }
    else if (legal && fc == 16)
    {
        regs = (u16 *)malloc(2 * qty);
        r.adu.push_back(2 * qty);
        r.data.resize(qty);
        for (int i = 0; i < qty; i++)
        {
            regs[i] = seed == 0 ? 0xFFFF : dataValue(h3(seed, i, 6), (int)(seed % 3));
            r.data[i] = regs[i];
            put16(r.adu, regs[i]);
        }
    }
    else if (fc == 5 || fc == 6)
        r.data = {(u16)r.val};
    // illegal quantities: pass a small but real array; the library must not read it
    if (!legal && fc == 15)
        coils = (bool *)calloc(1, 1);
    if (!legal && fc == 16)
        regs = (u16 *)calloc(1, 2);
    addCrc(r.adu);

    size_t pendBefore = m.pend.size();
    int N = n.img[0]->cfg[0];
    bool expect = legal && pendBefore < (size_t)N && !m.passive;
    int ret;
    // accepted while the call runs: the request may already be transmitted by ... nothing (main context), so
    // entering it after the call is exact
    if (inCb)
        ret = n.img[0]->master_req(fc, adr, qty, sid, regs, coils, fc == 5 ? r.val : val);
    else
    {
        int volatile rr = -2;
        callMain(n, [&] { rr = n.img[0]->master_req(fc, adr, qty, sid, regs, coils, fc == 5 ? r.val : val); });
        ret = rr;
        if (n.dead)
        {
            free(regs);
            free(coils);
            return false;
        }
    }
    // the caller's array belongs to the caller, and is reused right after the call
    int changed = -1;
    for (int i = 0; i < (legal ? qty : 1); i++)
    {
        if (regs && regs[i] != (legal ? r.data[i] : 0))
            changed = i;
        if (coils && ((const u8 *)coils)[i] != (legal ? r.data[i] : 0))
            changed = i;
    }
    if (changed >= 0)
        viol(P(3) | P(9) | (inCb ? P(23) : 0), n.id, "array-changed", "request fc %d: element %d of the caller's array was changed by the call", fc, changed);
    if (regs)
    {
        for (int i = 0; i < (legal ? qty : 1); i++)
            regs[i] = 0xDEAD;
        free(regs);
    }
    if (coils)
    {
        for (int i = 0; i < (legal ? qty : 1); i++)
            coils[i] = !coils[i];
        free(coils);
    }
    bool acc = ret == n.img[0]->en[0];
    plogAdd(n, 0, "req", ret, fc);
    mixLog(0x21, ret, fc);
    trace("node %d request fc %d adr %d qty %d slave %d val 0x%x%s -> %s (%d)", n.id, fc, adr, qty, sid, val, inCb ? " (in callback)" : "", acc ? "accepted" : "refused", ret);
    u32 cb = inCb ? P(23) : 0;
    if (acc)
        st.accepted++;
    else
        st.refused++;
    if (!legal)
        st.illegal++;
    if (inCb)
        st.cbReqs++;
    if (acc && m.passive)
        viol(P(26), n.id, "passive-accepts", "request fc %d was accepted by a master that is %s", fc, m.inits ? "in an unsupported mode" : "not initialised");
    else if (acc && !legal)
        viol(P(9) | cb, n.id, "illegal-accepted", "request fc %d with illegal quantity %d was accepted", fc, qty);
    else if (acc && !expect)
        viol(P(9) | cb, n.id, "over-capacity", "request accepted although %zu of %d requests are unresolved", pendBefore, N);
    else if (!acc && expect)
        viol(P(9) | cb | m.ini() | P(10), n.id, "refused", "legal request fc %d qty %d refused (%d) although only %zu of %d are unresolved", fc, qty, ret, pendBefore, N);
    else if (!acc && legal && !m.passive && ret != n.img[0]->en[1])
        viol(P(9) | cb, n.id, "refusal-code", "request on a full queue refused with code %d instead of queue-full", ret);
    if (acc)
    {
        r.id = (int)reqInfo.size();
        ReqInfo ri;
        ri.sid = sid;
        ri.node = n.id;
        reqInfo.push_back(ri);
        m.pend.push_back(r);
        if (m.pend.size() == 1)
            progress(n);
        return true;
    }
    return false;
}

void World::setVar(Node &n, int tab, int adr, u16 v)
{
    VarTab &t = n.tab[tab];
    if (t.mir[adr] == v)
        return;
    auto &h = t.hist[adr];
    if (h.empty())
        h.push_back({-1, t.mir[adr]});
    h.push_back({now, v});
    t.mir[adr] = v;
}

void VarTab::touch(int a)
{
    if (near(a) || std::find(live.begin(), live.end(), a) != live.end())
        return;
    live.push_back(a);
#ifdef SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(at(a), size);
#endif
}

__attribute__((no_sanitize("address"))) u64 VarTab::raw(int a) const
{
    u64 x = *(const volatile u64 *)(mem + a * 8);
    return nMoved && moved[a] ? x >> 32 | x << 32 : x;
}

__attribute__((no_sanitize("address"))) void VarTab::move(int a)
{
    volatile u64 *p = (volatile u64 *)(mem + a * 8);
    *p = *p >> 32 | *p << 32; // a fault found there stays where the judgement will see it
#ifdef SIM_ASAN
    ASAN_POISON_MEMORY_REGION(at(a), size);
#endif
    moved[a] ^= 1;
    nMoved++;
#ifdef SIM_ASAN
    ASAN_UNPOISON_MEMORY_REGION(at(a), size);
#endif
}

__attribute__((no_sanitize("address"))) u16 World::memVar(VarTab &v, int adr)
{
    const volatile u8 *p = v.at(adr);
    return v.size == 1 ? p[0] : (u16)(p[0] | p[1] << 8);
}

// requests without end: small ones, so that counters of two bytes wrap within seconds
void World::loopReq(Node &n)
{
    while (n.loopLeft > 0 && !n.dead && !stop && (i64)n.m.pend.size() < n.loopDepth)
    {
        u64 h = h3(n.loopSeed, n.loopIdx, 5);
        static const int fcs[] = {1, 2, 3, 4, 5, 6, 15, 16};
        int fc = fcs[h & 7];
        i64 adr = (h >> 3) & 3, qty = 1 + ((h >> 5) & 1);
        if ((i64)((h >> 8) % 1000) < n.loopExc * 10)
            adr = 60000;
        n.loopIdx++;
        n.loopLeft--;
        if (!doReq(n, {fc, adr, fc == 5 || fc == 6 ? 1 : qty, n.loopSid, (i64)((h >> 20) & 0xFFFF), (i64)((h >> 36) & 0xFFFFF)}, false))
            break;
    }
}

void World::doItem(int idx)
{
    const Item &it = pl.items[idx];
    const std::vector<i64> &a = it.a;
    if (quiet)
        return;
    auto busy = [&](Node &n) {
        if (n.inMain || storming(n))
        {
            push(now + 20 * US, EV_ITEM, idx);
            return true;
        }
        return false;
    };
    if (it.kind == IT_RAW)
    {
        st.rawFrames++;
        tx.emplace_back();
        Tx &t = tx.back();
        t.id = (int)tx.size() - 1;
        t.bus = (int)a[0];
        t.orig = it.data;
        t.els.resize(it.data.size());
        for (size_t i = 0; i < it.data.size(); i++)
        {
            t.els[i].pos = -1;
            t.els[i].lit = it.data[i];
        }
        for (size_t k = 1; k + 1 < a.size(); k += 2)
            if (a[k] < (i64)t.els.size())
                t.els[a[k]].gap = a[k + 1] * bus[t.bus].ch / 10;
        trace("bus %d RAW %s", t.bus, hex(t.orig).c_str());
        t.t0 = now;
        if (!t.els.empty())
            planByte(t, t.els[0].gap);
        return;
    }
    Node &n = node[a[0]];
    if (n.dead || ((n.c.roles & 3) && !n.up))
        return;
    distHash = h3(distHash, 0x100 + it.kind, n.id);
    switch (it.kind)
    {
    case IT_REQ:
        if ((n.c.roles & 1) && !busy(n))
            doReq(n, std::vector<i64>(a.begin() + 1, a.end()), false);
        break;
    case IT_MUT:
    {
        if (!(n.c.roles & 2) || busy(n))
            break;
        VarTab &v = n.tab[a[1]];
        int adr = (int)a[2];
        if (adr >= v.n)
            break;
        v.touch(adr);
        u16 val = v.size == 1 ? (a[3] & 1) : (u16)a[3];
        memcpy(v.at(adr), &val, v.size);
        setVar(n, (int)a[1], adr, val);
        st.mutations++;
        break;
    }
    case IT_REG:
    {
        if (!(n.c.roles & 2) || busy(n))
            break;
        VarTab &v = n.tab[a[1]];
        int adr = (int)a[2];
        if (adr >= v.n)
            break;
        v.touch(adr);
        v.reg[adr] = a[3] ? 1 : 0;
        if (a[3] == 2)
        {
            v.move(adr);
            st.moves++;
        }
        callMain(n, [&] { n.img[1]->reg((int)a[1], adr, a[3] ? v.at(adr) : nullptr); });
        st.regs++;
        break;
    }
    case IT_REINIT:
        if (busy(n))
            break;
        if (a[1] == 0 && (n.c.roles & 1))
        {
            st.reinitM++;
            masterInit(n, a.size() > 3 && a[3]);
        }
        if (a[1] == 1 && (n.c.roles & 2))
        {
            st.reinitS++;
            slaveInit(n, a[2] > 0 ? (int)a[2] : n.s.sid, a.size() > 3 && a[3]);
        }
        break;
    case IT_PWR:
        if (!(n.c.roles & 3))
            break;
        powerOff(n);
        push(now + std::max<i64>(1, a[1]) * US, EV_BOOT, n.id);
        break;
    case IT_STALL:
        st.stalls++;
        n.stallUntil = std::max(n.stallUntil, now + a[1] * US);
        break;
    case IT_TICKSTALL:
        n.tickStallUntil = std::max(n.tickStallUntil, now + a[1] * US);
        break;
    case IT_LOOP:
        if (!(n.c.roles & 1))
            break;
        n.loopLeft = a[1];
        n.loopIdx = 0;
        n.loopSid = a[2];
        n.loopDepth = a[3];
        n.loopSeed = (u64)a[4];
        n.loopExc = a[5];
        loopSeed = a[6] || a[7] ? n.loopSeed ^ 0x77 : 0;
        loopDmgM = a[6];
        loopDmgS = a[7];
        loopAny = a[8] != 0;
        break;
    case IT_PERIOD:
        n.period = std::max<i64>(5, a[1]) * US;
        break;
    }
}
