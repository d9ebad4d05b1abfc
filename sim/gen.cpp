// Generates an execution plan from (property, seed), and reads/writes plans as text.
#include "world.hpp"

static const i64 MS = 1000000;

// ------------------------------------------------------------------------------------------------
// text form

std::string Plan::text() const
{
    std::string s;
    s += sfmt("plan 1\nprop %s\nseed 0x%llx\nsched 0x%llx\n", prop.c_str(), (unsigned long long)seed, (unsigned long long)sched);
    if (palette)
        s += sfmt("palette %llu\n", (unsigned long long)palette);
    if (appIrq)
        s += sfmt("appirq %d\n", appIrq);
    s += sfmt("mode quiet %lld twin %d asan %d drain %d cf %d preempt %d %d %d %d\n", (long long)tQuiet, twin, asan, drain, cf, preemptMode, preemptGap, preemptDur, preemptStyle);
    for (auto &b : bus)
        s += sfmt("bus %d %d\n", b.baud, b.parity);
    for (auto &n : node)
        s += sfmt("node %d %d %d %d %d %lld %d %lld %d %d %d %lld %lld %d %d %d %d %llu %lld %d %d %d %d\n", n.variant, n.roles, n.mbus, n.sbus, n.sid,
                  (long long)n.periodUs, n.jitter, (long long)n.tickPhaseUs, n.tickPpm, n.txDone[0], n.txDone[1], (long long)n.txLateUs[0],
                  (long long)n.txLateUs[1], n.cancelOnSend[0], n.cancelOnSend[1], n.t15rep, n.regMode, (unsigned long long)n.varSeed,
                  (long long)n.stubDelayUs, n.order, n.preBaud, n.preParity, n.early);
    for (auto &i : items)
    {
        s += sfmt("item %lld %s %s", (long long)i.t, itemNames[i.kind], hex(i.data).c_str());
        for (i64 a : i.a)
            s += sfmt(" %lld", (long long)a);
        s += "\n";
    }
    for (auto &f : faults)
        s += sfmt("fault %d %s %lld %lld %lld\n", f.tx, faultNames[f.kind], (long long)f.a, (long long)f.b, (long long)f.c);
    for (auto &x : pre)
        s += sfmt("preempt %d %llu %lld\n", x.node, (unsigned long long)x.acc, (long long)x.dur);
    return s;
}

bool Plan::parse(const std::string &text)
{
    *this = Plan();
    bool ok = false;
    size_t pos = 0;
    while (pos < text.size())
    {
        size_t e = text.find('\n', pos);
        if (e == std::string::npos)
            e = text.size();
        std::string line = text.substr(pos, e - pos);
        pos = e + 1;
        std::vector<std::string> w;
        size_t i = 0;
        while (i < line.size())
        {
            while (i < line.size() && line[i] == ' ')
                i++;
            size_t j = i;
            while (j < line.size() && line[j] != ' ')
                j++;
            if (j > i)
                w.push_back(line.substr(i, j - i));
            i = j;
        }
        if (w.empty() || w[0][0] == '#')
            continue;
        auto num = [&](size_t k) -> i64 { return k < w.size() ? (i64)strtoll(w[k].c_str(), nullptr, 0) : 0; };
        auto unum = [&](size_t k) -> u64 { return k < w.size() ? (u64)strtoull(w[k].c_str(), nullptr, 0) : 0; };
        if (w[0] == "plan")
            ok = true;
        else if (w[0] == "prop")
            prop = w[1];
        else if (w[0] == "seed")
            seed = unum(1);
        else if (w[0] == "sched")
            sched = unum(1);
        else if (w[0] == "mode")
        {
            tQuiet = num(2);
            twin = (int)num(4);
            asan = (int)num(6);
            drain = (int)num(8);
            cf = (int)num(10);
            preemptMode = (int)num(12);
            preemptGap = (int)num(13);
            preemptDur = (int)num(14);
            preemptStyle = (int)num(15);
        }
        else if (w[0] == "bus")
            bus.push_back({(int)num(1), (int)num(2)});
        else if (w[0] == "node")
        {
            NodeCfg n;
            n.variant = (int)num(1);
            n.roles = (int)num(2);
            n.mbus = (int)num(3);
            n.sbus = (int)num(4);
            n.sid = (int)num(5);
            n.periodUs = num(6);
            n.jitter = (int)num(7);
            n.tickPhaseUs = num(8);
            n.tickPpm = (int)num(9);
            n.txDone[0] = (int)num(10);
            n.txDone[1] = (int)num(11);
            n.txLateUs[0] = num(12);
            n.txLateUs[1] = num(13);
            n.cancelOnSend[0] = (int)num(14);
            n.cancelOnSend[1] = (int)num(15);
            n.t15rep = (int)num(16);
            n.regMode = (int)num(17);
            n.varSeed = unum(18);
            n.stubDelayUs = num(19);
            n.order = (int)num(20);
            n.preBaud = (int)num(21);
            n.preParity = (int)num(22);
            n.early = (int)num(23);
            node.push_back(n);
        }
        else if (w[0] == "item")
        {
            Item it;
            it.t = num(1);
            for (int k = 1; k <= IT_RAWREPLY; k++)
                if (w[2] == itemNames[k])
                    it.kind = k;
            it.data = unhex(w[3]);
            for (size_t k = 4; k < w.size(); k++)
                it.a.push_back(num(k));
            items.push_back(it);
        }
        else if (w[0] == "fault")
        {
            TxFault f;
            f.tx = (int)num(1);
            for (int k = 1; k < F_NKINDS; k++)
                if (w[2] == faultNames[k])
                    f.kind = k;
            f.a = num(3);
            f.b = num(4);
            f.c = num(5);
            faults.push_back(f);
        }
        else if (w[0] == "palette")
            palette = unum(1);
        else if (w[0] == "appirq")
            appIrq = (int)num(1);
        else if (w[0] == "preempt")
            pre.push_back({(int)num(1), unum(2), num(3)});
    }
    return ok && !bus.empty() && !node.empty();
}

bool Plan::loadFile(const std::string &path)
{
    FILE *f = fopen(path.c_str(), "r");
    if (!f)
        return false;
    std::string s;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0)
        s.append(buf, n);
    fclose(f);
    return parse(s);
}

// ------------------------------------------------------------------------------------------------
// generation

struct Prof
{
    int wA = 35, wB = 35, wC = 20, wD = 10; // real slaves / stub slaves / raw traffic to slaves / gateway
    int faults = 60;       // % of runs with line faults
    int heavy = 35;        // % of those with many
    int forge = 20;        // % of faults that forge
    int raw = 25;          // % of runs with raw noise bytes on the master's bus
    int preempt = 25;      // % of runs with ISRs/delays inside library calls
    int reinit = 5, power = 5;
    int stall = 25;
    int cb = 8;
    int unreg = 15;
    int mut = 30;
    int story = 2;         // % of raw frames that start a story of one variable; four times that of runs with masters
    int illegal = 4;       // % of requests
    int exc = 20;          // % of requests that lead to an exception
    int absent = 8;        // % of requests to a missing slave
    int burst = 40;        // % of runs with bursts that overflow the queue
    int mode = 0;          // % of nodes that are initialised in an unsupported mode, or used before the initialisation
    int slow = 25;         // % of nodes that poll slowly
    int txmode = 50;       // % of ports with early, late or synchronous transmit-done
    int multi = 35;        // % of slave runs with several slaves
    int damageRuns = 15;   // % of runs where several consecutive replies are damaged
    int stubLate = 10;
    int clean = 50;        // % of raw frames that are well formed
    int tickStall = 10;
    int dense = 12;        // % of raw traffic to slaves with hardly a pause
    int small = 25;        // % of runs with few different requests and values, often repeated
};

static Prof profile(const std::string &p)
{
    Prof f;
    int n = atoi(p.c_str() + 1);
    switch (n)
    {
    case 1: f.cb = 15; f.burst = 60; f.reinit = 5; f.wC = 0; break;
    case 2: f.burst = 80; f.wC = 0; f.raw = 35; f.damageRuns = 30; f.cb = 15; break;
    case 3: f.burst = 70; f.wC = 0; f.stall = 40; f.illegal = 10; f.damageRuns = 30; f.txmode = 60; break;
    case 4: f.damageRuns = 75; f.wC = 0; f.wB = 60; f.faults = 80; f.burst = 60; break;
    case 5: f.small = 35; f.forge = 55; f.faults = 90; f.wC = 0; f.wB = 60; f.raw = 40; break;
    case 6: f.faults = 25; f.heavy = 0; f.forge = 0; f.raw = 10; f.stall = 70; f.slow = 60; f.wC = 0; f.txmode = 75; f.exc = 35; f.absent = 15; f.preempt = 35; break;
    case 7: f.absent = 40; f.faults = 60; f.wC = 0; f.wB = 50; f.stall = 60; f.slow = 50; f.stubLate = 45; f.raw = 30; f.forge = 40; break;
    case 8: f.exc = 60; f.absent = 25; f.damageRuns = 45; f.wC = 0; f.forge = 45; f.wB = 60; f.burst = 60; break;
    case 9: f.illegal = 30; f.burst = 95; f.wC = 0; f.absent = 20; f.damageRuns = 30; f.cb = 15; break;
    case 10: f.faults = 90; f.heavy = 60; f.raw = 50; f.stall = 40; f.wC = 5; f.txmode = 60; f.slow = 40; break;
    case 11: f.story = 4; f.wA = 25; f.wB = 0; f.wC = 65; f.unreg = 8; f.clean = 85; f.faults = 30; f.mut = 70; f.txmode = 60; break;
    case 12: f.wA = 20; f.wB = 0; f.wC = 70; f.unreg = 50; f.exc = 70; f.clean = 85; f.faults = 20; f.illegal = 0; break;
    case 13: f.story = 6; f.dense = 25; f.small = 40; f.wA = 30; f.wB = 0; f.wC = 60; f.unreg = 40; f.exc = 40; f.clean = 60; f.faults = 50; f.mut = 50; f.forge = 40; break;
    case 14: f.dense = 20; f.wA = 20; f.wB = 0; f.wC = 70; f.clean = 25; f.faults = 80; f.forge = 50; f.heavy = 60; break;
    case 15: f.dense = 30; f.wA = 25; f.wB = 0; f.wC = 65; f.clean = 40; f.faults = 80; f.heavy = 60; f.raw = 60; f.stall = 40; f.slow = 40; f.txmode = 60; break;
    case 16: f.dense = 20; f.wA = 30; f.wB = 0; f.wC = 60; f.clean = 75; f.txmode = 95; f.slow = 40; f.stall = 40; f.preempt = 40; f.raw = 40; break;
    case 17: f.wA = 50; f.wB = 0; f.wC = 50; f.multi = 100; f.clean = 60; f.faults = 40; break;
    case 18: f.story = 6; f.small = 35; f.wA = 85; f.wB = 0; f.wC = 0; f.wD = 15; f.mut = 60; f.forge = 0; f.exc = 8; f.multi = 45; break;
    case 19: f.dense = 25; f.cb = 20; f.reinit = 75; f.power = 60; f.wA = 40; f.wB = 20; f.wC = 30; f.faults = 50; f.preempt = 35; f.burst = 60; break;
    case 20: f.dense = 40; f.preempt = 100; f.wA = 40; f.wB = 25; f.wC = 25; f.txmode = 60; f.faults = 50; f.raw = 35; f.cb = 12; f.reinit = 12; break;
    case 21: f.wA = 25; f.wB = 30; f.wC = 35; f.forge = 45; f.faults = 80; f.clean = 35; f.exc = 45; f.illegal = 15; f.preempt = 35; f.unreg = 25; f.reinit = 10; f.power = 0; break;
    case 22: f.wA = f.wB = f.wC = 0; f.wD = 100; f.preempt = 40; f.reinit = 25; f.faults = 70; f.cb = 10; break;
    case 24: f.wA = 40; f.wB = 25; f.wC = 35; f.wD = 0; f.raw = 45; f.preempt = 35; f.reinit = 20; f.power = 8; f.absent = 15; f.cb = 4; f.damageRuns = 15; break;
    case 25: f.wA = 40; f.wB = 30; f.wC = 30; f.burst = 60; f.preempt = 15; f.stall = 10; f.slow = 10; f.damageRuns = 30; f.faults = 50; f.absent = 15; f.txmode = 60; break;
    case 26: f.mode = 85; f.reinit = 60; f.power = 25; f.wA = 40; f.wB = 20; f.wC = 30; f.faults = 40; f.preempt = 20; f.burst = 60; break;
    case 23: f.cb = 100; f.wA = 40; f.wB = 60; f.wC = 0; f.burst = 60; f.absent = 20; f.damageRuns = 30; f.exc = 30; f.preempt = 35; f.power = 0; f.reinit = 0; break;
    }
    return f;
}

struct RQ
{
    int fc, adr, qty, sid, val;
    i64 seed;
};

struct Gen
{
    Rng r;
    Prof f;
    Plan p;
    int nvar;
    bool thorough;
    bool small = false;
    std::map<int, std::vector<RQ>> pool; // small runs: the requests of each slave
    std::vector<std::pair<int, RQ>> asked; // variables of real slaves that requests address
    int tabSize(int variant, int tab)
    {
        const int *c = g_img[variant % g_nvar][0].cfg;
        return c[3 + tab];
    }
    // most runs are made for the property, some the way they are made for another one
    static std::string profileFor(const std::string &prop, u64 seed)
    {
        u64 h = h2(seed, 77);
        if (prop == "C22" || prop == "C24" || h % 100 >= 20)
            return prop;
        int k = 1 + (int)((h >> 20) % 26);
        return sfmt("C%02d", k == 22 ? 20 : k == 24 ? 25 : k);
    }
    Gen(u64 seed, const std::string &prop, int nv, bool th) : r(seed), f(profile(profileFor(prop, seed))), nvar(nv), thorough(th)
    {
        p.prop = prop;
        p.seed = seed;
        p.sched = r.next();
        small = r.pct(f.small);
        g_palette = 0;
    }
    static int tabOf(int fc) { return fc == 1 || fc == 5 || fc == 15 ? 0 : fc == 2 ? 1 : fc == 4 ? 2 : 3; }
    int anyValue() { return (int)dataValue(r.next(), 1 + (int)r.range(0, 1)); }

    bool stm() const { return p.prop == "C24"; } // images 1 and 2 contain the example drivers for master and slave
    int pickBaud(int variant)
    {
        if (stm())
        {
            static const std::vector<int> b = {115200, 115200, 115200, 57600, 38400, 38400, 19200, 19200, 14400, 9600, 9600, 4800, 2400, 1200};
            return b[r.range(0, b.size() - (variant ? 2 : 1))]; // no master at 1200: replies would take longer than its timeout
        }
        static const std::vector<int> fast = {115200, 115200, 57600, 38400, 19200, 230400};
        static const std::vector<int> all = {115200, 115200, 57600, 38400, 19200, 19200, 9600, 9600, 4800};
        int T = g_img[variant % g_nvar][0].cfg[1];
        if (T < 50)
            return r.pick(fast);
        return r.pick(all);
    }
    void timing(NodeCfg &n)
    {
        if (r.pct(f.slow))
            n.periodUs = r.pct(60) ? r.range(1500, 8000) : r.range(8000, 40000);
        else
            n.periodUs = r.pct(50) ? r.range(20, 300) : r.range(300, 1500);
        n.jitter = r.pct(60) ? (int)r.range(0, 60) : 0;
        n.tickPhaseUs = r.range(0, 999);
        n.tickPpm = r.pct(50) ? 0 : (int)r.range(-20000, 20000);
        for (int k = 0; k < 2; k++)
        {
            n.txDone[k] = r.pct(f.txmode) ? (int)r.range(1, 3) : 0;
            n.txLateUs[k] = r.pct(45) ? r.range(20, 400) : r.pct(85) ? r.range(400, 4000) : r.range(4000, 80000);
            n.cancelOnSend[k] = r.pct(75);
            if (k == 0 && r.pct(40))
                n.cancelOnSend[k] = 2;
        }
        n.t15rep = r.pct(40);
        n.order = r.pct(40);
        if (stm() && r.pct(15))
        {
            static const std::vector<int> b = {115200, 57600, 38400, 19200, 9600, 4800};
            n.preBaud = r.pick(b);
            n.preParity = (int)r.range(0, 2);
        }
        if (r.pct(f.mode))
            n.early = (int)r.range(1, 15);
        n.varSeed = r.next() >> 1;
        n.regMode = 0;
        if (r.pct(f.unreg))
            n.regMode = r.pct(75) ? 1 : 2;
        n.stubDelayUs = r.pct(70) ? r.range(0, 2000) : r.range(2000, 12000);
    }
    int variantM()
    {
        // mostly the short-timeout builds: they explore far more exchanges per second
        int x = (int)r.range(0, 9);
        if (stm())
            return x < 1 ? 0 : 1;
        return (x < 2 ? 0 : x < 5 ? 1 : x < 7 ? 2 : x < 8 ? 3 : r.pct(80) ? 4 : 5) % nvar;
    }
    int freshSid()
    {
        static const std::vector<int> s = {1, 2, 3, 5, 16, 17, 100, 127, 128, 200, 246, 247};
        for (;;)
        {
            int c = r.pct(50) ? r.pick(s) : (int)r.range(1, 247);
            bool used = false;
            for (auto &n : p.node)
                if ((n.roles & 6) && n.sid == c)
                    used = true;
            if (!used)
                return c;
        }
    }
    void addMaster(int bus)
    {
        NodeCfg n;
        n.variant = variantM();
        n.roles = 1;
        n.mbus = bus;
        timing(n);
        p.node.push_back(n);
    }
    void addSlave(int bus)
    {
        NodeCfg n;
        n.variant = (int)r.range(0, nvar - 1);
        if (n.variant == 5 && r.pct(60))
            n.variant = (int)r.range(0, 4);
        if (stm())
            n.variant = r.pct(75) ? 2 : 0;
        n.roles = 2;
        n.sbus = bus;
        n.sid = freshSid();
        timing(n);
        if (r.pct(50) && n.periodUs > 3000)
            n.periodUs = r.range(100, 1500);
        p.node.push_back(n);
    }
    void addStub(int bus)
    {
        NodeCfg n;
        n.roles = 4;
        n.sbus = bus;
        n.sid = freshSid();
        timing(n);
        if (r.pct(f.stubLate))
            n.stubDelayUs = r.range(10000, 90000);
        p.node.push_back(n);
    }
    void addBus(int variantForTimeout)
    {
        BusCfg b;
        b.baud = pickBaud(variantForTimeout);
        b.parity = (int)r.range(0, 2);
        p.bus.push_back(b);
    }

    i64 charNs(int bus) { return 11ll * 1000000000ll / p.bus[bus].baud; }
    i64 t15(int bus) { return p.bus[bus].baud <= 19200 ? charNs(bus) * 3 / 2 : 750000; }
    i64 t35(int bus) { return p.bus[bus].baud <= 19200 ? charNs(bus) * 7 / 2 : 1750000; }
    // a pause in tenths of a character: 0 below T1.5, 1 between T1.5 and T3.5, 2 above T3.5
    i64 gapTenths(int bus, int cls)
    {
        i64 a = t15(bus), b = t35(bus), g;
        switch (cls)
        {
        case 0: g = r.range(0, a * 95 / 100); break;
        case 1: g = r.pct(20) ? a + (b - a) * 98 / 100 : r.range(a * 105 / 100, b * 97 / 100); break;
        default: g = r.pct(30) ? b * 105 / 100 : r.range(b * 102 / 100, b * 3); break;
        }
        return g * 10 / charNs(bus);
    }

    int maxQty(int fc) { return fc <= 2 ? 2000 : fc <= 4 ? 125 : fc == 15 ? 1968 : fc == 16 ? 123 : 1; }
    int genQty(int fc, int n)
    {
        int mx = maxQty(fc);
        int lim = std::min(mx, std::max(1, n));
        switch (r.range(0, 7))
        {
        case 0: return 1;
        case 1: return (int)std::min<i64>(lim, r.range(1, 4));
        case 2: return (int)std::min<i64>(lim, 8 * r.range(1, 4));
        case 3: return (int)std::min<i64>(lim, 8 * r.range(1, 4) + (r.pct(50) ? 1 : -1));
        case 4: return lim;
        case 5: return std::max(1, lim - (int)r.range(0, 9));
        default: return (int)r.range(1, lim);
        }
    }
    RQ genReq(int sid, int variant, bool real)
    {
        RQ q;
        if (!small)
            q = freshReq(sid, variant, real);
        else
        {
            auto &v = pool[sid];
            if (v.empty() || (v.size() < 4 && r.pct(25)))
            {
                RQ x = freshReq(sid, variant, real);
                if (!v.empty() && r.pct(60))
                {
                    // another function on the same addresses
                    x.adr = v[0].adr;
                    x.qty = std::min(v[0].qty, std::max(1, maxQty(x.fc)));
                    if (r.pct(50))
                        x.fc = v[0].fc;
                }
                v.push_back(x);
            }
            q = v[r.pct(50) ? v.size() - 1 : r.range(0, v.size() - 1)];
            static const int vals[] = {0, 1, 0xFFFF};
            if (r.pct(30))
                q.val = vals[r.range(0, 2)];
            if (r.pct(p.palette ? 70 : 30))
                q.seed = p.palette ? (i64)r.range(1, 6) : r.range(0, 2);
        }
        if (p.palette && !(small && r.pct(20)))
            q.val = dataValue(r.next(), 0);
        if (real && q.sid == sid)
            asked.push_back({sid, q});
        return q;
    }
    RQ freshReq(int sid, int variant, bool real)
    {
        static const int fcs[] = {1, 2, 3, 4, 5, 6, 15, 16};
        RQ q;
        q.fc = fcs[r.range(0, 7)];
        q.sid = sid;
        int tab = tabOf(q.fc);
        int n = real ? tabSize(variant, tab) : 2000;
        q.qty = genQty(q.fc, n);
        q.val = r.pct(25) ? anyValue() : r.pct(20) ? (int)(q.fc | (q.fc << 8)) : (int)r.range(0, 65535);
        q.seed = r.pct(10) ? 0 : (i64)(r.next() >> 2);
        bool bad = r.pct(f.exc);
        if (!real)
            q.adr = r.pct(60) ? (int)r.range(0, 200) : r.pct(50) ? (int)r.range(65536 - q.qty - 2, 65535) : (int)r.range(0, 65535);
        else if (!bad)
        {
            int top = std::max(0, n - q.qty);
            q.adr = r.pct(25) ? top : r.pct(25) ? 0 : (int)r.range(0, top);
            if (n > 4000 && r.pct(60)) // where the variables are
                q.adr = r.pct(40) ? std::max(0, 32768 - (int)r.range(0, q.qty)) : r.pct(50) ? (int)r.range(0, 99) : top - (int)r.range(0, 99);
        }
        else
        {
            int top = std::max(0, n - q.qty);
            switch (r.range(0, 3))
            {
            case 0: q.adr = top + 1; break;
            case 1: q.adr = n; break;
            case 2: q.adr = (int)r.range(n, 65535); break;
            default: q.adr = 65536 - (int)r.range(1, std::max(1, q.qty)); break;
            }
        }
        q.adr &= 0xFFFF;
        if (r.pct(f.illegal))
        {
            int mx = maxQty(q.fc);
            if (mx > 1)
            {
                static const int bads[] = {0, 1, 2, 256, 65535, 32768};
                int k = (int)r.range(0, 5);
                q.qty = k == 0 ? 0 : k <= 2 ? mx + k : bads[k];
                if (k == 3)
                    q.qty = mx + (int)r.range(1, 300);
            }
        }
        return q;
    }
    // a variable that some request addresses
    void aim(const NodeCfg &n, int &tab, int &adr)
    {
        for (int k = 0; k < 8; k++)
        {
            const auto &a = asked[r.range(0, asked.size() - 1)];
            if (a.first != n.sid)
                continue;
            int t = tabOf(a.second.fc);
            int x = a.second.adr + (a.second.fc == 5 || a.second.fc == 6 ? 0 : (int)r.range(0, std::max(0, std::min(a.second.qty, 2000) - 1)));
            if (x >= 0 && x < tabSize(n.variant, t))
            {
                tab = t;
                adr = x;
                return;
            }
        }
    }
    i64 exchUs(int bus, const RQ &q)
    {
        int len = 8 + 8;
        if (q.fc <= 2 || q.fc == 15)
            len += q.qty / 8;
        else if (q.fc <= 4 || q.fc == 16)
            len += 2 * q.qty;
        return (std::min(len, 300) * charNs(bus) + 2 * t35(bus)) / 1000 + 500;
    }

    // raw traffic -----------------------------------------------------------------------------
    Bytes rawRequest(int sid, int variant, bool wellFormed)
    {
        static const int odd[] = {0, 7, 8, 9, 11, 12, 17, 20, 21, 22, 23, 24, 43, 65, 100, 127, 128, 129, 131, 143, 255};
        Bytes b;
        b.push_back(sid);
        if (r.pct(wellFormed ? 6 : 15))
        {
            b.push_back(odd[r.range(0, 20)]);
            int n = (int)(r.pct(50) ? r.range(0, 6) : r.range(0, 60));
            if (r.pct(8))
                n = (int)r.range(200, 251);
            for (int i = 0; i < n; i++)
                b.push_back((u8)r.next());
            addCrc(b);
            return b;
        }
        RQ q = genReq(sid, variant, true);
        b.push_back(q.fc);
        put16(b, q.adr);
        if (q.fc == 5)
        {
            static const int cv[] = {0, 0xFF00, 0xFF00, 0, 1, 0x00FF, 0xFF01, 0xFFFF, 0x0100, 0xFE00};
            put16(b, cv[r.range(0, r.pct(f.exc) ? 9 : 3)]);
        }
        else if (q.fc == 6)
            put16(b, q.val);
        else
        {
            int qty = q.qty;
            if (r.pct(f.exc / 3))
            {
                int mx = maxQty(q.fc);
                static const int o[] = {0, 1, 2, 3, 8, 255};
                int k = (int)r.range(0, 6);
                qty = k == 0 ? 0 : k == 6 ? (int)r.range(mx + 1, 65535) : mx + o[k];
            }
            put16(b, qty);
            if (q.fc >= 15)
            {
                int bc = q.fc == 15 ? (qty + 7) / 8 : 2 * qty;
                if (r.pct(f.exc / 5))
                    bc += (int)r.range(-2, 2);
                if (r.pct(f.exc / 10))
                    bc = (int)r.range(0, 255);
                bc = std::max(0, std::min(bc, 244));
                b.push_back(bc);
                int style = (int)r.range(0, 9);
                for (int i = 0; i < bc; i++)
                {
                    u16 v = style <= 1 ? 0xFFFF : style == 2 ? 0 : small ? dataValue(h3((u64)q.seed, i, 7), 1) : dataValue(r.next(), style % 3);
                    if (q.fc == 16 && bc - i >= 2)
                        b.push_back((u8)(v >> 8)), i++;
                    b.push_back((u8)v);
                }
            }
        }
        addCrc(b);
        return b;
    }
    void mangle(Bytes &b, Item &it, int bus)
    {
        if (b.size() < 4)
            return;
        switch (r.range(0, 13))
        {
        case 0: // CRC wrong
            b[b.size() - 1 - r.range(0, 1)] ^= (u8)r.range(1, 255);
            break;
        case 1: // bit error
            b[r.range(0, b.size() - 1)] ^= (u8)(1 << r.range(0, 7));
            break;
        case 2: // cut short
            b.resize(r.range(1, b.size() - 1));
            break;
        case 3: // longer, CRC over everything
        {
            b.resize(b.size() - 2);
            int n = (int)r.range(1, 6);
            for (int i = 0; i < n && b.size() < 252; i++)
                b.push_back((u8)r.next());
            addCrc(b);
            break;
        }
        case 4: // shorter, CRC valid
            b.resize(b.size() - 2);
            b.resize((size_t)std::max<i64>(2, (i64)b.size() - r.range(1, 4)));
            addCrc(b);
            break;
        case 5: // gap inside
            it.a.push_back(r.range(1, b.size() - 1));
            it.a.push_back(gapTenths(bus, 1));
            break;
        case 6: // split by more than 3.5 characters
            it.a.push_back(r.range(1, b.size() - 1));
            it.a.push_back(gapTenths(bus, 2));
            break;
        case 7: // garbage
        {
            int n = (int)(r.pct(70) ? r.range(1, 20) : r.range(20, 300));
            b.clear();
            for (int i = 0; i < n; i++)
                b.push_back((u8)r.next());
            break;
        }
        case 8: // trailing bytes after a good frame
        {
            int n = (int)r.range(1, 4);
            size_t at = b.size();
            for (int i = 0; i < n; i++)
                b.push_back((u8)r.next());
            if (r.pct(60))
            {
                it.a.push_back(at);
                it.a.push_back(gapTenths(bus, (int)r.range(0, 1)));
            }
            break;
        }
        case 9: // leading bytes before a good frame
        {
            int n = (int)r.range(1, 4);
            Bytes c;
            for (int i = 0; i < n; i++)
                c.push_back((u8)r.next());
            size_t at = c.size();
            c.insert(c.end(), b.begin(), b.end());
            b = c;
            if (r.pct(70))
            {
                it.a.push_back(at);
                it.a.push_back(gapTenths(bus, (int)r.range(0, 2)));
            }
            break;
        }
        case 10: // two requests back to back
        {
            Bytes c = b;
            size_t at = b.size();
            b.insert(b.end(), c.begin(), c.end());
            it.a.push_back(at);
            it.a.push_back(gapTenths(bus, (int)r.range(0, 2)));
            if (b.size() > 300)
                b.resize(300);
            break;
        }
        case 11: // CRC valid but too short; the missing number of bytes follows late
        {
            size_t full = b.size(), n = (size_t)r.range(1, 4);
            b.resize(b.size() - 2);
            b.resize(std::max<size_t>(2, b.size() > n ? b.size() - n : 2));
            addCrc(b);
            size_t at = b.size();
            while (b.size() < full)
                b.push_back((u8)r.next());
            if (b.size() > at)
            {
                it.a.push_back(at);
                it.a.push_back(gapTenths(bus, r.pct(70) ? 1 : 2));
            }
            break;
        }
        case 12: // CRC valid with a gap just before the 3.5 character silence, or a little later
        {
            int n = (int)r.range(1, 2);
            it.a.push_back(b.size());
            it.a.push_back(gapTenths(bus, 1 + r.pct(30)));
            for (int i = 0; i < n; i++)
                b.push_back((u8)r.next());
            break;
        }
        default: // harmless small gap
            it.a.push_back(r.range(1, b.size() - 1));
            it.a.push_back(gapTenths(bus, 0));
            break;
        }
    }
    Bytes foreignFrame(int sid)
    {
        // requests for and replies of other slaves, also replies that look like requests
        Bytes b = {(u8)sid};
        static const int fcs[] = {1, 2, 3, 4, 5, 6, 15, 16};
        int fc = fcs[r.range(0, 7)];
        b.push_back(fc);
        int n = (int)(r.pct(60) ? r.range(2, 8) : r.range(2, 200));
        if (r.pct(50))
        {
            b.push_back(n);
            for (int i = 0; i < n; i++)
                b.push_back((u8)r.next());
        }
        else
        {
            put16(b, (int)r.range(0, 120));
            put16(b, (int)r.range(0, 40));
        }
        addCrc(b);
        return b;
    }
    int otherSid()
    {
        for (;;)
        {
            int c = r.pct(15) ? 0 : r.pct(20) ? (int)r.range(248, 255) : (int)r.range(1, 247);
            bool used = false;
            for (auto &n : p.node)
                if ((n.roles & 6) && n.sid == c)
                    used = true;
            if (!used)
                return c;
        }
    }
    // a few requests and application changes, all of one variable and two values of it
    i64 story(int bus, int mi, int si, i64 t)
    {
        const NodeCfg &n = p.node[si];
        int tab = (n.roles & 2) && r.pct(25) ? 0 : 3;
        int size = n.roles & 2 ? tabSize(n.variant, tab) : 2000;
        if (size < 1)
            return t;
        int adr = (int)(r.pct(30) ? 0 : r.pct(30) ? size - 1 : r.range(0, std::min(size, 40) - 1));
        int v[2] = {tab == 0 ? 0 : anyValue(), tab == 0 ? 1 : anyValue()};
        int k = (int)r.range(4, 10);
        for (int i = 0; i < k; i++)
        {
            int x = v[r.range(0, 1)];
            int op = (int)r.range(0, 9);
            if (op < 3)
            {
                if (!(n.roles & 2))
                    continue;
                Item it;
                it.kind = IT_MUT;
                it.t = t;
                it.a = {(i64)si, tab, adr, x};
                p.items.push_back(it);
                t += r.range(1, 2000) * 1000;
                continue;
            }
            RQ q;
            q.sid = n.sid;
            q.adr = adr;
            q.qty = 1;
            q.val = tab == 0 ? (x ? 0xFF00 : 0) : x;
            q.seed = 0;
            bool read = op < 6;
            q.fc = read ? (tab == 0 ? 1 : 3) : (tab == 0 ? 5 : 6);
            if (read && r.pct(25))
            {
                int more = (int)r.range(0, std::min(adr, 5));
                q.adr -= more;
                q.qty += more + (int)r.range(0, std::min(size - 1 - adr, r.pct(50) ? 0 : 4));
            }
            Item it;
            it.t = t;
            if (mi >= 0)
            {
                it.kind = IT_REQ;
                if (!read && tab == 0)
                    q.val = x;
                it.a = {mi, q.fc, q.adr, q.qty, q.sid, q.val, q.seed};
            }
            else
            {
                it.kind = IT_RAW;
                it.a = {bus};
                it.data = {(u8)q.sid, (u8)q.fc};
                put16(it.data, q.adr);
                put16(it.data, read ? q.qty : q.val);
                addCrc(it.data);
            }
            p.items.push_back(it);
            t += exchUs(bus, q) * 1000 + 2 * n.periodUs * 1000 + r.range(0, 6) * MS;
        }
        return t + 4 * MS;
    }
    i64 rawTraffic(int bus, i64 t, int count, bool master, i64 idleNs = 0)
    {
        int idleAt = (int)r.range(0, count - 1);
        bool dense = !master && r.pct(f.dense); // hardly a pause: something arrives while the slave deals with what came before
        std::vector<int> sl;
        for (size_t i = 0; i < p.node.size(); i++)
            if ((p.node[i].roles & 6) && p.node[i].sbus == bus)
                sl.push_back((int)i);
        for (int k = 0; k < count; k++)
        {
            if (k == idleAt)
                t += idleNs;
            if (!master && !sl.empty() && r.pct(f.story))
            {
                int si = r.pick(sl);
                if (p.node[si].roles & 2)
                {
                    t = story(bus, -1, si, t);
                    continue;
                }
            }
            Item it;
            it.kind = IT_RAW;
            it.t = t;
            it.a = {bus};
            bool clean = !master && r.pct(f.clean);
            bool waitReply = true;
            if (!sl.empty() && r.pct(clean ? 92 : 70))
            {
                const NodeCfg &n = p.node[r.pick(sl)];
                it.data = rawRequest(n.sid, n.variant, clean);
                if (!clean && r.pct(85))
                    mangle(it.data, it, bus);
                if (master && it.data.size() > 40)
                    it.data.resize(40);
            }
            else
            {
                it.data = foreignFrame(otherSid());
                if (!clean && r.pct(40))
                    mangle(it.data, it, bus);
                waitReply = false;
            }
            i64 dur = (i64)it.data.size() * charNs(bus);
            for (size_t g = 2; g < it.a.size(); g += 2)
                dur += it.a[g] * charNs(bus) / 10;
            p.items.push_back(it);
            t += dur;
            int c = (int)r.range(0, 9);
            if (master)
                t += r.range(0, 40) * MS;
            else if (dense && r.pct(80))
                t += gapTenths(bus, r.pct(60) ? 2 : r.pct(70) ? 1 : 0) * charNs(bus) / 10;
            else if (c == 0)
                t += t35(bus) * r.range(20, 120) / 100; // perhaps too soon
            else if (c == 1)
                t += t35(bus) * r.range(105, 200) / 100;
            else
                t += t35(bus) + (waitReply ? (r.pct(70) ? 60 : 260) * charNs(bus) : 0) + r.range(0, 10) * MS + (r.pct(20) ? r.range(0, 60) * MS : 0);
        }
        return t;
    }

    // faults ----------------------------------------------------------------------------------
    TxFault genFault(int tx, int bus)
    {
        TxFault x;
        x.tx = tx;
        if (r.pct(f.forge))
        {
            x.kind = F_FORGE;
            x.a = r.range(0, 12);
            x.b = r.range(0, 255);
            x.c = r.range(0, 65535);
            return x;
        }
        static const int kinds[] = {F_XOR, F_XOR, F_XOR, F_DROP, F_DUP, F_GAP, F_GAP, F_TRUNC, F_NOISEPRE, F_NOISEPOST, F_LOSE, F_LOSE, F_DELAY, F_DUPFRAME, F_GARBLE, F_BYST, F_BYST};
        x.kind = kinds[r.range(0, 16)];
        x.c = (i64)(r.next() >> 8);
        switch (x.kind)
        {
        case F_XOR:
            x.a = r.pct(20) ? 0 : r.range(0, 250);
            x.b = r.pct(60) ? 1 << r.range(0, 7) : r.range(1, 255);
            x.c = r.pct(75) ? 0 : r.range(1, 255);
            break;
        case F_DROP: case F_DUP: x.a = r.range(0, 250); break;
        case F_GAP:
            x.a = r.range(0, 250);
            x.b = gapTenths(bus, r.pct(75) ? 1 : (int)r.range(0, 2));
            break;
        case F_TRUNC: x.a = r.range(1, 12); break;
        case F_NOISEPRE: case F_NOISEPOST:
            x.a = r.pct(85) ? r.range(1, 6) : r.range(6, 280);
            x.b = gapTenths(bus, (int)r.range(0, 2));
            break;
        case F_DELAY: x.a = r.pct(60) ? r.range(100, 8000) : r.range(8000, 120000); break;
        case F_DUPFRAME: x.b = gapTenths(bus, (int)r.range(1, 2)); break;
        case F_BYST:
            x.a = r.pct(80) ? r.range(2, 12) : r.range(12, 240);
            x.b = r.pct(85) ? gapTenths(bus, 2) + r.range(0, 200) : gapTenths(bus, 1);
            break;
        }
        return x;
    }
    TxFault damageFault(int tx, int bus)
    {
        TxFault x;
        x.tx = tx;
        x.c = (i64)(r.next() >> 8);
        switch (r.range(0, 5))
        {
        case 0: x.kind = F_XOR; x.a = r.range(1, 250); x.b = 1 << r.range(0, 7); x.c = 0; break;
        case 1: x.kind = F_GAP; x.a = r.range(0, 250); x.b = gapTenths(bus, 1); break;
        case 2: x.kind = F_TRUNC; x.a = r.range(2, 7); break;
        case 3: x.kind = F_DUP; x.a = r.range(1, 250); break;
        case 4: x.kind = F_NOISEPOST; x.a = r.range(1, 3); x.b = gapTenths(bus, (int)r.range(0, 1)); break;
        default: x.kind = F_DROP; x.a = r.range(1, 250); break;
        }
        return x;
    }

    // situations that a driver meets: noise before the first request, noise while a request to nobody is under way,
    // a frame directly behind more characters than the buffer holds
    void stmSpecials()
    {
        auto noise = [&](i64 t, int n) {
            Item it;
            it.kind = IT_RAW;
            it.t = std::max<i64>(0, t);
            it.a = {0};
            for (int i = 0; i < n; i++)
                it.data.push_back((u8)r.next());
            if (n > 1 && r.pct(30))
            {
                it.a.push_back(r.range(1, n - 1));
                it.a.push_back(gapTenths(0, (int)r.range(0, 2)));
            }
            p.items.push_back(it);
        };
        std::vector<size_t> reqs;
        for (size_t i = 0; i < p.items.size(); i++)
            if (p.items[i].kind == IT_REQ)
                reqs.push_back(i);
        if (!reqs.empty() && r.pct(20))
        {
            i64 d = r.range(1, 40) * MS;
            for (auto &i : p.items)
                i.t += d;
            p.tQuiet += d;
            noise(r.range(0, d / 1000) * 1000, (int)r.range(1, 5));
        }
        if (!reqs.empty() && r.pct(35))
        {
            int k = (int)r.range(1, 5);
            for (int j = 0; j < k; j++)
            {
                size_t i = reqs[r.range(0, reqs.size() - 1)];
                if (r.pct(50))
                    p.items[i].a[4] = otherSid() | 1;
                noise(p.items[i].t + r.range(-8, 4) * charNs(0) + r.range(-300, 900) * 1000, (int)r.range(1, 4));
            }
        }
        std::vector<int> sl;
        for (size_t i = 0; i < p.node.size(); i++)
            if (p.node[i].roles & 2)
                sl.push_back((int)i);
        if (reqs.empty() && !sl.empty() && r.pct(25))
        {
            const NodeCfg &n = p.node[r.pick(sl)];
            Item it;
            it.kind = IT_RAW;
            it.t = r.range(0, p.tQuiet / 1000) * 1000;
            it.a = {0};
            int k = r.pct(70) ? 256 : (int)r.range(245, 520);
            for (int i = 0; i < k; i++)
                it.data.push_back((u8)r.next());
            Bytes q = rawRequest(n.sid, n.variant, true);
            it.data.insert(it.data.end(), q.begin(), q.end());
            p.items.push_back(it);
        }
    }

    Plan build()
    {
        if (r.pct(small ? 40 : 4))
        {
            int k = (int)r.range(1, 2);
            p.palette = (u64)dataValue(r.next(), k) | (u64)dataValue(r.next(), k) << 16 | (u64)dataValue(r.next(), k) << 32;
            p.palette |= 1ull << 62;
            g_palette = p.palette;
        }
        int w = (int)r.below(f.wA + f.wB + f.wC + f.wD);
        int sc = w < f.wA ? 0 : w < f.wA + f.wB ? 1 : w < f.wA + f.wB + f.wC ? 2 : 3;
        std::vector<int> masters;
        switch (sc)
        {
        case 0:
        {
            addBus(2);
            addMaster(0);
            int k = r.pct(f.multi) ? (int)r.range(2, 3) : 1;
            for (int i = 0; i < k; i++)
                addSlave(0);
            if (r.pct(15))
                addStub(0);
            break;
        }
        case 1:
        {
            addBus(2);
            addMaster(0);
            int k = r.pct(40) ? 2 : 1;
            for (int i = 0; i < k; i++)
                addStub(0);
            break;
        }
        case 2:
        {
            addBus(0);
            int k = r.pct(f.multi) ? (int)r.range(2, 3) : 1;
            for (int i = 0; i < k; i++)
                addSlave(0);
            break;
        }
        default:
        {
            addBus(2);
            addBus(2);
            addMaster(0);
            NodeCfg g;
            g.variant = variantM();
            g.roles = 3;
            g.sbus = 0;
            g.mbus = 1;
            g.sid = freshSid();
            timing(g);
            if (g.periodUs > 4000)
                g.periodUs = r.range(100, 1500);
            p.node.push_back(g);
            if (r.pct(60))
                addSlave(1);
            else
                addStub(1);
            if (r.pct(35))
                p.node.back().sid = g.sid; // another line: ids need not differ
            if (r.pct(30))
                addSlave(0);
            break;
        }
        }
        // the response timeout must leave room for the reply on a healthy line
        for (auto &n : p.node)
            if ((n.roles & 1) && g_img[n.variant % g_nvar][0].cfg[1] < 50 && p.bus[n.mbus].baud < 19200)
                n.variant = 1 % nvar;
        for (size_t i = 0; i < p.node.size(); i++)
            if (p.node[i].roles & 1)
                masters.push_back((int)i);

        int scale = thorough && r.pct(30) ? 3 : 1;
        // a few runs are long: counters of one byte wrap; or contain a long idle time: counters of two bytes wrap
        bool marathon = r.range(0, 999) < (thorough ? 25 : 15), longIdle = r.range(0, 999) < (thorough ? 10 : 4);
        bool endurance = marathon && r.pct(70); // hundreds of exchanges that all take place, on nodes that stay up
        if (marathon || longIdle)
            for (auto &n : p.node)
                n.periodUs = endurance ? r.range(150, 600) : std::max<i64>(n.periodUs, longIdle ? r.range(1000, 4000) : r.range(150, 600));
        if (endurance)
        {
            f.absent = std::min(f.absent, 3);
            f.stall = f.tickStall = f.raw = 0;
            f.preempt = f.preempt > 90 ? 40 : f.preempt / 3;
            if (f.power < 30)
                f.power = 0;
            if (f.reinit < 30)
                f.reinit = 0;
        }
        i64 idleNs = longIdle ? r.range(60000, 140000) * MS : 0;
        i64 tEnd = 2 * MS;
        // requests
        for (int mi : masters)
        {
            const NodeCfg mc = p.node[mi];
            std::vector<int> sl;
            for (size_t i = 0; i < p.node.size(); i++)
                if ((p.node[i].roles & 6) && p.node[i].sbus == mc.mbus)
                    sl.push_back((int)i);
            int n = (int)r.range(2, r.pct(30) ? 30 : 14) * scale;
            i64 t = r.range(0, 5000) * 1000;
            bool burst = r.pct(f.burst);
            int left = 0;
            if (marathon)
                n = (int)r.range(200, 700);
            i64 freeAt = t; // when the master will have served all it was asked for
            int idleAt = longIdle ? (int)r.range(0, n - 1) : -1;
            for (int i = 0; i < n; i++)
            {
                if (i == idleAt)
                    t += idleNs;
                int si = r.pick(sl);
                const NodeCfg &sn = p.node[si];
                RQ q = genReq(r.pct(f.absent) ? otherSid() : sn.sid, sn.variant, sn.roles & 2);
                if (q.sid == 0)
                    q.sid = 249;
                if (marathon && !r.pct(10))
                    q.qty = std::min(q.qty, (int)r.range(1, 9));
                Item it;
                it.kind = IT_REQ;
                it.t = t;
                it.a = {mi, q.fc, q.adr, q.qty, q.sid, q.val, q.seed};
                p.items.push_back(it);
                if (endurance)
                {
                    const int *cfg = g_img[mc.variant % g_nvar][0].cfg;
                    bool there = false;
                    for (int k : sl)
                        there |= p.node[k].sid == q.sid;
                    freeAt = std::max(freeAt, t) + (there ? exchUs(mc.mbus, q) * 1000 + 3 * MS : (cfg[1] + 3) * MS);
                    if (left <= 0)
                    {
                        // next group of requests, when the queue has run down to some depth
                        left = (int)r.range(1, cfg[0] + (r.pct(10) ? 3 : 0));
                        t = freeAt + (r.pct(50) ? r.range(0, 3) * MS : 0);
                    }
                    left--;
                    t += r.pct(50) ? 0 : r.range(0, 300) * 1000;
                }
                else if (left > 0)
                {
                    left--;
                    t += r.pct(50) ? 0 : r.range(0, 200) * 1000;
                }
                else if (burst && r.pct(40))
                {
                    int N = g_img[mc.variant % g_nvar][0].cfg[0];
                    left = N > 9 && r.pct(40) ? (int)r.range(9, N + 3) : (int)r.range(1, 9);
                    t += r.range(0, 3000) * 1000;
                }
                else
                    t += exchUs(mc.mbus, q) * 1000 * r.range(30, 250) / 100 + (r.pct(15) ? r.range(0, 80) * MS : 0);
            }
            if (r.pct(4 * f.story))
                t = story(mc.mbus, (int)mi, r.pick(sl), t);
            tEnd = std::max(tEnd, t + 20 * MS);
            if (r.pct(f.cb))
            {
                int k = (int)r.range(1, 10);
                int nth = 0;
                int again = r.pct(std::min(40, f.reinit)) ? 40 : 0;
                for (int i = 0; i < k; i++)
                {
                    int si = r.pick(sl);
                    const NodeCfg &sn = p.node[si];
                    RQ q = genReq(r.pct(f.absent) ? 251 : sn.sid, sn.variant, sn.roles & 2);
                    Item it;
                    it.kind = IT_CBREQ;
                    it.t = 0;
                    nth += r.pct(25) ? 0 : (int)(r.pct(70) ? r.range(1, 3) : r.range(1, 60));
                    it.a = {mi, std::max(1, nth), q.fc, q.adr, q.qty, q.sid, q.val, q.seed};
                    p.items.push_back(it);
                    if (again && r.pct(again))
                    {
                        it.a = {mi, std::max(1, nth), 99, !stm() && r.pct(f.mode / 2)};
                        p.items.push_back(it);
                        if (r.pct(60)) // and requests of the fresh master in the same callback
                            nth -= 1, again = r.pct(50) ? 0 : again;
                    }
                }
            }
        }
        if (sc == 2)
            tEnd = std::max(tEnd, rawTraffic(0, r.range(0, 20) * MS, marathon ? (int)r.range(200, 700) : (int)r.range(3, r.pct(30) ? 40 : 16) * scale, false, idleNs));
        else if (r.pct(f.raw))
            rawTraffic(r.range(0, p.bus.size() - 1), r.range(0, std::max<i64>(1, tEnd / MS)) * MS, (int)r.range(1, 6), true);

        // faults
        if (r.pct(f.faults))
        {
            int per = r.pct(f.heavy) ? (int)r.range(20, 60) : (int)r.range(2, 12);
            int b0 = 0;
            if (marathon)
                per = (int)r.range(1, 4);
            for (int tx = 0; tx < (marathon ? 1400 : 60 * scale); tx++)
                if (r.pct(per))
                {
                    p.faults.push_back(genFault(tx, b0));
                    if (p.faults.back().kind == F_FORGE && p.faults.back().a == 5 && r.pct(50))
                    {
                        // too short but CRC valid; the missing bytes follow late
                        TxFault y;
                        y.tx = tx;
                        y.kind = F_NOISEPOST;
                        y.a = 1 + p.faults.back().b % 4;
                        y.b = gapTenths(b0, r.pct(70) ? 1 : 2);
                        y.c = (i64)(r.next() >> 8);
                        p.faults.push_back(y);
                    }
                    if (r.pct(8))
                        p.faults.push_back(genFault(tx, b0));
                }
        }
        if (!masters.empty() && r.pct(f.damageRuns))
        {
            // a stretch in which (almost) every reply is damaged: requests are even, replies odd transmissions
            int k = (int)r.range(1, 3);
            for (int i = 0; i < k; i++)
            {
                int start = (int)r.range(0, marathon ? 900 : 20), len = (int)r.range(2, 20), skip = (int)r.range(0, 25);
                for (int tx = start; tx < start + len; tx++)
                    if ((tx & 1) && !r.pct(skip))
                        p.faults.push_back(damageFault(tx, 0));
            }
        }
        // node events
        bool newSids = r.pct(30); // some slaves get a new id when they are initialised again
        std::set<int> taken;
        for (size_t i = 0; i < p.node.size(); i++)
        {
            const NodeCfg &n = p.node[i];
            if (!(n.roles & 3))
                continue;
            auto at = [&]() { return r.range(0, tEnd / 1000) * 1000; };
            auto add = [&](int kind, std::vector<i64> a) {
                Item it;
                it.kind = kind;
                it.t = at();
                it.a = a;
                p.items.push_back(it);
            };
            if (r.pct(f.stall))
            {
                int k = (int)r.range(1, 6);
                for (int j = 0; j < k; j++)
                    add(IT_STALL, {(i64)i, r.pct(50) ? r.range(500, 8000) : r.range(8000, 90000)});
            }
            if ((n.roles & 1) && r.pct(f.tickStall))
                add(IT_TICKSTALL, {(i64)i, r.range(1000, 40000)});
            if (r.pct(f.stall))
                add(IT_PERIOD, {(i64)i, r.pct(50) ? r.range(20, 500) : r.range(500, 12000)});
            if (r.pct(f.reinit))
            {
                int k = (int)r.range(1, 4);
                for (int j = 0; j < k; j++)
                {
                    int role = (n.roles & 3) == 3 ? (int)r.range(0, 1) : (n.roles & 1) ? 0 : 1;
                    int sid = -1;
                    if (role == 1 && newSids && r.pct(40))
                    {
                        sid = otherSid();
                        if (sid < 1 || sid > 247 || taken.count(sid))
                            sid = -1;
                        else
                            taken.insert(sid);
                    }
                    add(IT_REINIT, {(i64)i, role, sid});
                }
            }
            if (!stm() && r.pct(f.mode))
            {
                int k = (int)r.range(1, 3);
                for (int j = 0; j < k; j++)
                {
                    int role = (n.roles & 3) == 3 ? (int)r.range(0, 1) : (n.roles & 1) ? 0 : 1;
                    add(IT_REINIT, {(i64)i, role, -1, 1});
                    i64 t = p.items.back().t + (r.pct(50) ? r.range(0, 20) : r.range(0, 200)) * MS;
                    if (r.pct(80) && t < tEnd)
                    {
                        add(IT_REINIT, {(i64)i, role, -1, 0});
                        p.items.back().t = t;
                    }
                }
            }
            if (r.pct(f.power))
            {
                int k = (int)r.range(1, 2);
                for (int j = 0; j < k; j++)
                    add(IT_PWR, {(i64)i, r.pct(60) ? r.range(10, 3000) : r.range(3000, 40000)});
            }
            if ((n.roles & 2) && r.pct(f.mut))
            {
                int k = (int)r.range(1, 15 + 15 * small);
                for (int j = 0; j < k; j++)
                {
                    int tab = (int)r.range(0, 3), adr = (int)r.range(0, std::min(tabSize(n.variant, tab), r.pct(70) ? 40 : 100000) - 1);
                    if (!asked.empty() && r.pct(small ? 90 : 40))
                        aim(n, tab, adr);
                    add(IT_MUT, {(i64)i, tab, adr, anyValue()});
                }
            }
            if ((n.roles & 2) && r.pct(f.unreg))
            {
                int k = (int)r.range(1, 8);
                for (int j = 0; j < k; j++)
                {
                    int tab = (int)r.range(0, 3), adr = (int)r.range(0, std::min(tabSize(n.variant, tab), 40) - 1);
                    if (!asked.empty() && r.pct(small ? 80 : 30))
                        aim(n, tab, adr);
                    add(IT_REG, {(i64)i, tab, adr, r.pct(30) ? 2 : r.pct(50) ? 1 : 0});
                }
            }
        }
        p.tQuiet = tEnd + (r.pct(50) ? 0 : r.range(0, 40) * MS);
        if (r.pct(f.preempt))
        {
            p.preemptMode = 1;
            p.preemptGap = r.pct(50) ? (int)r.range(5, 120) : (int)r.range(120, 2500);
            p.preemptStyle = r.pct(40) ? 0 : (int)r.range(1, 3);
            if (p.preemptStyle & 2)
            {
                p.preemptGap = 20 << r.range(0, 9);
                if (r.pct(50))
                    p.preemptGap = p.preemptGap * 3 / 2;
            }
            p.preemptDur = (int)r.range(1, 255);
            if (r.pct(60))
                p.preemptDur &= 15 + 192;
            if (r.pct(p.prop == "C20" ? 50 : 30)) // around accesses to variables that interrupts write
            {
                p.preemptStyle = 8;
                p.preemptGap = 2 << r.range(0, 5);
                if (r.pct(50))
                    p.preemptDur |= 192;
                if (r.pct(15)) // frames that are CRC valid but too short, the missing bytes following just after 3.5 characters
                    for (int tx = 0; tx < 40 * scale; tx++)
                        if (r.pct(40))
                        {
                            TxFault x, y;
                            x.tx = y.tx = tx;
                            x.kind = F_FORGE;
                            x.a = 5;
                            x.b = r.range(0, 255);
                            y.kind = F_NOISEPOST;
                            y.a = 1 + x.b % 4;
                            y.b = gapTenths(0, 2);
                            y.c = (i64)(r.next() >> 8);
                            p.faults.push_back(x);
                            p.faults.push_back(y);
                        }
            }
            if (!p.preemptDur)
                p.preemptDur = 3;
        }
        int pn = atoi(p.prop.c_str() + 1);
        if (pn == 24)
        {
            stmSpecials();
            if (p.preemptMode && r.pct(30))
                p.preemptStyle |= 4;
        }
        if (pn == 22)
            p.twin = 1;
        else if (r.pct(pn == 18 ? 50 : pn == 11 ? 25 : pn == 20 ? 20 : 8))
        {
            p.appIrq = 1 << r.range(0, 7);
            if (!p.preemptMode) // nothing but that
            {
                p.preemptMode = 1;
                p.preemptGap = 1 << 30;
                p.preemptStyle = 0;
                p.preemptDur = 1;
            }
        }
        if (pn == 21)
            p.asan = 1;
        p.cf = pn == 19 ? 1 : pn == 20 ? 2 : pn == 23 ? 3 : pn == 26 ? 4 : 0;
        std::stable_sort(p.items.begin(), p.items.end(), [](const Item &a, const Item &b) { return a.t < b.t; });
        if (!taken.empty())
        {
            std::map<int, int> now; // configured id -> id now
            for (auto &it : p.items)
                if (it.kind == IT_REINIT && it.a[2] > 0)
                    now[p.node[it.a[0]].sid] = (int)it.a[2];
                else if (it.kind == IT_REQ && now.count((int)it.a[4]) && r.pct(75))
                    it.a[4] = now[(int)it.a[4]];
                else if (it.kind == IT_RAW && crcOk(it.data) && now.count(it.data[0]) && r.pct(75))
                {
                    it.data[0] = (u8)now[it.data[0]];
                    it.data.resize(it.data.size() - 2);
                    addCrc(it.data);
                }
        }
        return p;
    }
};

// one master and one real slave, tens of thousands of small exchanges: 0 undamaged, 1 all replies damaged, 2 no
// slave of that id or all requests damaged, 3 some damage of every kind
Plan genEndless(const std::string &prop, u64 seed, int nvar, int kind)
{
    Rng r(seed);
    Plan p;
    p.prop = prop;
    p.seed = seed;
    p.sched = r.next();
    p.bus.push_back({r.pct(50) ? 230400 : 115200, (int)r.range(0, 2)});
    for (int k = 0; k < 2; k++)
    {
        NodeCfg n;
        n.variant = (int)r.range(0, std::min(nvar, 5) - 1);
        if (k == 0 && kind >= 2)
            n.variant = std::min(2, nvar - 1); // the one with the short response timeout
        n.roles = 1 + k;
        (k ? n.sbus : n.mbus) = 0;
        n.sid = k ? (int)r.range(1, 247) : 0;
        n.periodUs = r.range(250, 500);
        n.jitter = (int)r.range(0, 30);
        n.tickPhaseUs = r.range(0, 999);
        n.varSeed = r.next() >> 1;
        n.order = (int)r.range(0, 1);
        n.txDone[k] = r.pct(60) ? 0 : 1;
        p.node.push_back(n);
    }
    Item it;
    it.kind = IT_LOOP;
    it.t = 2 * MS;
    i64 count = 66000 + r.range(0, 800), sid = p.node[1].sid, dm = 0, ds = 0;
    if (kind == 1)
    {
        ds = 100;
        if (r.pct(60))
            p.node[0].variant = std::min(r.pct(50) ? 2 : 4, nvar - 1); // no or one repetition
        int rep = g_img[p.node[0].variant][0].cfg[2];
        if (rep > 1)
            count = count / (1 + rep) + 1;
    }
    if (kind == 2)
    {
        if (r.pct(50))
            sid = sid == 9 ? 10 : 9;
        else
            dm = 100;
    }
    if (kind == 3)
        dm = r.range(1, 15), ds = r.range(5, 40);
    it.a = {0, count, sid, r.range(1, g_img[p.node[0].variant][0].cfg[0]), (i64)(r.next() >> 2), r.pct(50) ? 0 : r.range(1, 30), dm, ds, kind == 3};
    p.items.push_back(it);
    p.tQuiet = 10 * MS;
    return p;
}

Plan genPlan(const std::string &prop, u64 seed, int nvar, bool thorough)
{
    Gen g(seed, prop, nvar, thorough);
    return g.build();
}
