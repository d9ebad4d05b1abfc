// The serial line, the UART/timer hardware behind the library's driver interface, and the line faults.
#include "world.hpp"

static const i64 US = 1000, MS = 1000000;

static bool sameWire(const std::vector<El> &els, const Bytes &orig)
{
    if (els.size() != orig.size())
        return false;
    for (size_t i = 0; i < els.size(); i++)
        if (els[i].pos != (int)i || els[i].x)
            return false;
    return true;
}

Bytes World::forge(const Bytes &o, i64 kind, i64 b, i64 c)
{
    Bytes f = o;
    if (f.size() >= 4)
        f.resize(f.size() - 2);
    if (f.size() < 2)
        return o;
    u64 r = h3(b, c, 91);
    switch (kind % 13)
    {
    case 0: f[0] ^= (u8)(b | 1); break;
    case 1: f[1] = (u8)((f[1] & 0x80) | ((f[1] + 1 + b % 15) & 0x1F)); break;
    case 2: f = {f[0], (u8)(f[1] | 0x80), (u8)(c & 15)}; break;
    case 3: if (f.size() > 2) f[2] = (u8)(f[2] + 1 + b % 255); break;
    case 4:
        for (int i = 0; i < 1 + b % 4; i++)
            f.push_back((u8)h2(r, i));
        break;
    case 5: f.resize(std::max<size_t>(2, f.size() - (1 + b % 4 > (i64)f.size() - 2 ? f.size() - 2 : 1 + b % 4))); break;
    case 6: f[f.size() - 1 - (size_t)(b % (f.size() > 3 ? f.size() - 3 : 1))] ^= (u8)(1u << (c & 7)); break;
    case 7: if (f.size() >= 6) f[2 + b % 4] ^= (u8)(c | 1); break;
    case 8: f.resize(b & 1 ? 1 : 2); break;
    case 9: f[1] ^= 0x80; break;
    case 10:
    {
        size_t n = 2 + b % 60;
        Bytes g = {f[0], f[1]};
        while (g.size() < n)
            g.push_back((u8)h3(r, g.size(), 3));
        f = g;
        break;
    }
    case 11: // one element more or fewer, byte count consistent with the length
        if (f.size() > 4)
        {
            int d = (b & 1) ? 2 : -2;
            if (c & 1)
                d /= 2;
            if (d > 0)
                for (int i = 0; i < d; i++)
                    f.push_back((u8)h2(r, i));
            else if ((int)f.size() + d >= 3)
                f.resize(f.size() + d);
            f[2] = (u8)(f.size() - 3);
        }
        break;
    case 12: // exception with extra payload
        f = {f[0], (u8)(f[1] | 0x80), (u8)(c & 15)};
        for (int i = 0; i < 1 + b % 6; i++)
            f.push_back((u8)h2(r, i));
        break;
    }
    if (f.size() > 253)
        f.resize(253);
    addCrc(f);
    return f;
}

void World::buildEls(Tx &t, bool faultable)
{
    i64 ch = bus[t.bus].ch;
    auto base = [&](size_t n) {
        t.els.clear();
        for (size_t i = 0; i < n; i++)
        {
            El e;
            e.pos = (int)i;
            e.own = true;
            t.els.push_back(e);
        }
    };
    base(t.orig.size());
    if (!faultable)
        return;
    int idx = txCount++;
    auto noise = [&](i64 n, u64 seed) {
        std::vector<El> v;
        for (i64 i = 0; i < n; i++)
        {
            El e;
            u64 r = h3(seed, i, 17);
            e.lit = (u8)r;
            e.gap = (r >> 20) % 4 == 0 ? (i64)((r >> 24) % 30) * ch / 10 : 0;
            v.push_back(e);
        }
        return v;
    };
    std::vector<TxFault> fl;
    for (auto &f : pl.faults)
        if (f.tx == idx)
            fl.push_back(f);
    if (loopSeed && !quiet && t.port >= 0)
    {
        u64 h = h3(loopSeed, idx, 9);
        if ((i64)(h % 100) < (port[t.port].role == ROLE_M ? loopDmgM : loopDmgS))
        {
            static const int kinds[] = {F_XOR, F_XOR, F_DROP, F_DUP, F_GAP, F_TRUNC, F_LOSE, F_GARBLE};
            TxFault f;
            f.tx = idx;
            f.kind = loopAny ? kinds[(h >> 8) & 7] : F_XOR;
            f.a = (h >> 12) & 0xFF;
            f.b = f.kind == F_GAP ? 16 + ((h >> 20) & 63) : 1 + ((h >> 20) & 0x7F);
            f.c = f.kind == F_GARBLE ? (h >> 30) & 0xFFFFF : 0;
            if (!loopAny)
                f.a = 1 + (f.a & 3); // never the id
            if (f.kind == F_TRUNC)
                f.a &= 3;
            fl.push_back(f);
        }
    }
    for (auto &f : fl)
    {
        t.faulted = true;
        st.fault[f.kind]++;
        distHash = h3(distHash, 0x200 + f.kind, t.port);
        size_t n = t.els.size();
        trace("fault %s on transmission %d (%lld %lld %lld)", faultNames[f.kind], idx, (long long)f.a, (long long)f.b, (long long)f.c);
        switch (f.kind)
        {
        case F_XOR:
            if (n)
            {
                El &e = t.els[f.a % n];
                e.x ^= (u8)(f.b & 0xFF ? f.b & 0xFF : 1);
                e.mask = (u32)f.c;
            }
            break;
        case F_DROP:
            if (n)
                t.els.erase(t.els.begin() + f.a % n);
            break;
        case F_DUP:
            if (n)
            {
                El e = t.els[f.a % n];
                e.gap = 0;
                t.els.insert(t.els.begin() + f.a % n + 1, e);
            }
            break;
        case F_GAP:
            if (n > 1)
                t.els[1 + f.a % (n - 1)].gap = f.b * ch / 10;
            break;
        case F_TRUNC:
            if (n && (size_t)f.a < n)
                t.els.resize((size_t)f.a);
            break;
        case F_NOISEPRE:
        {
            auto v = noise(f.a, f.c);
            if (n)
                t.els[0].gap = f.b * ch / 10;
            t.els.insert(t.els.begin(), v.begin(), v.end());
            break;
        }
        case F_NOISEPOST:
        {
            auto v = noise(f.a, f.c);
            if (!v.empty())
                v[0].gap = f.b * ch / 10;
            t.els.insert(t.els.end(), v.begin(), v.end());
            break;
        }
        case F_LOSE:
            t.els.clear();
            break;
        case F_DELAY:
            if (n)
                t.els[0].gap += f.a * US;
            break;
        case F_FORGE:
        {
            Bytes fb = forge(t.orig, f.a, f.b, f.c);
            t.els.clear();
            for (u8 c : fb)
            {
                El e;
                e.lit = c;
                e.own = true;
                t.els.push_back(e);
            }
            break;
        }
        case F_DUPFRAME:
        {
            std::vector<El> v = t.els;
            if (!v.empty())
                v[0].gap = f.b * ch / 10;
            t.els.insert(t.els.end(), v.begin(), v.end());
            t.copies++;
            break;
        }
        case F_GARBLE:
            for (size_t i = 0; i < n; i++)
                t.els[i].x ^= (u8)(h3(f.c, i, 4) | 1);
            break;
        case F_BYST:
        {
            // a CRC-valid frame of nobody on this bus (id 250..254) just before ours
            Bytes fb = {(u8)(250 + f.c % 5), (u8)(1 + (f.c >> 3) % 16)};
            while ((i64)fb.size() < std::max<i64>(2, f.a))
                fb.push_back((u8)h3(f.c, fb.size(), 6));
            if (((f.c >> 11) & 7) < 2)
                fb[1] |= 0x80;
            addCrc(fb);
            if (((f.c >> 14) & 7) < 3)
                fb[1 + (f.c >> 17) % (fb.size() - 1)] ^= (u8)(1 << ((f.c >> 25) & 7)); // of nobody, and damaged as well
            if (n)
                t.els[0].gap = f.b * ch / 10;
            std::vector<El> v;
            for (u8 c : fb)
            {
                El e;
                e.lit = c;
                v.push_back(e);
            }
            t.els.insert(t.els.begin(), v.begin(), v.end());
            break;
        }
        }
    }
    t.altered = !sameWire(t.els, t.orig);
}

// begins to transmit; returns the moment the transmitter itself is done
void World::planByte(Tx &t, i64 gap)
{
    push(now + gap, EV_BSTART, t.id);
    bus[t.bus].planned = std::max(bus[t.bus].planned, now + gap);
}

i64 World::startTx(Tx &t, int portId)
{
    Port &p = port[portId];
    t.port = portId;
    t.bus = p.bus;
    t.t0 = now;
    i64 ch = bus[t.bus].ch;
    buildEls(t, !quiet);
    p.tx = t.id;
    p.txg++;
    p.wireTx = true;
    i64 at = now, endOwn = now + (i64)t.orig.size() * ch;
    for (auto &e : t.els)
    {
        at += e.gap + ch;
        if (e.own)
            endOwn = std::max(endOwn, at);
    }
    if (!t.els.empty())
        planByte(t, t.els[0].gap);
    push(endOwn, EV_WIREEND, p.id, 0, p.txg);
    return endOwn;
}

void World::byteStart(Tx &t)
{
    while (t.dead && t.next < t.els.size() && t.els[t.next].own)
        t.next++;
    if (t.next >= t.els.size())
        return;
    El &e = t.els[t.next];
    if (e.pos >= 0)
    {
        t.curVal = t.orig[e.pos];
        if (t.port >= 0 && !port[t.port].stub)
        {
            Node &n = node[port[t.port].node];
            if (!n.dead && !t.dead)
            {
                // the UART fetches the byte from the library's buffer now, not when send() was called
                int live = n.img[port[t.port].role]->tx_byte(port[t.port].role, e.pos) & 0xFF;
                if (live != t.orig[e.pos])
                {
                    int role = port[t.port].role;
                    viol((role == ROLE_M ? P(3) : P(11)) | P(20), n.id, "tx-buffer-changed", "node %d: byte %d of the frame being transmitted changed from %02x to %02x", n.id, e.pos, t.orig[e.pos], live);
                    t.curVal = (u8)live;
                    t.altered = true;
                }
            }
        }
    }
    else
        t.curVal = e.lit;
    Bus &b = bus[t.bus];
    t.coll = !b.cur.empty();
    if (t.coll)
    {
        st.collisions++;
        for (int o : b.cur)
            tx[o].coll = true;
    }
    b.cur.push_back(t.id);
    t.hear.clear();
    for (int pi : b.ports)
    {
        Port &p = port[pi];
        if ((e.own && pi == t.port) || p.wireTx)
            continue;
        if (!p.stub && (!p.inited || node[p.node].dead))
            continue;
        if (p.stm ? hwImg(p)->hw_rxon() : p.en || p.stub)
        {
            p.h.gRto++;
            if (p.st == 0 && p.busy == 0)
            {
                Node &n = node[p.node];
                p.startPolls = p.role == ROLE_M ? n.m.pollsDone : n.s.pollsDone;
                p.lastStart = now;
            }
            p.busy++;
            p.tg++;
            t.hear.push_back({pi, p.rg});
        }
        else if (p.role == ROLE_M && !p.stub && !p.stm && t.port >= 0 && port[t.port].role == ROLE_S && !t.altered && !t.coll && t.next == 0)
        {
            MasterM &m = node[p.node].m;
            if (m.at.active && m.at.tDone >= 0 && !m.pend.empty() && port[t.port].sid == m.pend.front().sid)
                m.at.deaf = true;
        }
    }
    push(now + b.ch, EV_BEND, t.id);
}

void World::byteEnd(Tx &t)
{
    El e = t.els[t.next];
    Bus &b = bus[t.bus];
    b.cur.erase(std::find(b.cur.begin(), b.cur.end(), t.id));
    b.lastByteEnd = now;
    u8 val = t.curVal;
    bool garbled = t.coll || (t.dead && e.own);
    if (garbled)
    {
        t.altered = true;
        val ^= (u8)(h3(t.id, t.next, 23) | 1);
    }
    t.next++;
    if (t.next < t.els.size())
        planByte(t, t.els[t.next].gap);
    std::vector<std::pair<int, u64>> hear;
    hear.swap(t.hear);
    for (int pi : b.ports)
    {
        Port &p = port[pi];
        if (e.own && pi == t.port)
            continue;
        bool heard = false;
        for (auto &h : hear)
            if (h.first == pi && h.second == p.rg)
                heard = true;
        if (heard)
            p.busy--;
        bool up = p.stub || (p.inited && !node[p.node].dead);
        if (!up)
            continue;
        if (!heard || p.wireTx || !(p.en || p.stub || p.stm))
        {
            st.lostBytes++;
            p.lastLost = now;
            if (p.open)
                p.cur.lost = true;
            if (!p.stm && p.st != 0 && p.busy == 0)
            {
                p.tg++;
                push(now + b.t15, EV_T15, p.id, 0, p.tg);
                push(now + b.t35, EV_T35, p.id, 0, p.tg);
            }
            continue;
        }
        u8 v = val;
        bool alt = garbled || t.altered || !e.own;
        if (e.x && (e.mask == 0 || (e.mask >> (pi & 31)) & 1))
        {
            v ^= e.x;
            alt = true;
        }
        if (p.stm)
            hwByte(p, v, t, alt);
        else
            portByteEnd(p, v, t, alt);
        if (stop)
            return;
    }
}

void World::portByteEnd(Port &p, int val, Tx &t, bool altered)
{
    Bus &b = bus[p.bus];
    Node &n = node[p.node];
    if (!p.open)
    {
        p.cur = Frame();
        p.open = true;
        p.cur.tFirst = p.st == 0 ? p.lastStart : now - b.ch;
        p.cur.origin = t.id;
        p.cur.afterOwnTx = p.lastWasOwnTx;
        p.cur.afterNoise = p.noiseSince;
        p.cur.afterForeign = p.foreignSince;
        u64 done = p.startPolls;
        p.cur.pollsSettled = done > p.pollsAtActivity ? done - p.pollsAtActivity : 0;
        if (p.txActive)
            p.cur.pollsSettled = 0; // its driver still believes to be transmitting
        if (now - b.ch - p.lastLost < b.t35)
            p.cur.lost = true;
        if (p.role == ROLE_M && n.m.at.active)
        {
            Attempt &a = n.m.at;
            if (!a.frames.empty())
            {
                u64 last = std::max(a.frames.back().polls35, a.noticePolls);
                if (a.noticeTick < 0 || n.m.pollsDone < last + 3)
                {
                    p.cur.merge = true;
                    st.mergedFrames++;
                }
            }
        }
    }
    if (p.cur.origin != t.id)
    {
        p.cur.mixed = true;
        altered = true;
    }
    p.cur.altered |= altered;
    if (p.st == 2)
        p.cur.gap = true;
    p.cur.tLast = now;
    if (p.role == ROLE_M)
        progress(n);
    if (p.stm && p.h.noRoom)
        p.cur.lost = true;
    else if (p.stub || p.stm)
        p.cur.b.push_back((u8)val);
    else
    {
        n.isrN[0]++;
        if (g_racy)
            if (void *a = n.img[p.role]->rx_len(p.role))
                n.racyAdd(a);
        if (n.img[p.role]->isr_rx(p.role, val))
            p.cur.b.push_back((u8)val);
        else
            p.cur.lost = true; // the driver drops what does not fit into the buffer
        plogAdd(n, p.role, "rx", val, 0);
        if (p.st == 2)
            isr(p, 3);
    }
    if (p.st == 0)
        p.st = 1;
    p.tg++;
    if (p.busy == 0 && !p.stm)
    {
        push(now + b.t15, EV_T15, p.id, 0, p.tg);
        push(now + b.t35, EV_T35, p.id, 0, p.tg);
    }
}

// the timer interrupts: 1.5 and 3.5 characters of silence
void World::fireT15(Port &p)
{
    p.st = 2;
    if (p.open)
    {
        Node &n = node[p.node];
        if (p.cur.t15 < 0)
        {
            p.cur.len15 = p.cur.b.size();
            p.cur.pollSeq15 = p.role == ROLE_M && !n.m.inPoll ? n.m.pollSeq + 1 : 0;
        }
        p.cur.t15 = now;
        if (p.role == ROLE_M)
        {
            p.cur.tick15 = n.m.tick;
            p.cur.polls15 = n.m.pollsDone;
            p.cur.pollInProg = n.m.inPoll ? n.m.pollSeq : 0;
            p.cur.pollEndTick = -1;
        }
    }
    isr(p, 1);
}

void World::fireT35(Port &p)
{
    p.st = 0;
    frameClose(p);
    isr(p, 2);
}

void World::frameClose(Port &p)
{
    Node &n = node[p.node];
    p.frames++;
    p.pollsAtActivity = p.role == ROLE_M ? n.m.pollsDone : n.s.pollsDone;
    if (!p.open)
        return;
    p.open = false;
    Frame &f = p.cur;
    f.idx = p.frames;
    f.done = true;
    f.t35 = now;
    f.polls35 = p.pollsAtActivity;
    f.noPollIn = p.role == ROLE_M && f.pollSeq15 == n.m.pollSeq + 1;
    st.framesSeen++;
    if (f.gap)
        st.framesGap++;
    if (!f.valid())
        st.framesBad++;
    trace("node %d %s heard frame %s%s%s%s", n.id, p.role ? "slave" : "master", hex(f.b).c_str(), f.gap ? " GAP" : "", f.lost ? " LOST-BYTES" : "", crcOk(f.b) ? "" : " BAD-CRC");
    mixLog(0x31, f.b.size(), crc16(f.b.data(), f.b.size()));
    distHash = h4(distHash, 0x31 + p.id, f.valid() ? 1 : f.gap ? 2 : 3, f.b.size() > 1 ? f.b[1] : 0);
    if (p.stub)
        stubFrame(n, p, f);
    else if (p.role == ROLE_M)
        masterFrame(n, p, f);
    else
        slaveFrame(n, p, f);
    p.lastWasOwnTx = false;
    p.noiseSince = !f.valid();
    p.foreignSince = f.valid() && (f.b[0] != p.sid);
}

void World::closeAbandoned(Port &p)
{
    p.open = false;
    p.noiseSince = true;
}

void World::abortTx(Port &p)
{
    if (p.tx >= 0 && p.wireTx)
    {
        tx[p.tx].dead = true;
        tx[p.tx].altered = true;
    }
    p.txActive = p.wireTx = false;
    p.txg++;
}

void World::txDone(Port &p)
{
    Node &n = node[p.node];
    p.txActive = false;
    p.doneFired = true;
    bus[p.bus].lastTxDone = now;
    if (p.role == ROLE_M)
    {
        MasterM &m = n.m;
        if (m.at.active && m.at.tx == p.tx)
        {
            m.at.tDone = now;
            m.at.tickDone = m.tick;
        }
        progress(n);
    }
    else
        p.pollsAtActivity = n.s.pollsDone;
    isr(p, 4);
}

// ------------------------------------------------------------------------------------------------
// the library calls its driver

void World::drvInit(Node &n, int role, unsigned baud, int parity)
{
    if (n.port[role] < 0)
        return;
    Port &p = port[n.port[role]];
    plogAdd(n, role, "drv_init", baud, parity);
    trace("node %d %s driver init %u %d", n.id, role ? "slave" : "master", baud, parity);
    if ((int)baud != (n.preInit ? n.c.preBaud : bus[p.bus].baud) || parity != (n.preInit ? n.c.preParity : pl.bus[p.bus].parity))
        viol(P(19), n.id, "init-parameters", "node %d: driver initialised with baud %u parity %d instead of %d %d", n.id, baud, parity, bus[p.bus].baud, pl.bus[p.bus].parity);
    if (p.stm)
        hwInitDone(p);
    else
    {
        abortTx(p);
        p.rg++;
        p.busy = 0;
    }
    closeAbandoned(p);
    p.inited = true;
    p.en = false;
    p.st = 0;
    p.tg++;
    if (role == ROLE_S)
        n.s.cands.clear(), n.s.chain.clear();
}

int World::prepareSend(Node &n, int role, int len)
{
    Port &p = port[n.port[role]];
    Bytes orig;
    for (int i = 0; i < len; i++)
        orig.push_back((u8)n.img[role]->tx_byte(role, i));
    trace("node %d %s SEND %s", n.id, role ? "slave" : "master", hex(orig).c_str());
    mixLog(0x41, orig.size(), crc16(orig.data(), orig.size()));
    distHash = h4(distHash, 0x41 + p.id, orig.size() > 1 ? orig[1] : 0, n.m.at.frames.size());
    plogAdd(n, role, "send", orig.size(), h2(crc16(orig.data(), orig.size()), 7));
    if (p.txActive)
        viol((role == ROLE_M ? P(2) | n.m.ini() : P(16) | n.s.ini()) | P(20), n.id, "send-while-sending", "node %d %s starts a transmission while its previous one is still running", n.id, role ? "slave" : "master");
    bool mid = p.st != 0 || p.busy > 0 || now - p.lastLost < bus[p.bus].t35;
    if (p.wireTx && !p.stm)
        abortTx(p);
    tx.emplace_back();
    int id = (int)tx.size() - 1;
    tx[id].id = id;
    tx[id].bus = p.bus;
    tx[id].port = p.id;
    tx[id].orig = orig;
    p.openAtSend = p.open;
    if (n.c.cancelOnSend[role])
    {
        p.tg++;
        if (!p.stm)
        {
            p.rg++;
            p.busy = 0;
        }
        p.st = 0;
        if (p.open)
            closeAbandoned(p);
    }
    else if (p.open)
        p.cur.lost = true;
    if (n.c.cancelOnSend[role] == 2)
        p.en = false; // its receiver is off while it transmits, and stays off until it is enabled again
    p.txActive = true;
    p.doneFired = false;
    if (role == ROLE_M)
    {
        n.m.at.dirty |= mid; // what was just arriving belongs to the attempt that ends here, too
        masterSend(n, tx[id]);
        n.m.at.dirty |= mid;
        st.sends++;
    }
    else
        slaveSend(n, tx[id]);
    return id;
}

void World::drvSend(Node &n, int role, int len)
{
    if (n.port[role] < 0)
        return;
    Port &p = port[n.port[role]];
    int id = prepareSend(n, role, len);
    i64 end = startTx(tx[id], p.id);
    if (role == ROLE_M && n.m.at.active && n.m.at.tx == id && n.m.at.reqId >= 0)
        reqInfo[n.m.at.reqId].copies += tx[id].copies - 1;
    u64 g = p.txg;
    switch (quiet && n.c.txDone[role] == 2 ? 0 : n.c.txDone[role])
    {
    case 1:
        st.earlyTx++;
        push(std::max(now, end - bus[p.bus].ch / 2), EV_TXDONE, p.id, 0, g);
        break;
    case 2:
        st.lateTx++;
        push(end + n.c.txLateUs[role] * US, EV_TXDONE, p.id, 0, g);
        break;
    default:
        push(end, EV_TXDONE, p.id, 0, g);
    }
    if (n.c.txDone[role] == 3 && depth < 6)
    {
        st.syncTx++;
        Node *pc = cur;
        bool ph = g_hookOn;
        cur = nullptr;
        g_hookOn = false;
        depth++;
        while (!stop && !n.crash && !q.empty() && p.txg == g && !p.doneFired)
            step();
        depth--;
        cur = pc;
        g_hookOn = ph;
        checkCrash(n);
    }
    if (cur == &n && !stop)
        onAccess(0xF000000000000001ull);
}

void World::drvEnable(Node &n, int role)
{
    if (n.port[role] < 0)
        return;
    Port &p = port[n.port[role]];
    plogAdd(n, role, "enable", 0, 0);
    trace("node %d %s reception enabled", n.id, role ? "slave" : "master");
    p.en = true;
    if (role == ROLE_M)
    {
        Attempt &a = n.m.at;
        if (a.active && a.tEnable < 0)
        {
            a.tEnable = now;
            if (p.open || p.busy > 0 || p.st != 0 || now - p.lastLost < bus[p.bus].t35)
                a.dirty = true;
        }
    }
    else
        p.pollsAtActivity = n.s.pollsDone;
    if (p.open)
        p.cur.lost = p.cur.merge = true; // the library may see only what comes from now on
}

void World::drvDisable(Node &n, int role)
{
    if (n.port[role] < 0)
        return;
    plogAdd(n, role, "disable", 0, 0);
    port[n.port[role]].en = false;
}

extern "C"
{
    void sim_drv_init(void *self, int role, unsigned baud, int parity) { if (W && self) W->drvInit(*(Node *)self, role, baud, parity); }
    void sim_drv_send(void *self, int role, int len) { if (W && self) W->drvSend(*(Node *)self, role, len); }
    void sim_drv_enable(void *self, int role) { if (W && self) W->drvEnable(*(Node *)self, role); }
    void sim_drv_disable(void *self, int role) { if (W && self) W->drvDisable(*(Node *)self, role); }
    void sim_app_read(void *self, int kind, int sid, int adr, int val) { if (W && self) W->appRead(*(Node *)self, kind, sid, adr, val); }
    void sim_app_written(void *self, int kind, int sid, int adr, int qty) { if (W && self) W->appWritten(*(Node *)self, kind, sid, adr, qty); }
    void sim_app_exc(void *self, int kind, int sid, int fc, int code, int adr, int qty) { if (W && self) W->appExc(*(Node *)self, kind, sid, fc, code, adr, qty); }
    void sim_app_error(void *self, int kind, int sid, int fc, int adr, int qty, int err) { if (W && self) W->appErr(*(Node *)self, kind, sid, fc, adr, qty, err); }
}
