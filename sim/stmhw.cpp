// A port whose driver is one of the repository's example drivers, running unchanged on an emulated USART and timer
// (stm/hw.c).  This file gives the emulation its time, its line and its interrupts, and checks what the driver reports
// to the library against what really happened on the line.
#include "world.hpp"

static const i64 US = 1000, MS = 1000000;

Port *World::hwPort(Node &n)
{
    for (int r = 0; r < 2; r++)
        if (n.port[r] >= 0 && port[n.port[r]].stm)
            return &port[n.port[r]];
    return nullptr;
}

bool World::storming(Node &n)
{
    Port *p = g_stmAny ? hwPort(n) : nullptr;
    return p && p->h.storm && !n.dead;
}

// with interrupts disabled nothing delays the main context
bool World::masked(Node &n)
{
    Port *p = hwPort(n);
    return p && !n.dead && hwImg(*p)->hw_masked();
}

// Inside send() and enable_rcev() only other interrupts hold up the main context: half a character in total.  In some
// plans it is more (a task switch); then only the driver itself is judged.
bool World::hwInDriver(Node &n)
{
    Port *p = hwPort(n);
    return p && (p->h.sending || p->h.enabling);
}

i64 World::hwBound(Node &n, i64 dur)
{
    Port *p = hwPort(n);
    if (!p || !(p->h.sending || p->h.enabling))
        return dur;
    if (dur > p->h.mainBudget)
    {
        if (pl.preemptStyle & 4)
            hwLong = true;
        else
            dur = p->h.mainBudget;
    }
    p->h.mainBudget = std::max<i64>(0, p->h.mainBudget - dur);
    return dur;
}

// the main loop does not advance while interrupts keep coming
void World::stormWait(Node &n)
{
    while (!stop && storming(n))
        nestedRun(n, 10 * US);
}

static const char *who(Port &p) { return p.role ? "slave" : "master"; }

void World::hwIrq(Port &p)
{
    Node &n = node[p.node];
    Hw &h = p.h;
    if (n.dead || h.inIrq)
        return;
    Image *im = hwImg(p);
    for (int k = 0; k < 4; k++)
    {
        int w = im->hw_pending();
        if (!w)
        {
            h.storm = false;
            h.stormStart = -1;
            return;
        }
        Node *pc = cur;
        bool ph = g_hookOn;
        cur = nullptr;
        g_hookOn = false;
        h.inIrq = true;
        if (n.inMain)
            st.isrInMain++;
        im->hw_call(w);
        g_pendImg = nullptr;
        im->hw_sync();
        h.inIrq = false;
        cur = pc;
        g_hookOn = ph;
        if (h.ferrWant)
        {
            h.ferrWant = false;
            viol(P(24), n.id, "frame-error-missing", "node %d %s driver: a character arrived after more than 1.5 and less than 3.5 characters of silence and no frame error was reported", n.id, who(p));
        }
        if (stop || n.dead)
            return;
    }
    if (!im->hw_pending())
    {
        h.storm = false;
        h.stormStart = -1;
        return;
    }
    h.storm = true;
    if (h.stormStart < 0)
        h.stormStart = now;
    if (now - h.stormStart > 200 * MS)
    {
        viol(P(24), n.id, "interrupt-storm", "node %d %s driver: the interrupt handler leaves its interrupt pending for ever", n.id, who(p));
        stop = true;
        return;
    }
    if (!h.irqEv)
    {
        h.irqEv = true;
        push(now + std::max<i64>(10 * US, bus[p.bus].ch / 8), EV_HWIRQ, p.id);
    }
}

// the transmitter takes a byte into its shift register
void World::hwShift(Port &p, int byte)
{
    Node &n = node[p.node];
    Hw &h = p.h;
    i64 ch = bus[p.bus].ch;
    bool idle = h.curTx < 0 || h.pos >= tx[h.curTx].orig.size();
    if (idle && h.pendTx >= 0)
    {
        int id = h.pendTx;
        h.pendTx = -1;
        h.curTx = id;
        h.pos = 0;
        h.gTx++;
        p.rg++; // half duplex: what is just arriving is cut off
        int bits = p.busy > 0 ? hwImg(p)->hw_rto_bits() : 0;
        p.busy = 0;
        if (bits)
            push(now + bits * ch / 11, EV_HWRTO, p.id, 0, ++h.gRto);
        h.endOwn = startTx(tx[id], p.id);
        if (p.role == ROLE_M && n.m.at.active && n.m.at.tx == id && n.m.at.reqId >= 0)
            reqInfo[n.m.at.reqId].copies += tx[id].copies - 1;
        if (!h.sending)
            push(h.endOwn + 2 * ch, EV_HWCHECK, p.id, 3, h.gTx);
    }
    else if (idle)
    {
        viol(P(24), n.id, "extra-character", "node %d %s driver: a character %02x is transmitted that belongs to no frame", n.id, who(p), byte);
        h.gTx++;
        push(now + ch, EV_HWSHIFT, p.id, 0, h.gTx);
        return;
    }
    Tx &t = tx[h.curTx];
    if (byte != t.orig[h.pos])
    {
        viol(P(24), n.id, "wrong-character", "node %d %s driver: character %zu of the frame is transmitted as %02x instead of %02x", n.id, who(p), h.pos, byte, t.orig[h.pos]);
        t.altered = true;
    }
    i64 at = h.endOwn - (i64)(t.orig.size() - 1 - h.pos) * ch;
    h.pos++;
    push(std::max(at, now), EV_HWSHIFT, p.id, 0, h.gTx);
}

// a character has arrived completely
void World::hwByte(Port &p, int val, Tx &t, bool altered)
{
    Node &n = node[p.node];
    Hw &h = p.h;
    Image *im = hwImg(p);
    if (!im->hw_rxon() || h.wrongLine) // with other line settings nothing useful is received
    {
        st.lostBytes++;
        p.lastLost = now;
        return;
    }
    h.gRdr++;
    h.rdrValid = true;
    h.rdrVal = val;
    h.rdrTx = t.id;
    h.rdrAlt = altered;
    h.rdrMay = p.en;
    h.rdrEn = p.en && !h.enabling && !h.initing;
    h.lastEnd = now;
    h.gRto++;
    int bits = im->hw_rto_bits();
    if (bits && p.busy == 0)
        push(now + bits * bus[p.bus].ch / 11, EV_HWRTO, p.id, 0, h.gRto);
    im->hw_rx(val);
    h.ferrMay = (h.rdrEn && p.st == 2) || h.grace || h.ferrTol; // also for a character that finds no room
    hwIrq(p);
    h.ferrMay = false;
    if (stop || !h.rdrValid)
        return;
    if (h.rdrEn && im->hw_len() >= 255)
    {
        h.rdrValid = false;
        h.grace = h.sending;
        h.t15Owed = false;
        h.t15New = h.noRoom = true;
        portByteEnd(p, val, tx[h.rdrTx], altered);
        h.noRoom = false;
        push(now + bus[p.bus].t35 * 13 / 10 + 100 * US, EV_HWCHECK, p.id, 1, ++h.gDl);
    }
    else if (h.rdrEn)
        push(now + bus[p.bus].ch / 2, EV_HWCHECK, p.id, 2, h.gRdr);
    else
    {
        st.lostBytes++;
        p.lastLost = now;
        if (p.open)
            p.cur.lost = true;
        if (h.enabling && p.st != 0) // it may have gone to the buffer used before
            push(now + bus[p.bus].t35 * 13 / 10 + 100 * US, EV_HWCHECK, p.id, 1, ++h.gDl);
    }
}

// the driver has put a character into the library's buffer
void World::hwStored(Port &p, int byte)
{
    Node &n = node[p.node];
    Hw &h = p.h;
    if (!h.rdrValid)
        viol(P(24), n.id, "character-stored-twice", "node %d %s driver: %02x is put into the buffer although no character was received", n.id, who(p), byte);
    else if (byte != h.rdrVal)
        viol(P(24), n.id, "character-altered", "node %d %s driver: %02x was received and %02x put into the buffer", n.id, who(p), h.rdrVal, byte);
    else if (!p.en)
        viol(P(24), n.id, "stored-while-disabled", "node %d %s driver: %02x is put into the buffer although reception is not enabled", n.id, who(p), byte);
    else if (!h.rdrMay)
        viol(P(24), n.id, "stale-character", "node %d %s driver: %02x, received before reception was enabled, is put into the buffer", n.id, who(p), byte);
    else if (hwImg(p)->hw_len() == 0)
        viol(P(24), n.id, "buffer-wrapped", "node %d %s driver: the buffer is full and counts as empty again", n.id, who(p));
    if (!h.rdrValid || h.rdrTx < 0)
        return;
    h.rdrValid = false;
    if (p.st == 2 && h.grace)
        h.ferrTol = true; // it is open whether 1.5 characters still count; until 3.5 characters
    if (p.st == 2 && !h.ferrTol)
        h.ferrWant = true;
    h.t15Owed = false;
    h.grace = h.sending; // send() may still cancel the time measurement
    h.t15New = true;
    portByteEnd(p, byte, tx[h.rdrTx], h.rdrAlt);
    push(now + bus[p.bus].t35 * 13 / 10 + 100 * US, EV_HWCHECK, p.id, 1, ++h.gDl);
}

// the driver calls the library: 1 T1.5, 2 T3.5, 3 frame error, 4 transmission complete
void World::hwCallback(Port &p, int what)
{
    Node &n = node[p.node];
    Hw &h = p.h;
    Bus &b = bus[p.bus];
    const bool chk = !h.initing && !h.enabling; // what these calls change counts when they return
    bool grace = h.grace && now <= h.lastEnd + b.t35 * 13 / 10 + 100 * US;
    switch (what)
    {
    case 1:
        if (p.st == 0)
        {
            if (!grace && chk)
                viol(P(24), n.id, "t15-without-character", "node %d %s driver: reports 1.5 characters of silence although nothing was received", n.id, who(p));
            else if (chk && !h.t15Owed && !h.sending) // during send() the driver may still cancel it
            {
                h.t15Owed = true;
                push(h.lastEnd + b.t35 * 13 / 10 + 100 * US, EV_HWCHECK, p.id, 6, ++h.gDl);
            }
            isr(p, 1);
            return;
        }
        if (chk && p.st == 1 && now - h.lastEnd < b.t15 * 97 / 100)
            viol(P(24), n.id, "t15-early", "node %d %s driver: reports 1.5 characters of silence after %.3f us instead of %.3f us", n.id, who(p), (now - h.lastEnd) / 1e3, b.t15 / 1e3);
        if (h.t15New)
            fireT15(p);
        else
            isr(p, 1);
        h.t15New = false;
        return;
    case 2:
        h.t15Owed = h.ferrTol = false;
        if (p.st == 0)
        {
            if (!grace && chk)
                viol(P(24), n.id, "t35-without-character", "node %d %s driver: reports 3.5 characters of silence although nothing was received", n.id, who(p));
            isr(p, 2);
            return;
        }
        if (chk && p.st == 1 && !grace)
            viol(P(24), n.id, "t35-before-t15", "node %d %s driver: reports 3.5 characters of silence without having reported 1.5", n.id, who(p));
        if (chk && now - h.lastEnd < b.t35 * 97 / 100)
            viol(P(24), n.id, "t35-early", "node %d %s driver: reports 3.5 characters of silence after %.3f us instead of %.3f us", n.id, who(p), (now - h.lastEnd) / 1e3, b.t35 / 1e3);
        fireT35(p);
        if (p.busy > 0)
        {
            p.lastStart = now - b.ch / 2;
            p.startPolls = 0;
        }
        return;
    case 3:
        if (!h.ferrWant && !h.ferrMay && !h.sending && chk)
            viol(P(24), n.id, "frame-error-spurious", "node %d %s driver: reports a frame error although no character arrived between 1.5 and 3.5 characters of silence", n.id, who(p));
        h.ferrWant = false;
        isr(p, 3);
        return;
    case 4:
        if (!p.txActive)
        {
            if (now - h.doneAt > b.ch * 12 / 10)
                viol(P(24), n.id, "tx-done-spurious", "node %d %s driver: reports the end of a transmission although there is none", n.id, who(p));
            isr(p, 4);
            return;
        }
        if (h.pendTx >= 0 || h.curTx < 0 || h.pos < tx[h.curTx].orig.size())
            viol(P(24), n.id, "tx-done-early", "node %d %s driver: reports the end of a transmission before its last character is being sent", n.id, who(p));
        h.doneAt = now;
        txDone(p);
        return;
    }
}

void World::hwPreSend(Node &n, int role, int len)
{
    Port &p = port[n.port[role]];
    Hw &h = p.h;
    Bus &b = bus[p.bus];
    if (p.st != 0 || p.busy || now <= h.lastEnd + b.t35)
        h.grace = true;
    h.sending = true;
    h.mainBudget = b.ch / 2;
    h.pendTx = prepareSend(n, role, len);
}

// send() has returned: from now on only interrupts are needed, so the transmission must proceed without gaps
void World::hwPostSend(Port &p)
{
    Hw &h = p.h;
    Bus &b = bus[p.bus];
    h.sending = false;
    if (p.st != 0)
        h.grace = true;
    if (h.pendTx >= 0)
        push(now + 3 * b.ch, EV_HWCHECK, p.id, 5, h.pendTx);
    if (h.curTx < 0 || !p.txActive)
        return;
    i64 left = (i64)(tx[h.curTx].orig.size() - h.pos);
    push(std::max(h.endOwn, now + (left + 1) * b.ch) + 2 * b.ch, EV_HWCHECK, p.id, 3, h.gTx);
    if (left > 0)
        push(std::max(h.endOwn - left * b.ch, now) + b.t15, EV_HWCHECK, p.id, 100 + (i64)h.pos, h.gTx);
}

void World::hwInitDone(Port &p)
{
    Node &n = node[p.node];
    Hw &h = p.h;
    Image *im = hwImg(p);
    BusCfg bc = pl.bus[p.bus];
    if (n.preInit)
        bc = {n.c.preBaud, n.c.preParity};
    h.wrongLine = n.preInit && (bc.baud != pl.bus[p.bus].baud || bc.parity != pl.bus[p.bus].parity);
    int baud = im->hw_line(0), par = im->hw_line(1), bits = im->hw_line(2);
    if (baud < bc.baud * 97 / 100 || baud > bc.baud * 103 / 100)
        viol(P(24), n.id, "baud", "node %d %s driver: initialised with %d baud, the USART runs at %d", n.id, who(p), bc.baud, baud);
    if (par != bc.parity || bits != (bc.parity ? 9 : 8))
        viol(P(24), n.id, "parity", "node %d %s driver: initialised with parity %d, the USART uses parity %d and %d bits", n.id, who(p), bc.parity, par, bits);
    if (p.wireTx)
        viol(P(24), n.id, "init-keeps-transmitting", "node %d %s driver: a transmission goes on after the initialisation", n.id, who(p));
    h.grace = h.t15Owed = h.ferrWant = h.ferrTol = h.sending = h.enabling = h.initing = false;
    h.gDl++;
    h.doneAt = now - 1000000000000ll;
    p.txActive = false;
    h.pendTx = -1;
}

void World::hwOff(Port &p)
{
    Hw &h = p.h;
    abortTx(p);
    p.rg++;
    p.busy = 0;
    h.gRto++;
    h.gTx++;
    h.curTx = h.pendTx = -1;
    h.rdrValid = false;
}

void World::hwReset(Port &p)
{
    if (!p.stm)
        return;
    Hw o = p.h;
    p.h = Hw();
    p.h.gRto = o.gRto + 1;
    p.h.gTim = o.gTim + 1;
    p.h.gTx = o.gTx + 1;
    p.h.gDl = o.gDl + 1;
    p.h.gRdr = o.gRdr + 1;
    p.h.irqEv = o.irqEv;
    p.rg++;
    p.busy = 0;
}

void World::hwEvent(const Ev &e)
{
    Port &p = port[e.a];
    Node &n = node[p.node];
    Hw &h = p.h;
    Image *im = hwImg(p);
    if (e.kind == EV_HWIRQ)
        h.irqEv = false;
    if (n.dead)
        return;
    switch (e.kind)
    {
    case EV_HWRTO:
        if (e.g != h.gRto)
            return;
        im->hw_rto();
        hwIrq(p);
        return;
    case EV_HWTIM:
        if (e.g != h.gTim)
            return;
        im->hw_timexp();
        hwIrq(p);
        return;
    case EV_HWIRQ:
        hwIrq(p);
        return;
    case EV_HWSHIFT:
    {
        if (e.g != h.gTx)
            return;
        size_t pos = h.pos;
        int id = h.curTx;
        bool last = id >= 0 && pos >= tx[id].orig.size();
        im->hw_shifted();
        hwIrq(p);
        if (last && h.curTx == id)
            h.curTx = -1;
        if (!last && h.curTx == id && h.pos == pos)
            push(now + bus[p.bus].t15, EV_HWCHECK, p.id, 100 + (i64)pos, h.gTx);
        return;
    }
    default:
        break;
    }
    switch (e.b)
    {
    case 1: // 3.5 characters after the last one
        if (e.g != h.gDl || p.st == 0 || p.busy || h.initing)
            return;
        if (h.grace)
        {
            p.st = 0;
            h.ferrTol = false;
            closeAbandoned(p);
            return;
        }
        viol(P(24), n.id, "t35-missing", "node %d %s driver: 3.5 characters of silence are not reported", n.id, who(p));
        return;
    case 2:
        if (e.g == h.gRdr && h.rdrValid && !h.initing)
            viol(P(24), n.id, "character-lost", "node %d %s driver: the character %02x is not put into the buffer although reception is enabled", n.id, who(p), h.rdrVal);
        return;
    case 3:
        if (e.g == h.gTx && p.txActive && !h.sending && h.pendTx < 0)
            viol(P(24), n.id, "tx-done-missing", "node %d %s driver: the end of a transmission is not reported", n.id, who(p));
        return;
    case 5:
        if ((i64)e.g == h.pendTx)
            viol(P(24), n.id, "not-transmitted", "node %d %s driver: a frame given to it is not transmitted", n.id, who(p));
        return;
    case 6:
        if (e.g == h.gDl && h.t15Owed && !h.initing)
            viol(P(24), n.id, "t35-missing", "node %d %s driver: reports 1.5 characters of silence and then not 3.5", n.id, who(p));
        return;
    default:
        if (e.b >= 100 && e.g == h.gTx && h.curTx >= 0 && !h.sending && (i64)h.pos == e.b - 100)
            viol(P(24), n.id, "gap-in-transmission", "node %d %s driver: leaves a gap of 1.5 characters inside its own frame", n.id, who(p));
    }
}

extern "C"
{
#define N (*(Node *)self)
    void sim_hw_pre_send(void *self, int role, int len)
    {
        if (W && self && N.port[role] >= 0)
            W->hwPreSend(N, role, len);
    }
    void sim_hw_post_send(void *self, int role)
    {
        if (W && self && N.port[role] >= 0)
            W->hwPostSend(W->port[N.port[role]]);
        if (W && self && W->cur == self && !W->stop)
            W->onAccess(0xF000000000000001ull);
    }
    void sim_hw_initing(void *self, int role)
    {
        if (W && self && N.port[role] >= 0)
            W->port[N.port[role]].h.initing = true;
    }
    void sim_hw_enabling(void *self, int role, int on)
    {
        if (!W || !self || N.port[role] < 0)
            return;
        Port &p = W->port[N.port[role]];
        p.h.enabling = on;
        if (!on && p.h.lastEnd >= p.h.enableAt)
            p.h.grace = true; // characters may have gone to the buffer that was used before
        p.h.enableAt = W->now;
        p.h.mainBudget = W->bus[p.bus].ch / 2;
        if (on)
            W->drvEnable(N, role);
        else if (p.h.rdrValid)
            p.lastLost = std::max(p.lastLost, p.h.lastEnd);
    }
    void sim_hw_shift(void *self, int byte)
    {
        if (Port *p = W && self ? W->hwPort(N) : nullptr)
            W->hwShift(*p, byte);
    }
    void sim_hw_timer(void *self, long long ns)
    {
        if (Port *p = W && self ? W->hwPort(N) : nullptr)
        {
            p->h.gTim++;
            if (ns >= 0)
                W->push(W->now + ns, EV_HWTIM, p->id, 0, p->h.gTim);
        }
    }
    void sim_hw_off(void *self)
    {
        if (Port *p = W && self ? W->hwPort(N) : nullptr)
            W->hwOff(*p);
    }
    void sim_hw_irq(void *self)
    {
        if (Port *p = W && self ? W->hwPort(N) : nullptr)
            W->hwIrq(*p);
    }
    long long sim_hw_now(void *) { return W ? W->now : 0; }
    void sim_hw_stored(void *self, int byte)
    {
        if (Port *p = W && self ? W->hwPort(N) : nullptr)
            W->hwStored(*p, byte);
    }
    void sim_hw_cb(void *self, int, int what)
    {
        if (Port *p = W && self ? W->hwPort(N) : nullptr)
            W->hwCallback(*p, what);
    }
}
