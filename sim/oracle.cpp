// The reference models and the checks: master outcomes, slave service, end-to-end history, progress.
#include "world.hpp"

static const i64 US = 1000, MS = 1000000;
static int fcKind(int fc)
{
    switch (fc)
    {
    case 1: case 5: case 15: return 0;
    case 2: return 1;
    case 4: return 2;
    default: return 3;
    }
}
static const char *const kindNames[] = {"coil", "discrete input", "input register", "holding register"};

// ------------------------------------------------------------------------------------------------
// master

int World::matchKind(const Frame &f, const Req &r)
{
    if (!f.valid() || f.b[0] != r.sid)
        return 0;
    const Bytes &b = f.b;
    if (b[1] == (r.fc | 0x80))
        return b.size() == 5 ? 2 : 0;
    if (b[1] != r.fc)
        return 0;
    size_t bc;
    switch (r.fc)
    {
    case 1: case 2: bc = (r.qty + 7) / 8; return b.size() == bc + 5 && b[2] == bc;
    case 3: case 4: bc = r.qty * 2; return b.size() == bc + 5 && b[2] == bc;
    default:
        return b.size() == 8 && memcmp(&b[2], &r.adu[2], 4) == 0;
    }
}

bool World::damaged(Node &n, const Attempt &a, const Req &h)
{
    if (a.dirty)
        return true;
    // whatever is arriving right now is appended to what the library is about to look at
    Port &p = port[n.port[0]];
    if (p.open && (p.cur.merge || p.cur.lost))
        return true;
    for (auto &f : a.frames)
    {
        if (f.gap || f.lost || f.merge || a.tEnable < 0 || f.tFirst < a.tEnable)
            return true;
        // a frame that bears another slave's id is not a reply to this request, whole or not
        if (!f.valid() && (f.b.empty() || f.b[0] == h.sid))
            return true;
    }
    return false;
}

// index of the frame that any correct master must accept, or -1
int World::cleanReply(Node &n, Attempt &a, const Req &r)
{
    int T = n.img[0]->cfg[1];
    if (a.dirty || a.tEnable < 0 || a.tDone < 0 || a.frames.empty())
        return -1;
    Port &p = port[n.port[0]];
    if (p.open || p.busy)
        return -1;
    for (size_t i = 0; i < a.frames.size(); i++)
    {
        const Frame &f = a.frames[i];
        if (f.gap || f.lost || f.merge || f.mixed || f.b.empty() || f.b.size() > 255)
            return -1;
        if (!f.valid() && (f.b[0] == r.sid || f.tFirst < a.tEnable))
            return -1; // a frame that bears another slave's id is nothing to this request, whole or not
        int k = matchKind(f, r);
        if (i + 1 < a.frames.size())
        {
            if (k)
                return -1;
            continue;
        }
        if (!k || f.tFirst < a.tEnable || f.tFirst < a.tDone - bus[p.bus].ch)
            return -1;
        if (f.tick15 - a.tickDone > T - 3)
            return -1;
        if (f.pollInProg)
        {
            i64 e = f.pollEndTick >= 0 ? f.pollEndTick : n.m.tick;
            if (e - a.tickDone > T - 3)
                return -1;
        }
        return (int)i;
    }
    return -1;
}

// was exactly one frame heard, in time, which the library must take for a damaged reply of the addressed slave?
bool World::surelyDamaged(Node &n, Attempt &a, const Req &h)
{
    int T = n.img[0]->cfg[1];
    if (a.frames.size() != 1 || a.dirty || a.tDone < 0 || port[n.port[0]].open)
        return false;
    const Frame &f = a.frames[0];
    bool bad = f.b.size() >= 4 && f.b.size() <= 255 && f.b[0] == h.sid && !f.lost && !f.merge && f.tFirst >= a.tEnable && a.tEnable >= 0 && f.tFirst >= a.tDone && f.tick15 - a.tickDone <= T - 3;
    if (f.pollInProg && (f.pollEndTick >= 0 ? f.pollEndTick : n.m.tick) - a.tickDone > T - 3)
        bad = false;
    if (bad && f.gap)
    {
        Bytes pre(f.b.begin(), f.b.begin() + std::min(f.len15, f.b.size()));
        bad = pre.size() >= 4;
        for (size_t k = pre.size(); bad && k <= f.b.size(); k++)
            bad = !crcOk(Bytes(f.b.begin(), f.b.begin() + k));
    }
    else if (bad)
        bad = !crcOk(f.b);
    return bad;
}

void World::progress(Node &n)
{
    n.m.progPoll = n.m.pollsDone;
    n.m.progTick = n.m.tick;
}

void World::chainFrames(Node &n, const Bytes &ch, const Frame &f)
{
    MasterM &m = n.m;
    if (m.pend.empty() || m.at.reqId != m.pend.front().id)
        return;
    const Req &r = m.pend.front();
    size_t nf = m.at.frames.size();
    for (size_t i = 0; i + 5 <= ch.size() && m.at.frames.size() < nf + 8 && m.at.frames.size() < 60; i++)
    {
        if (ch[i] != r.sid || (ch[i + 1] & 0x7F) != r.fc)
            continue;
        size_t want = ch[i + 1] & 0x80 ? 5 : r.fc <= 4 ? 5 + ch[i + 2] : 8;
        if (ch.size() - i < want)
            continue;
        Frame c = f;
        c.b.assign(ch.begin() + i, ch.begin() + i + want);
        c.gap = false;
        c.merge = true;
        if (matchKind(c, r))
            m.at.frames.push_back(c);
    }
}

void World::masterFrame(Node &n, Port &p, Frame &f)
{
    MasterM &m = n.m;
    progress(n);
    if (!m.at.active)
        return;
    if (f.tFirst < m.at.tSend)
        m.at.dirty = true;
    if (m.at.frames.size() >= 60)
    {
        m.at.dirty = true;
        return;
    }
    Bytes &ch = m.at.chain;
    if (f.merge)
    {
        if (m.at.frames.empty())
            ch.clear();
        // The main loop has not looked at the receive buffer in between: for the library it may be any run of these bytes.
        ch.insert(ch.end(), f.b.begin(), f.b.end());
        if (ch.size() > 800)
            ch.erase(ch.begin(), ch.end() - 800);
        chainFrames(n, ch, f);
    }
    else
        ch = f.b;
    m.at.frames.push_back(f);
}

void World::masterSend(Node &n, Tx &t)
{
    MasterM &m = n.m;
    u32 cb = n.cbItems.empty() ? 0 : P(23);
    u32 ini = m.ini();
    if (m.passive)
        viol(P(26), n.id, "passive-sends", "node %d: a master that is %s transmits", n.id, m.inits ? "in an unsupported mode" : "not initialised");
    progress(n);
    if (m.outKind && !m.pend.empty())
    {
        const Req &h = m.pend.front();
        if (m.outKind != 1 || h.fc > 4 || m.nGot == h.qty)
            finishHead(n);
    }
    if (m.pend.empty())
    {
        viol(P(2) | P(9) | P(1) | P(3) | (t.orig == m.lastAdu ? P(4) : 0) | cb | ini, n.id, "unrequested-send", "node %d master transmits although no request is pending: %s", n.id, hex(t.orig).c_str());
        m.at = Attempt();
        return;
    }
    Req &h = m.pend.front();
    bool retry = m.at.active && m.at.reqId == h.id;
    if (t.orig != h.adu)
    {
        bool other = false;
        for (size_t i = 1; i < m.pend.size(); i++)
            if (m.pend[i].adu == t.orig)
                other = true;
        if (other && !retry)
            viol(P(2) | cb | ini, n.id, "out-of-order", "node %d master transmits a later request before the oldest one (fc %d adr %d)", n.id, h.fc, h.adr);
        else
            viol(P(3) | (retry ? P(4) : 0) | (t.orig == m.lastAdu ? P(2) | P(4) : 0) | cb | ini, n.id, "wrong-adu", "node %d master transmits %s, the request's frame is %s", n.id, hex(t.orig).c_str(), hex(h.adu).c_str());
    }
    int R = n.img[0]->cfg[2];
    if (retry)
    {
        st.retries++;
        if (h.attempts >= 1 + R)
            viol(P(4) | (h.attempts > 2 + R ? P(10) : 0), n.id, "too-many-attempts", "node %d master transmits a request for the %dth time, %d permitted", n.id, h.attempts + 1, 1 + R);
        if (!damaged(n, m.at, h))
            viol(P(4) | (cleanReply(n, m.at, h) >= 0 ? P(6) : 0), n.id, "retry-without-damage", "node %d master repeats a request although nothing damaged was received since its last transmission", n.id);
    }
    Port &p = port[n.port[0]];
    if ((retry || (m.prevKind != 0 && m.prevKind != 3)) && p.t35n == m.t35AtSend)
        viol(P(2) | (retry ? P(4) : 0) | cb, n.id, "send-before-silence", "node %d master %s before the line has been silent for 3.5 characters after the previous exchange", n.id, retry ? "repeats a request" : "transmits the next request");
    m.lastAdu = h.adu;
    m.t35AtSend = p.t35n;
    m.prevKind = 0;
    h.attempts++;
    reqInfo[h.id].attempts++;
    m.at = Attempt();
    m.at.active = true;
    m.at.reqId = h.id;
    m.at.tx = t.id;
    m.at.tSend = now;
    m.nGot = 0;
    m.got.clear();
    m.frameMask = 0;
    t.reqId = h.id;
    t.mnode = n.id;
}

bool World::headForCallback(Node &n, const char *what, int sid)
{
    MasterM &m = n.m;
    u32 x = m.ini() | (n.cbItems.empty() ? 0 : P(23));
    progress(n);
    if (m.passive)
    {
        viol(P(26), n.id, "passive-reports", "node %d: %s from a master that is %s", n.id, what, m.inits ? "in an unsupported mode" : "not initialised");
        return false;
    }
    if (!m.inPoll)
    {
        viol(P(1) | x, n.id, "callback-outside-poll", "node %d: %s delivered outside the master's poll", n.id, what);
        return false;
    }
    if (m.pend.empty())
    {
        viol(P(1) | P(5) | P(8) | x, n.id, "unrequested-outcome", "node %d: %s for slave %d although no request is pending", n.id, what, sid);
        return false;
    }
    if (!m.at.active || m.at.reqId != m.pend.front().id)
    {
        viol(P(1) | P(2) | x, n.id, "outcome-before-send", "node %d: %s although the oldest request has not been transmitted", n.id, what);
        return false;
    }
    Port &p = port[n.port[0]];
    if (m.outKind == 0 && p.open && p.cur.merge)
    {
        Bytes c = m.at.chain;
        c.insert(c.end(), p.cur.b.begin(), p.cur.b.end());
        chainFrames(n, c, p.cur);
    }
    return true;
}

Node *World::slaveOf(Node &master, int sid)
{
    for (auto &s : node)
        if ((s.c.roles & 2) && s.c.sbus == master.c.mbus && s.s.sid == sid)
            return &s;
    return nullptr;
}

// may the end-to-end rules be applied to this result?  Only if it came from the slave in answer to this very request
bool World::e2eUsable(Node &n, Req &r, const Frame *f)
{
    if (!f || sidsChange || f->altered || f->mixed || f->merge || reqInfo[r.id].taint || f->origin < 0)
        return false;
    Tx &t = tx[f->origin];
    if (t.inReplyTo < 0)
        return false;
    return tx[t.inReplyTo].reqId == r.id && tx[t.inReplyTo].mnode == n.id;
}

void World::appRead(Node &n, int kind, int sid, int adr, int val)
{
    MasterM &m = n.m;
    mixLog(0x51 + kind, adr, val);
    plogAdd(n, 0, "read", (u64)kind << 32 | adr, (u64)sid << 32 | (u32)val);
    if (m.ghost && m.ghost == m.pollSeq && m.inPoll)
        ; // the outcome that was being delivered when a callback initialised the master again may be completed
    else if (headForCallback(n, "read value", sid))
    {
        Req &h = m.pend.front();
        u32 cb = (h.inCb || !n.cbItems.empty()) ? P(23) : 0;
        if (m.outKind > 1)
            viol(P(1) | cb, n.id, "second-outcome", "node %d: read value after the request already ended", n.id);
        else if (h.fc > 4 || fcKind(h.fc) != kind)
            viol(P(1) | P(5) | P(8) | ok6(n, h) | cb, n.id, "wrong-callback", "node %d: %s value delivered for a request with function code %d", n.id, kindNames[kind], h.fc);
        else
        {
            int i = (adr - h.adr) & 0xFFFF;
            if (i >= h.qty)
                viol(P(1) | P(5) | ok6(n, h) | cb, n.id, "address-not-requested", "node %d: value for address %d, requested were %d..%d", n.id, adr, h.adr, h.adr + h.qty - 1);
            else
            {
                if (m.got.empty())
                    m.got.resize(h.qty);
                if (m.got[i])
                    viol(P(1) | ok6(n, h) | cb, n.id, "value-twice", "node %d: value for address %d delivered twice", n.id, adr);
                else
                    m.nGot++;
                m.got[i] = 1;
                if (sid != h.sid)
                    viol(P(5) | P(8) | ok6(n, h) | cb, n.id, "wrong-slave", "node %d: value for slave %d, request was for slave %d", n.id, sid, h.sid);
                if (m.outKind == 0)
                {
                    m.frameMask = 0;
                    for (size_t k = 0; k < m.at.frames.size(); k++)
                        if (matchKind(m.at.frames[k], h) == 1)
                            m.frameMask |= 1ull << k;
                    m.outKind = 1;
                }
                for (size_t k = 0; k < m.at.frames.size(); k++)
                    if (m.frameMask >> k & 1)
                    {
                        const Bytes &b = m.at.frames[k].b;
                        int v = h.fc <= 2 ? (b[3 + i / 8] >> (i % 8)) & 1 : be16(&b[3 + 2 * i]);
                        if (v != val)
                            m.frameMask &= ~(1ull << k);
                    }
                if (!m.frameMask)
                    viol(P(5) | ok6(n, h) | m.ini() | cb | (slaveOf(n, h.sid) ? P(18) : 0), n.id, "value-not-received", "node %d: %s %d of slave %d delivered as 0x%x, no valid matching reply since the last transmission says so", n.id, kindNames[kind], adr, sid, val);
                else
                {
                    int k = __builtin_ctzll(m.frameMask);
                    const Frame *f = &m.at.frames[k];
                    bool same = !(m.frameMask & (m.frameMask - 1));
                    if (same)
                        e2eRead(n, h, kind, adr, val, f);
                }
                if (m.nGot == h.qty)
                    st.outData++;
            }
        }
    }
    afterCallback(n);
}

void World::e2eRead(Node &n, Req &r, int kind, int adr, int val, const Frame *f)
{
    if (!e2eUsable(n, r, f))
        return;
    Node *s = slaveOf(n, r.sid);
    if (!s || adr >= s->tab[kind].n)
        return;
    VarTab &v = s->tab[kind];
    auto it = v.hist.find(adr);
    bool ok = false;
    if (it == v.hist.end())
        ok = (i64)v.mir[adr] == val;
    else
    {
        auto &h = it->second;
        for (size_t i = 0; i < h.size(); i++)
        {
            i64 end = i + 1 < h.size() ? h[i + 1].first : now;
            if (end >= r.tAcc && h[i].second == val)
                ok = true;
        }
    }
    if (!ok)
        viol(P(18), n.id, "stale-read", "node %d read %s %d of slave %d as 0x%x, which it never held between the request and now", n.id, kindNames[kind], adr, r.sid, val);
}

void World::appWritten(Node &n, int kind, int sid, int adr, int qty)
{
    MasterM &m = n.m;
    mixLog(0x55 + kind, adr, qty);
    plogAdd(n, 0, "written", (u64)kind << 32 | adr, (u64)sid << 32 | (u32)qty);
    trace("node %d write confirmed: %s %d qty %d slave %d", n.id, kindNames[kind], adr, qty, sid);
    if (headForCallback(n, "write confirmation", sid))
    {
        Req &h = m.pend.front();
        u32 cb = (h.inCb || !n.cbItems.empty()) ? P(23) : 0;
        if (m.outKind)
            viol(P(1) | cb, n.id, "second-outcome", "node %d: write confirmation after the request already ended", n.id);
        else if (h.fc < 5 || fcKind(h.fc) != kind)
            viol(P(1) | P(5) | P(8) | ok6(n, h) | cb, n.id, "wrong-callback", "node %d: %s write confirmed for a request with function code %d", n.id, kindNames[kind], h.fc);
        else
        {
            if (sid != h.sid || adr != h.adr || qty != h.qty)
                viol(P(5) | P(8) | ok6(n, h) | cb, n.id, "confirm-fields", "node %d: confirmation says slave %d adr %d qty %d, request was slave %d adr %d qty %d", n.id, sid, adr, qty, h.sid, h.adr, h.qty);
            const Frame *f = nullptr;
            int cnt = 0;
            for (auto &x : m.at.frames)
                if (matchKind(x, h) == 1)
                {
                    f = &x;
                    cnt++;
                }
            if (!f)
                viol(P(5) | (slaveOf(n, h.sid) ? P(18) : 0) | m.ini() | cb, n.id, "confirm-not-received", "node %d: write confirmed without a valid matching reply since the last transmission", n.id);
            else if (cnt == 1)
                e2eWrite(n, h, f);
        }
        m.outKind = 1;
        m.nGot = h.qty;
        st.outData++;
    }
    afterCallback(n);
}

void World::e2eWrite(Node &n, Req &r, const Frame *f)
{
    if (!e2eUsable(n, r, f))
        return;
    Node *s = slaveOf(n, r.sid);
    if (!s)
        return;
    int tab = fcKind(r.fc);
    VarTab &v = s->tab[tab];
    for (int i = 0; i < r.qty; i++)
    {
        int adr = r.adr + i;
        if (adr >= v.n)
        {
            viol(P(18), n.id, "confirm-outside-table", "node %d: write of %s %d confirmed, the slave has no such object", n.id, kindNames[tab], adr);
            return;
        }
        u16 want = r.data[i];
        bool ok = false;
        auto it = v.hist.find(adr);
        if (it == v.hist.end())
            ok = (i64)v.mir[adr] == want;
        else
        {
            auto &h = it->second;
            for (size_t k = 0; k < h.size(); k++)
            {
                i64 end = k + 1 < h.size() ? h[k + 1].first : now;
                if (end >= r.tAcc && h[k].second == want)
                    ok = true;
            }
        }
        if (!ok)
        {
            viol(P(18), n.id, "confirmed-write-missing", "node %d: write of 0x%x to %s %d of slave %d confirmed, but the variable never held it since the request", n.id, want, kindNames[tab], adr, r.sid);
            return;
        }
    }
    ReqInfo &ri = reqInfo[r.id];
    if (ri.services < 1)
        viol(P(18), n.id, "confirmed-not-served", "node %d: write confirmed but the slave never served the request", n.id);
    if (ri.attempts == 1 && ri.copies == 0 && ri.services != 1)
        viol(P(18) | P(16) | P(11), n.id, "served-twice", "node %d: a request transmitted once took effect %d times", n.id, ri.services);
}

void World::appExc(Node &n, int kind, int sid, int fc, int code, int adr, int qty)
{
    MasterM &m = n.m;
    mixLog(0x61 + kind, adr, code);
    plogAdd(n, 0, "exception", (u64)kind << 32 | adr, (u64)sid << 40 | (u64)fc << 32 | (u64)code << 16 | (u32)qty);
    trace("node %d exception report (%s) slave %d fc 0x%x code %d adr %d qty %d", n.id, kindNames[kind], sid, fc, code, adr, qty);
    if (headForCallback(n, "exception report", sid))
    {
        Req &h = m.pend.front();
        u32 cb = (h.inCb || !n.cbItems.empty()) ? P(23) : 0;
        if (m.outKind)
            viol(P(1) | cb, n.id, "second-outcome", "node %d: exception report after the request already ended", n.id);
        else
        {
            bool any = false, codeOk = false;
            for (auto &x : m.at.frames)
                if (matchKind(x, h) == 2)
                {
                    any = true;
                    if (x.b[2] == code)
                        codeOk = true;
                }
            if (!any)
                viol(P(5) | m.ini() | cb, n.id, "exception-not-received", "node %d: exception reported without a valid matching exception reply since the last transmission", n.id);
            else if (!codeOk)
                viol(P(5) | P(8) | ok6(n, h) | cb, n.id, "exception-code", "node %d: exception code %d reported, not received", n.id, code);
            if (kind != fcKind(h.fc))
                viol(P(8) | ok6(n, h) | cb, n.id, "wrong-exception-callback", "node %d: exception for function code %d delivered through the %s callback", n.id, h.fc, kindNames[kind]);
            if (sid != h.sid || fc != h.fc || adr != h.adr || qty != h.qtyField())
                viol(P(8) | ok6(n, h) | cb, n.id, "exception-fields", "node %d: exception report says slave %d fc 0x%x adr %d qty %d, the request was slave %d fc 0x%x adr %d qty %d", n.id, sid, fc, adr, qty, h.sid, h.fc, h.adr, h.qtyField());
        }
        m.outKind = 2;
        st.outExc++;
    }
    afterCallback(n);
}

void World::appErr(Node &n, int kind, int sid, int fc, int adr, int qty, int err)
{
    MasterM &m = n.m;
    mixLog(0x71 + kind, adr, err);
    plogAdd(n, 0, kind ? "commerr" : "timeout", (u64)sid << 40 | (u64)fc << 32 | adr, (u64)err << 32 | (u32)qty);
    trace("node %d %s report slave %d fc 0x%x adr %d qty %d error %d", n.id, kind ? "communication error" : "timeout", sid, fc, adr, qty, err);
    int T = n.img[0]->cfg[1], R = n.img[0]->cfg[2];
    const int *en = n.img[0]->en; // 2 CRC, 3 TIMEOUT, 4 FRAME
    if (headForCallback(n, kind ? "communication error" : "timeout report", sid))
    {
        Req &h = m.pend.front();
        Attempt &a = m.at;
        u32 cb = (h.inCb || !n.cbItems.empty()) ? P(23) : 0;
        if (m.outKind)
            viol(P(1) | (kind ? P(4) : P(7)) | cb, n.id, "second-outcome", "node %d: error report after the request already ended", n.id);
        if (sid != h.sid || fc != h.fc || adr != h.adr || qty != h.qtyField())
            viol(P(8) | cb, n.id, "error-fields", "node %d: %s report says slave %d fc 0x%x adr %d qty %d, the request was slave %d fc 0x%x adr %d qty %d", n.id, kind ? "error" : "timeout", sid, fc, adr, qty, h.sid, h.fc, h.adr, h.qtyField());
        if (kind == 0)
        {
            if (err != en[3])
                viol(P(8), n.id, "error-kind", "node %d: timeout report carries error code %d", n.id, err);
            if (a.tDone < 0)
                viol(P(7), n.id, "timeout-early", "node %d: timeout reported before the transmission ended", n.id);
            else if (m.tick - a.tickDone < T - 1)
                viol(P(7), n.id, "timeout-early", "node %d: timeout reported %lld ticks after the end of the transmission, the limit is %d", n.id, (long long)(m.tick - a.tickDone), T);
            if (a.deaf && a.tEnable < 0)
                viol(P(6) | P(7), n.id, "never-listened", "node %d: timeout reported although the correct reply was on the line: reception was not switched on after the transmission", n.id);
            if (cleanReply(n, a, h) >= 0)
                viol(P(6) | P(7) | m.ini(), n.id, "timeout-despite-reply", "node %d: timeout reported although the correct reply arrived in time", n.id);
            else if (surelyDamaged(n, a, h))
                viol(P(4), n.id, "no-retry-after-damage", "node %d: a reply with the right id arrived damaged, but the request ended in a timeout instead of a retry or an error report", n.id);
        }
        else
        {
            if (h.attempts != 1 + R)
                viol(P(4), n.id, "gave-up-early", "node %d: communication error after %d attempts, %d are permitted", n.id, h.attempts, 1 + R);
            if (!damaged(n, a, h))
                viol(P(4) | (cleanReply(n, a, h) >= 0 ? P(6) : 0), n.id, "error-without-damage", "node %d: communication error although nothing damaged was received since the last transmission", n.id);
            if (err != en[2] && err != en[4])
                viol(P(8), n.id, "error-kind", "node %d: communication error report carries error code %d", n.id, err);
            else if (a.frames.size() == 1 && !a.dirty && !a.frames[0].lost && !a.frames[0].merge && a.frames[0].b.size() >= 4)
            {
                const Frame &f = a.frames[0];
                if (!f.gap && err != en[2])
                    viol(P(8) | P(4), n.id, "error-kind", "node %d: the last reply had a bad CRC and no gap, but a frame error is reported", n.id);
                if (f.gap && crcOk(f.b) && f.noPollIn && err != en[4])
                    viol(P(8) | P(4), n.id, "error-kind", "node %d: the last reply had an inter-character gap and a good CRC, but a CRC error is reported", n.id);
            }
        }
        m.outKind = kind == 0 ? 3 : 4;
        if (kind)
            st.outComm++;
        else
            st.outTimeout++;
    }
    afterCallback(n);
}

void World::afterCallback(Node &n)
{
    MasterM &m = n.m;
    m.cbCount++;
    if (!quiet && m.inPoll && cur == &n)
        for (int i : n.cbItems)
        {
            const std::vector<i64> &a = pl.items[i].a;
            if (a[1] == m.cbCount && now >= pl.items[i].t)
            {
                if (a[2] == 99)
                {
                    m.ghost = m.pollSeq;
                    masterInit(n, a[3] != 0, true);
                }
                else
                    doReq(n, std::vector<i64>(a.begin() + 2, a.end()), true);
            }
        }
    if (cur == &n && !stop)
        onAccess(0xF000000000000002ull);
}

void World::finishHead(Node &n)
{
    MasterM &m = n.m;
    Req &h = m.pend.front();
    Outcome o;
    o.reqId = h.id;
    o.kind = m.outKind;
    o.attempts = h.attempts;
    m.outs.push_back(o);
    m.prevKind = o.kind;
    distHash = h4(distHash, 0x81, o.kind, h.fc * 8 + h.attempts);
    mixLog(0x81, o.kind, h.id);
    m.pend.pop_front();
    m.outKind = 0;
    m.nGot = 0;
    m.got.clear();
    m.frameMask = 0;
    m.at = Attempt();
    progress(n);
}

void World::masterPollEnd(Node &n)
{
    MasterM &m = n.m;
    Port &p = port[n.port[0]];
    for (auto &f : m.at.frames)
        if (f.pollInProg == m.pollSeq)
            f.pollEndTick = m.tick;
    if (p.open && p.cur.pollInProg == m.pollSeq)
        p.cur.pollEndTick = m.tick;
    u32 cb = n.cbItems.empty() ? 0 : P(23);
    if (m.outKind && !m.pend.empty())
    {
        Req &h = m.pend.front();
        if (m.outKind == 1 && h.fc <= 4 && m.nGot != h.qty)
            viol(P(1) | ok6(n, h) | cb, n.id, "partial-outcome", "node %d: only %d of %d requested values were delivered", n.id, m.nGot, h.qty);
        finishHead(n);
    }
    if (m.pend.empty())
        return;
    Attempt &a = m.at;
    Req &h = m.pend.front();
    int T = n.img[0]->cfg[1];
    if (a.active && a.reqId == h.id && a.tDone >= 0)
    {
        if (a.noticeTick < 0 && m.pollStart >= a.tDone)
        {
            a.noticeTick = m.tick;
            a.noticePolls = m.pollsDone;
            progress(n);
        }
        else if (a.noticeTick >= 0 && m.pollStartTick - a.noticeTick >= T && !damaged(n, a, h))
        {
            bool clean = !p.open && !p.busy && p.st == 0;
            for (auto &f : a.frames)
                if (matchKind(f, h))
                    clean = false;
            if (clean)
            {
                a.latePolls++;
                if (a.latePolls > a.frames.size() + 1 && a.latePolls < 1000000)
                {
                    viol(P(7) | P(10) | P(1), n.id, "timeout-late", "node %d: no timeout report although the poll began %lld ticks after the end of transmission was noticed (limit %d)", n.id, (long long)(m.pollStartTick - a.noticeTick), T);
                    a.latePolls = 1000000;
                }
            }
        }
    }
    if (p.txActive || p.st != 0 || p.busy)
    {
        progress(n);
        return;
    }
    u64 polls = m.pollsDone - m.progPoll;
    bool unsent = !a.active || a.reqId != h.id;
    if (!p.stm && !a.slowTold)
    {
        // everything that is needed for the next step is there: it has to follow within a few polls
        const char *what = nullptr;
        if (unsent)
            what = polls >= 6 ? "a waiting request is not transmitted although the line is silent" : nullptr;
        else if (!a.frames.empty() && m.pollsDone >= a.frames.back().polls35 + 6)
        {
            int k = cleanReply(n, a, h);
            if (k >= 0 && k == (int)a.frames.size() - 1)
                what = "a received reply is not processed";
            else if (surelyDamaged(n, a, h))
                what = "a damaged reply is not acted upon";
        }
        if (what)
        {
            a.slowTold = true;
            viol(P(25), n.id, "step-late", "node %d: %s after six main loop polls", n.id, what);
        }
    }
    if (polls >= 12 && (unsent || m.tick - m.progTick >= T + 5))
    {
        viol(P(10) | P(1) | m.ini() | cb | P(20), n.id, "master-stuck", "node %d: request fc %d to slave %d makes no progress (%llu polls, %lld ticks)%s", n.id, h.fc, h.sid, (unsigned long long)polls, (long long)(m.tick - m.progTick), unsent ? ", not transmitted" : "");
        m.pend.clear(); // report it once
        m.at = Attempt();
        stop = true;
    }
}

// ------------------------------------------------------------------------------------------------
// slave

// Reference reply to a request (CRC stripped in and out is handled here).  exc: exception code or 0.
Bytes World::expectReply(Node &n, const Bytes &q, bool live, int *exc, std::vector<std::pair<int, u16>> *writes, int *wtab)
{
    *exc = 0;
    *wtab = -1;
    writes->clear();
    int fc = q[1];
    Bytes r = {q[0], (u8)fc};
    auto exception = [&](int code) {
        *exc = code;
        writes->clear();
        Bytes e = {q[0], (u8)(fc | 0x80), (u8)code};
        addCrc(e);
        return e;
    };
    int adr = be16(&q[2]), val = q.size() >= 8 ? be16(&q[4]) : 0;
    int tabIdx;
    switch (fc)
    {
    case 1: tabIdx = 0; break;
    case 2: tabIdx = 1; break;
    case 3: tabIdx = 3; break;
    case 4: tabIdx = 2; break;
    case 5: case 15: tabIdx = 0; break;
    case 6: case 16: tabIdx = 3; break;
    default: return exception(1);
    }
    VarTab &t = n.tab[tabIdx];
    *wtab = tabIdx;
    if (fc == 5 || fc == 6)
    {
        if (fc == 5 && val != 0 && val != 0xFF00)
            return exception(3);
        if (adr >= t.n)
            return exception(2);
        if (!t.reg[adr])
            return exception(4);
        writes->push_back({adr, (u16)(fc == 5 ? (val ? 1 : 0) : val)});
        return q;
    }
    int maxq = fc <= 2 ? 2000 : fc <= 4 ? 125 : fc == 15 ? 1968 : 123;
    if (val < 1 || val > maxq)
        return exception(3);
    if (adr + val > t.n)
        return exception(2);
    if (fc >= 15)
    {
        int bc = q[6];
        if (bc != (fc == 15 ? (val + 7) / 8 : val * 2))
            return exception(3);
        bool unreg = false;
        for (int i = 0; i < val; i++)
        {
            u16 v = fc == 15 ? (q[7 + i / 8] >> (i % 8)) & 1 : (u16)be16(&q[7 + 2 * i]);
            writes->push_back({adr + i, v});
            if (!t.reg[adr + i])
                unreg = true;
        }
        if (unreg)
        {
            std::vector<std::pair<int, u16>> keep = *writes;
            Bytes e = exception(4);
            *writes = keep;
            return e;
        }
        put16(r, adr);
        put16(r, val);
        addCrc(r);
        return r;
    }
    for (int i = 0; i < val; i++)
        if (!t.reg[adr + i])
            return exception(4);
    if (fc <= 2)
    {
        int bc = (val + 7) / 8;
        r.push_back(bc);
        r.resize(3 + bc);
        for (int i = 0; i < val; i++)
            if (t.mir[adr + i])
                r[3 + i / 8] |= 1 << (i % 8);
    }
    else
    {
        r.push_back(2 * val);
        for (int i = 0; i < val; i++)
            put16(r, t.mir[adr + i]);
    }
    addCrc(r);
    return r;
}

// Some variables have changed while the reply was being made: it may carry any value each of them had meanwhile
bool World::fitsMidCall(Node &n, const Bytes &q, const Bytes &reply)
{
    if (n.s.midCall.empty() || q[1] < 1 || q[1] > 4 || reply.size() < 5)
        return false;
    static const int tabOf[] = {0, 0, 1, 3, 2};
    int tab = tabOf[q[1]], adr = be16(&q[2]);
    VarTab &v = n.tab[tab];
    std::map<int, u16> keep;
    for (auto &m : n.s.midCall)
    {
        int i = m.adr - adr;
        size_t at = 3 + (size_t)(q[1] <= 2 ? i / 8 : 2 * i);
        if (m.tab != tab || i < 0 || at + (q[1] <= 2 ? 0 : 1) >= reply.size())
            continue;
        u16 x = q[1] <= 2 ? (reply[at] >> (i % 8)) & 1 : (u16)be16(&reply[at]);
        if (!keep.count(m.adr))
            keep[m.adr] = (u16)v.mir[m.adr];
        if (m.old == x)
            v.mir[m.adr] = x;
    }
    int exc, t2;
    std::vector<std::pair<int, u16>> w;
    bool ok = expectReply(n, q, true, &exc, &w, &t2) == reply;
    for (auto &k : keep)
        v.mir[k.first] = k.second;
    return ok;
}

static bool lenFits(const Bytes &b)
{
    switch (b[1])
    {
    case 1: case 2: case 3: case 4: case 5: case 6: return b.size() == 8;
    case 15: case 16: return b.size() >= 9 && b.size() == (size_t)b[6] + 9;
    default: return true;
    }
}

u32 World::slaveCtx(Node &n, const Frame &f)
{
    u32 t = 0;
    if (f.afterOwnTx)
        t |= P(16);
    if (f.afterNoise)
        t |= P(15);
    if (f.afterForeign || bus[n.c.sbus].nslaves > 1)
        t |= P(17);
    return t | n.s.ini();
}

// The main loop may have been too slow to tell consecutive frames apart: every run of these bytes that is a request
std::vector<Cand> World::chainCands(Node &n)
{
    std::vector<Cand> out;
    Bytes ch = n.s.chain;
    Port &p = port[n.port[1]];
    if ((p.open || p.openAtSend) && p.cur.pollsSettled < 4)
        ch.insert(ch.end(), p.cur.b.begin(), p.cur.b.end());
    else if (n.s.chainAlone)
        return out; // one frame only, and the main loop was ready for it
    for (size_t i = 0; i + 4 <= ch.size(); i++)
    {
        if (ch[i] != n.s.sid)
            continue;
        u16 crc = 0xFFFF;
        for (size_t k = i; k + 2 < ch.size() && k - i < 253; k++)
        {
            crc = crcStep(crc, ch[k]);
            if (k - i < 1 || ch[k + 1] != (crc & 0xFF) || ch[k + 2] != crc >> 8)
                continue;
            Cand c;
            c.f.b.assign(ch.begin() + i, ch.begin() + k + 3);
            c.f.altered = true;
            c.fits = lenFits(c.f.b);
            if (c.fits)
                out.push_back(c);
        }
    }
    return out;
}

// Do the variables look as this reply says?  score 2: exactly, 0: no
bool World::effectsFit(Node &n, int wt, int exc, const std::vector<std::pair<int, u16>> &wr)
{
    bool row = true; // the usual case: a row of addresses, everything else as it should be
    for (size_t i = 1; i < wr.size(); i++)
        row &= wr[i].first == wr[i - 1].first + 1;
    if (row)
    {
        bool ok = true;
        for (int t = 0; t < 4 && ok; t++)
        {
            VarTab &v = n.tab[t];
            if (t != wt || wr.empty())
            {
                ok = v.same(0, v.n);
                continue;
            }
            for (auto &w : wr)
            {
                u16 x = memVar(v, w.first);
                ok &= x == w.second || (exc != 0 && x == v.mir[w.first]);
            }
            ok = ok && v.same(0, wr[0].first) && v.same(wr.back().first + 1, v.n);
        }
        if (ok)
            return true;
    }
    std::map<int, std::vector<u16>> may;
    if (wt >= 0)
        for (auto &w : wr)
            may[w.first].push_back(w.second);
    for (int t = 0; t < 4; t++)
    {
        VarTab &v = n.tab[t];
        for (int a : v.live)
        {
            u16 x = memVar(v, a);
            if (t == wt)
            {
                auto it = may.find(a);
                if (it != may.end())
                {
                    if (exc == 0 ? x != it->second.back() : x != v.mir[a] && x != it->second.back())
                        return false;
                    continue;
                }
            }
            if (x != v.mir[a])
                return false;
        }
    }
    return true;
}

void World::slaveFrame(Node &n, Port &p, Frame &f)
{
    SlaveM &s = n.s;
    if (s.passive)
        return;
    s.chainAlone = f.pollsSettled >= 4;
    if (f.pollsSettled >= 4)
        s.chain.clear();
    else
        st.mergedFrames++;
    s.chain.insert(s.chain.end(), f.b.begin(), f.b.end());
    if (s.chain.size() > 1200)
        s.chain.erase(s.chain.begin(), s.chain.end() - 1200);
    if (f.valid() && f.b[0] == s.sid && f.b.size() <= 255)
    {
        Cand c;
        c.f = f;
        c.fits = lenFits(f.b);
        c.must = c.fits && f.pollsSettled >= 4 && p.en && !p.wireTx && !p.txActive && !f.mixed;
        if (c.must)
            st.mustReplies++;
        s.cands.push_back(c);
        if (s.cands.size() > 8)
            s.cands.pop_front();
    }
    // a request that was not the last thing heard need not be answered any more
    for (auto &c : s.cands)
        if (c.f.idx != f.idx)
            c.must = false;
}

void World::slaveSend(Node &n, Tx &t)
{
    SlaveM &s = n.s;
    st.slaveReplies++;
    s.sentThisCall++;
    Port &p = port[n.port[1]];
    u32 multi = bus[n.c.sbus].nslaves > 1 ? P(17) : 0;
    u32 ini = s.ini();
    if (s.passive)
        viol(P(26), n.id, "passive-sends", "node %d: a slave that is %s transmits", n.id, s.inits ? "in an unsupported mode" : "not initialised");
    std::vector<Cand> chained;
    if (!s.chain.empty() || p.open || p.openAtSend)
        chained = chainCands(n);
    if (s.cands.empty() && chained.empty())
    {
        bool early = (p.open || p.openAtSend) && p.cur.valid() && p.cur.b[0] == s.sid && lenFits(p.cur.b);
        viol(P(14) | P(16) | multi | ini | (t.orig == s.lastReply ? P(11) | P(12) : 0) | (port[n.port[1]].foreignSince ? P(17) : 0), n.id, early ? "reply-before-silence" : "unsolicited-reply", "node %d slave %d transmits %s %s", n.id, s.sid, hex(t.orig).c_str(), early ? "before 3.5 characters of silence" : "although no valid unanswered request for it was received");
        checkVars(n, true, "unsolicited reply");
        return;
    }
    // Which request does it answer?  First choice: reply and variables fit; second: the reply fits
    int hit = -1, bestExc = 0;
    bool full = false;
    std::vector<std::pair<int, u16>> wr;
    int wt = -1;
    size_t own = s.cands.size();
    auto consider = [&](Cand &c, int i) {
        if (full)
            return;
        if (c.fits)
        {
            int exc, tab;
            std::vector<std::pair<int, u16>> w;
            if (expectReply(n, c.f.b, true, &exc, &w, &tab) != t.orig && !fitsMidCall(n, c.f.b, t.orig))
                return;
            bool ef = effectsFit(n, tab, exc, w);
            if (hit >= 0 && !ef)
                return;
            hit = i;
            full = ef;
            bestExc = exc;
            wr = w;
            wt = tab;
        }
        else if (hit < 0 && t.orig.size() == 5 && t.orig[0] == s.sid && t.orig[1] == (c.f.b[1] | 0x80) && crcOk(t.orig))
        {
            bestExc = t.orig[2];
            wr.clear();
            hit = i;
            wt = -1;
        }
    };
    for (int i = (int)own - 1; i >= 0; i--)
        consider(s.cands[i], i);
    if (!full)
    {
        for (size_t i = 0; i < chained.size(); i++)
            consider(chained[i], (int)(own + i));
        if (hit >= (int)own)
        {
            s.cands.push_back(chained[hit - own]);
            hit = (int)s.cands.size() - 1;
        }
        else if (s.cands.empty())
            s.cands.push_back(chained[0]);
    }
    if (hit < 0)
    {
        Cand &c = s.cands.back();
        int exc = 0;
        std::vector<std::pair<int, u16>> w2;
        int wt2;
        u32 tags = slaveCtx(n, c.f) | ini;
        if (!c.fits)
        {
            if (t.orig.size() >= 2 && !(t.orig[1] & 0x80) && c.f.b[1] >= 5)
                tags |= P(13);
            viol(P(14) | tags, n.id, "malformed-request-answered", "node %d slave %d answers the malformed request %s with %s", n.id, s.sid, hex(c.f.b).c_str(), hex(t.orig).c_str());
        }
        else
        {
            Bytes e = expectReply(n, c.f.b, true, &exc, &w2, &wt2);
            tags |= exc ? P(12) : P(11);
            bool normal = t.orig.size() >= 2 && !(t.orig[1] & 0x80);
            if (c.f.b[1] >= 5 && !exc && !normal)
                tags |= P(13);
            if (exc == 4 && normal && c.f.b[1] >= 5)
                tags |= P(13);
            viol(tags, n.id, exc ? "wrong-exception" : "wrong-reply", "node %d slave %d answers %s with %s, expected %s", n.id, s.sid, hex(c.f.b).c_str(), hex(t.orig).c_str(), hex(e).c_str());
            wr = w2;
            bestExc = exc;
            wt = wt2;
            if (exc && exc != 4)
                wr.clear();
        }
        hit = (int)s.cands.size() - 1;
    }
    Cand c = s.cands[hit];
    s.chain.clear();
    s.cands.erase(s.cands.begin(), s.cands.begin() + hit + 1);
    if (bestExc)
        st.excReplies++;
    t.inReplyTo = c.f.origin;
    s.lastReply = t.orig;
    distHash = h4(distHash, 0x91, c.f.b[1], bestExc);
    // effects
    if (wt >= 0 && !wr.empty())
    {
        VarTab &v = n.tab[wt];
        for (auto &w : wr)
        {
            if (w.first >= v.n)
                continue;
            if (bestExc == 0)
            {
                setVar(n, wt, w.first, w.second);
            }
            else if (v.reg[w.first] && memVar(v, w.first) == w.second)
                setVar(n, wt, w.first, w.second);
        }
    }
    if (c.f.origin >= 0)
    {
        Tx &rt = tx[c.f.origin];
        if (rt.reqId >= 0)
        {
            ReqInfo &ri = reqInfo[rt.reqId];
            if (c.f.altered || c.f.mixed || sidsChange)
                ri.taint = true;
            else if (ri.sid == s.sid)
            {
                ri.services++;
                if (ri.services > ri.attempts + ri.copies)
                    viol(P(18) | P(16) | P(11) | multi | ini, n.id, "served-more-than-sent", "node %d slave %d served a request %d times, it was transmitted %d times", n.id, s.sid, ri.services, ri.attempts + ri.copies);
            }
        }
    }
    checkVars(n, true, bestExc ? "exception" : "reply");
}

__attribute__((no_sanitize("address"))) static void clearSlot(u8 *p) { *(volatile u64 *)p = 0; }

__attribute__((no_sanitize("address"))) bool VarTab::same(int from, int to) const
{
    u64 d = 0;
    const u64 *p = (const u64 *)mem, *q = mir.data();
    if (n <= 4000)
        for (int a = from; a < to; a++)
            d |= p[a] ^ q[a];
    else
        for (int a : live)
            if (a >= from && a < to)
                d |= p[a] ^ q[a];
    if (!nMoved || d == 0)
        return d == 0;
    for (int a : live)
        if (a >= from && a < to && raw(a) != mir[a])
            return false;
    return true;
}

void World::checkVars(Node &n, bool force, const char *what)
{
    for (int t = 0; t < 4; t++)
    {
        VarTab &v = n.tab[t];
        if (v.same(0, v.n))
            continue;
        for (int a : v.live)
        {
            u64 raw = v.raw(a);
            if (raw == v.mir[a])
                continue;
            u16 x = memVar(v, a);
            u32 tags = P(13);
            if (!strcmp(what, "reply"))
                tags |= P(11) | P(18);
            else if (!strcmp(what, "exception"))
                tags |= P(12);
            else if (!strcmp(what, "idle") || !strcmp(what, "unsolicited reply"))
                tags |= P(14) | P(15);
            else if (!strcmp(what, "init"))
                tags |= P(19);
            if (n.s.passive)
                tags |= P(26);
            if (bus[n.c.sbus].nslaves > 1)
                tags |= P(17);
            if (raw != x)
                tags |= P(21);
            viol(tags, n.id, "variable-changed", "node %d: %s %d is 0x%llx after %s, it should be 0x%llx", n.id, kindNames[t], a, (unsigned long long)raw, what, (unsigned long long)v.mir[a]);
            // resynchronise to limit cascades
            clearSlot(&v.mem[a * 8]);
            v.mir[a] = v.size == 1 ? (x & 1) : x;
            auto &h = v.hist[a];
            h.push_back({now, v.mir[a]});
            u16 mv = v.mir[a];
            memcpy(v.at(a), &mv, v.size);
            if (viols.size() > 10)
                return;
        }
    }
}

// the slave may have executed (part of) a pending request without sending the reply: accept what is there
void World::acceptPartial(Node &n, const Cand &c)
{
    if (!c.fits)
        return;
    int exc, wt;
    std::vector<std::pair<int, u16>> wr;
    expectReply(n, c.f.b, false, &exc, &wr, &wt);
    if (wt < 0)
        return;
    VarTab &v = n.tab[wt];
    for (auto &w : wr)
        if (w.first < v.n && v.reg[w.first] && memVar(v, w.first) == w.second)
            setVar(n, wt, w.first, w.second);
}

void World::slavePollEnd(Node &n)
{
    SlaveM &s = n.s;
    Port &p = port[n.port[1]];
    if (s.pollsDone % 64 == 0 && !s.sentThisCall)
        checkVars(n, true, "idle");
    if (s.sentThisCall > 1)
        viol(P(16) | P(14) | P(11) | (bus[n.c.sbus].nslaves > 1 ? P(17) : 0), n.id, "two-replies", "node %d slave sent %d replies in one call", n.id, s.sentThisCall);
    for (auto &c : s.cands)
        if (c.must && (p.st != 0 || p.busy || p.wireTx || p.frames != c.f.idx))
            c.must = false;
    if (!s.cands.empty())
    {
        Cand &c = s.cands.back();
        if (c.must && s.pollsDone >= c.f.polls35 + 6)
        {
            int exc, wt;
            std::vector<std::pair<int, u16>> wr;
            expectReply(n, c.f.b, false, &exc, &wr, &wt);
            viol(P(25) | (exc ? P(12) : P(11)) | slaveCtx(n, c.f), n.id, "request-not-answered", "node %d slave %d does not answer the clean request %s", n.id, s.sid, hex(c.f.b).c_str());
            acceptPartial(n, c);
            s.cands.clear();
        }
    }
}

// ------------------------------------------------------------------------------------------------
// stub slave: an independent device that answers every valid request for its id

void World::stubFrame(Node &n, Port &p, Frame &f)
{
    if (!f.valid() || f.b[0] != n.c.sid || !lenFits(f.b))
        return;
    const Bytes &q = f.b;
    int fc = q[1], adr = be16(&q[2]), val = q.size() >= 8 ? be16(&q[4]) : 0;
    Bytes r = {q[0], (u8)fc};
    auto val16 = [&](int tab, int a) -> u16 {
        auto it = n.stubMem.find(tab << 16 | (a & 0xFFFF));
        if (it != n.stubMem.end())
            return it->second;
        u64 h = h4(n.c.varSeed, tab, a & 0xFFFF, 8);
        if (tab < 2)
            return n.c.varSeed % 7 ? h & 1 : (n.c.varSeed & 8 ? 1 : 0);
        return dataValue(h, (int)(n.c.varSeed % 3));
    };
    bool known = (fc >= 1 && fc <= 6) || fc == 15 || fc == 16;
    u64 hx = h4(n.c.varSeed, adr, fc, 44);
    if (!known || hx % 9 == 0)
    {
        r[1] |= 0x80;
        r.push_back(known ? (u8)(1 + (hx >> 8) % 11) : 1);
        addCrc(r);
    }
    else
    {
        int tab = fcKind(fc);
        if (fc == 5 || fc == 6)
        {
            n.stubMem[tab << 16 | adr] = fc == 5 ? (val ? 1 : 0) : (u16)val;
            r = q;
        }
        else if (fc >= 15)
        {
            for (int i = 0; i < val && 7 + (fc == 15 ? i / 8 : 2 * i + 1) < (int)q.size() - 2; i++)
                n.stubMem[tab << 16 | ((adr + i) & 0xFFFF)] = fc == 15 ? (q[7 + i / 8] >> (i % 8)) & 1 : (u16)be16(&q[7 + 2 * i]);
            put16(r, adr);
            put16(r, val);
            addCrc(r);
        }
        else
        {
            if (val < 1 || val > (fc <= 2 ? 2000 : 125))
                return;
            int bc = fc <= 2 ? (val + 7) / 8 : 2 * val;
            r.push_back((u8)bc);
            if (fc <= 2)
            {
                r.resize(3 + bc);
                for (int i = 0; i < val; i++)
                    if (val16(tab, adr + i))
                        r[3 + i / 8] |= 1 << (i % 8);
            }
            else
                for (int i = 0; i < val; i++)
                    put16(r, val16(tab, adr + i));
            addCrc(r);
        }
    }
    tx.emplace_back();
    Tx &t = tx.back();
    t.id = (int)tx.size() - 1;
    t.bus = p.bus;
    t.orig = r;
    t.inReplyTo = f.origin;
    t.t0 = now;
    i64 d = n.c.stubDelayUs * US;
    if (quiet)
        d = std::min<i64>(d, 2 * MS);
    else if (d > 3 * MS && h3(n.c.varSeed, t.id, 3) % 3)
        d = h3(n.c.varSeed, t.id, 4) % 3000 * US;
    push(now + d, EV_STUBTX, p.id, t.id);
}

// ------------------------------------------------------------------------------------------------
// quiet phase: faults stop, everything must drain, probes must succeed

bool World::mastersIdle()
{
    for (auto &n : node)
        if ((n.c.roles & 1) && (n.dead || !n.m.pend.empty()))
            return false;
    for (auto &n : node)
        if ((n.c.roles & 2) && n.dead)
            return false;
    return true;
}

bool World::busesIdle(i64 forNs)
{
    for (auto &b : bus)
    {
        if (!b.cur.empty() || b.planned > now || now - std::max(b.lastByteEnd, b.lastTxDone) < forNs)
            return false;
        for (int pi : b.ports)
            if (port[pi].wireTx || port[pi].txActive || port[pi].st || port[pi].busy)
                return false;
    }
    return true;
}

i64 World::worstDrain()
{
    i64 w = 200 * MS;
    for (auto &n : node)
    {
        if (!(n.c.roles & 1))
            continue;
        i64 ch = bus[n.c.mbus].ch;
        i64 T = n.img[0]->cfg[1], R = n.img[0]->cfg[2], N = n.img[0]->cfg[0];
        w += (N + 2) * ((R + 2) * (2 * 260 * ch + 20 * MS) + T * MS * 11 / 10 + 20 * MS);
    }
    i64 boot = 0;
    for (auto &it : pl.items)
        if (it.kind == IT_PWR)
            boot = std::max(boot, it.a[1] * US);
        else if (it.kind == IT_RAW)
        {
            i64 g = 0;
            for (size_t k = 2; k < it.a.size(); k += 2)
                g += it.a[k];
            w = std::max(w, w + (i64)it.data.size() * 2 * bus[0].ch + g * bus[0].ch / 10);
        }
    for (auto &n : node)
        if (n.c.roles & 4)
            boot += n.c.stubDelayUs * US;
    return w + boot;
}

void World::ctrl()
{
    auto again = [&](i64 d) { push(now + d, EV_CTRL, 0); };
    switch (ctrlPhase)
    {
    case 0:
    {
        bool inMain = false, looping = false;
        for (auto &n : node)
        {
            inMain |= n.inMain;
            looping |= n.loopLeft > 0 && !n.dead;
        }
        if (looping && now < pl.tQuiet + 3000000 * MS)
        {
            again(20 * MS);
            return;
        }
        if (!quiet)
            quietStart = now;
        quiet = true;
        preemptOff = true;
        for (auto &n : node)
        {
            n.qPeriod = 200 * US;
            n.stallUntil = n.tickStallUntil = 0;
        }
        if (inMain)
        {
            again(500 * US);
            return;
        }
        if (!pl.drain)
        {
            stop = true;
            return;
        }
        for (auto &n : node)
            if (n.up && !n.dead)
            {
                n.pg++; // the poll that is planned may be far away
                push(now + (i64)(h3(pl.sched, n.id, n.pg) % (200 * US)), EV_POLL, n.id, 0, n.pg);
            }
        trace("--- quiet phase");
        quietStart = now;
        quietDeadline = now + worstDrain();
        ctrlPhase = 1;
        again(1 * MS);
        return;
    }
    case 1:
        {
            // every main loop must have come round since the last thing
            // happened on the line, else the next request meets a slave
            // that is still closing its last transmission
            i64 gap = 8 * MS;
            for (auto &b : bus)
                if (b.t35 > 5 * MS)
                    gap = std::max(gap, 8 * MS + 2 * b.t35);
            bool idle = mastersIdle() && now - quietStart >= gap && busesIdle(gap);
            drainedNow = idle;
            for (auto &n : node)
                if (!idle)
                    n.pollMark = n.pollIdx;
                else if (n.up && !n.dead && n.pollIdx < n.pollMark + 3)
                    drainedNow = false;
        }
        if (drainedNow)
        {
            ctrlPhase = 2;
            probeIdx = 0;
            for (auto &n : node)
                if (n.c.roles & 1)
                    for (auto &s : node)
                        if ((s.c.roles & 6) && s.c.sbus == n.c.mbus)
                            probeList.push_back({n.id, s.id});
            for (size_t b = 0; b < bus.size(); b++)
            {
                bool hasM = false;
                for (auto &n : node)
                    if ((n.c.roles & 1) && n.c.mbus == (int)b)
                        hasM = true;
                if (!hasM)
                    for (auto &s : node)
                        if ((s.c.roles & 2) && s.c.sbus == (int)b)
                            probeList.push_back({-1, s.id});
            }
            trace("--- drained, %zu probes", probeList.size());
            again(0);
            return;
        }
        if (now > quietDeadline)
        {
            for (auto &n : node)
                if ((n.c.roles & 1) && !n.m.pend.empty())
                    viol(P(10) | P(1) | (n.cbItems.empty() ? 0 : P(23)) | n.m.ini(), n.id, "not-drained", "node %d: %zu accepted requests have no outcome long after the faults stopped", n.id, n.m.pend.size());
            stop = true;
            return;
        }
        again(1 * MS);
        return;
    case 2: // start the next probe
    {
        if (probeIdx >= 2 * probeList.size())
        {
            ctrlPhase = 4;
            again(10 * MS);
            return;
        }
        auto pr = probeList[probeIdx % probeList.size()];
        Node &s = node[pr.second];
        int round = (int)(probeIdx / probeList.size());
        st.probes++;
        ctrlPhase = 3;
        if (pr.first >= 0)
        {
            Node &n = node[pr.first];
            n.m.outs.clear();
            int N = n.img[0]->cfg[0];
            int sid = (s.c.roles & 2) ? s.s.sid : s.c.sid;
            trace("--- probe: node %d reads slave %d", n.id, sid);
            if (round == 0)
            {
                probeAttempts = 1;
                {
                    static const int fcs[] = {3, 1, 2, 4, 5, 6, 15, 16};
                    u64 h = h3(pl.seed, probeIdx, 21);
                    int fc = fcs[h % 8];
                    int q = fc == 5 || fc == 6 ? 1 : 1 + (int)((h >> 8) % 12);
                    doReq(n, {fc, (i64)((h >> 16) % 9), q, sid, (i64)((h >> 20) & 0xFFFF), (i64)(h >> 40)}, false);
                }
            }
            else
            {
                // a full queue must be accepted, one more refused
                probeAttempts = N;
                for (int i = 0; i <= N && !stop; i++)
                    doReq(n, {i % 2 ? 1 : 6, i, 1 + i, sid, 0x1200 + i, 1}, false);
            }
            i64 T = n.img[0]->cfg[1];
            probeDeadline = now + probeAttempts * ((T + 10) * MS * 11 / 10 + 600 * bus[n.c.mbus].ch);
        }
        else if (round == 0)
        {
            Item it;
            tx.emplace_back();
            Tx &t = tx.back();
            t.id = (int)tx.size() - 1;
            t.bus = s.c.sbus;
            u64 h = h3(pl.seed, probeIdx, 22);
            t.orig = {(u8)s.s.sid, (u8)(1 + h % 4), 0, (u8)((h >> 8) % 9), 0, (u8)(1 + (h >> 16) % 11)};
            addCrc(t.orig);
            for (u8 c : t.orig)
            {
                El e;
                e.lit = c;
                t.els.push_back(e);
            }
            trace("--- raw probe to slave %d", s.s.sid);
            probeAttempts = (int)st.slaveReplies;
            planByte(t, 0);
            probeDeadline = now + 60 * bus[t.bus].ch + 20 * MS;
        }
        else
            probeDeadline = now;
        again(500 * US);
        return;
    }
    case 3:
    {
        auto pr = probeList[probeIdx % probeList.size()];
        int round = (int)(probeIdx / probeList.size());
        if (pr.first >= 0)
        {
            Node &n = node[pr.first];
            Node &s = node[pr.second];
            bool done = n.m.pend.empty() && busesIdle(bus[n.c.mbus].t35);
            if (!done && now < probeDeadline)
            {
                again(500 * US);
                return;
            }
            u32 tags = P(10) | ((s.c.roles & 2) ? P(15) | P(11) : 0) | n.m.ini() | s.s.ini();
            if (!n.m.pend.empty())
                viol(tags | P(1), n.id, "probe-unanswered", "node %d: request to healthy slave after faults stopped has no outcome", n.id);
            else if ((int)n.m.outs.size() != probeAttempts)
                viol(tags | P(1), n.id, "probe-outcomes", "node %d: %zu outcomes for %d requests after faults stopped", n.id, n.m.outs.size(), probeAttempts);
            else
                for (auto &o : n.m.outs)
                    if (o.kind > 2 || o.attempts != 1)
                    {
                        viol(tags, n.id, "probe-failed", "node %d: request to healthy slave after faults stopped ended with %s at attempt %d", n.id, o.kind == 3 ? "a timeout" : o.kind == 4 ? "a communication error" : "a result only", o.attempts);
                        break;
                    }
        }
        else if (round == 0)
        {
            if (now < probeDeadline)
            {
                again(500 * US);
                return;
            }
            Node &s = node[pr.second];
            if ((int)st.slaveReplies != probeAttempts + 1)
                viol(P(15) | P(11) | (bus[s.c.sbus].nslaves > 1 ? P(17) : 0) | s.s.ini(), s.id, "probe-unanswered", "node %d: slave %d does not answer a clean request after the noise stopped", s.id, s.s.sid);
        }
        probeIdx++;
        ctrlPhase = 2;
        again(3 * MS);
        return;
    }
    case 4:
        for (auto &n : node)
            if (n.c.roles & 2)
                checkVars(n, true, "idle");
        stop = true;
        return;
    }
}
