// The simulated world: clock, event queue, serial buses, driver ports, firmware nodes, and the oracles.
#pragma once
#include "base.hpp"
#include "plan.hpp"

#define P(n) (1u << (n))

enum EvKind { EV_ITEM, EV_POLL, EV_TICK, EV_BSTART, EV_BEND, EV_T15, EV_T35, EV_TXDONE, EV_WIREEND, EV_STUBTX, EV_BOOT, EV_CTRL, EV_HWRTO, EV_HWTIM, EV_HWSHIFT, EV_HWIRQ, EV_HWCHECK };

struct Ev
{
    i64 t;
    u64 seq;
    int kind, a;
    i64 b;
    u64 g;
    bool operator<(const Ev &o) const { return t != o.t ? t > o.t : seq > o.seq; } // min-heap
};

struct Frame
{
    Bytes b;
    bool gap = false, lost = false, done = false, mixed = false, altered = false, merge = false;
    i64 tFirst = 0, tLast = 0, t15 = -1, t35 = -1;
    i64 tick15 = 0;
    size_t len15 = 0;
    u64 pollInProg = 0;
    i64 pollEndTick = -1;
    int origin = -1;
    u64 pollSeq15 = 0; // poll sequence number when T1.5 first fired, 0 if a poll was in progress
    bool noPollIn = false; // no poll between the first T1.5 and T3.5
    u64 polls15 = 0, polls35 = 0; // complete polls of this role when the timer fired
    u64 pollsSettled = 0;         // complete polls between the port's last activity and the first byte
    bool afterOwnTx = false, afterNoise = false, afterForeign = false;
    u64 idx = 0;
    bool valid() const { return !gap && crcOk(b); } // 'lost' bytes were never heard: the receiver cannot know about them
};

struct El
{
    int pos = -1;
    u8 lit = 0, x = 0;
    u32 mask = 0;
    i64 gap = 0;
    bool own = false; // shifted out by the transmitter itself (as opposed to noise around the frame)
};

struct Tx
{
    int id = 0, port = -1, bus = 0;
    Bytes orig;
    std::vector<El> els;
    size_t next = 0;
    bool dead = false, altered = false, coll = false, faulted = false;
    int reqId = -1, inReplyTo = -1, copies = 1;
    int mnode = -1;
    i64 t0 = 0;
    u8 curVal = 0;
    std::vector<std::pair<int, u64>> hear; // ports receiving the current byte (and their reset generation)
};

struct Hw // a port whose driver is real code on emulated hardware
{
    u64 gRto = 0, gTim = 0, gTx = 0, gDl = 0, gRdr = 0;
    int pendTx = -1, curTx = -1; // accepted by send() but not yet on the wire; on the wire
    size_t pos = 0;              // bytes given to the shift register
    i64 endOwn = 0;
    bool enabling = false, sending = false, initing = false, wrongLine = false, inIrq = false, storm = false, irqEv = false, grace = false, ferrWant = false, ferrTol = false, ferrMay = false, noRoom = false, t15Owed = false;
    i64 mainBudget = 0, enableAt = 0, stormStart = -1, doneAt = -1000000000000ll, lastEnd = -1000000000000ll;
    bool t15New = false; // a byte was stored since the last T1.5
    // the byte in the receive data register
    bool rdrValid = false, rdrAlt = false, rdrEn = false, rdrMay = false;
    int rdrVal = 0, rdrTx = -1;
};

struct Port
{
    bool stm = false;
    Hw h;
    int id = 0, node = 0, role = 0, bus = 0;
    bool stub = false;
    int sid = 0;
    bool inited = false, en = false;
    int st = 0; // 0 idle, 1 receiving, 2 T1.5 expired
    u64 tg = 0;
    bool txActive = false, wireTx = false, doneFired = false;
    u64 txg = 0;
    int tx = -1;
    int busy = 0; // bytes currently being received
    u64 rg = 0;   // reset generation
    u64 startPolls = 0;
    Frame cur;
    bool open = false, openAtSend = false;
    i64 lastStart = 0, lastLost = -1000000000000ll;
    u64 frames = 0;
    u64 pollsAtActivity = 0;
    bool lastWasOwnTx = false, noiseSince = false, foreignSince = false;
    bool everActive = false;
    u64 t35n = 0; // 3.5 character expiries
};

struct Bus
{
    int baud = 115200;
    i64 ch = 0, t15 = 0, t35 = 0;
    std::vector<int> ports;
    std::vector<int> cur; // txs with a byte on the wire
    i64 lastByteEnd = 0, lastTxDone = 0, planned = 0; // planned: latest byte start that has been scheduled
    int nslaves = 0;
};

struct Req
{
    int id = 0, fc = 0, adr = 0, qty = 0, sid = 0, val = 0;
    std::vector<u16> data;
    Bytes adu;
    i64 tAcc = 0;
    bool inCb = false, healthyProbe = false;
    int attempts = 0;
    int qtyField() const { return be16(&adu[4]); }
};

struct Attempt
{
    bool active = false;
    int reqId = -1, tx = -1;
    i64 tSend = 0, tEnable = -1, tDone = -1;
    i64 tickDone = 0, noticeTick = -1;
    u64 noticePolls = 0;
    u64 latePolls = 0;
    bool dirty = false;
    bool cbPoll = false;
    bool deaf = false; // the addressed slave has replied while reception was not switched on
    bool slowTold = false;
    std::vector<Frame> frames;
    Bytes chain; // bytes of consecutive frames the main loop may not have told apart
};

struct Outcome
{
    int reqId = -1;
    int kind = 0; // 1 data/confirm 2 exception 3 timeout 4 commerr
    int attempts = 0;
};

struct MasterM
{
    u64 ghost = 0; // poll in which the application has initialised the master again from inside a callback
    std::deque<Req> pend;
    Attempt at;
    int prevKind = 0;         // how the previous attempt ended
    u64 t35AtSend = 0;
    std::vector<u8> got;
    int nGot = 0;
    u64 frameMask = 0;
    int outKind = 0;          // outcome reported for the head, not yet popped
    bool outSingle = false;
    i64 tick = 0;
    u64 pollSeq = 0, pollsDone = 0;
    bool inPoll = false;
    i64 pollStart = 0;
    i64 pollStartTick = 0;
    u64 progPoll = 0;
    i64 progTick = 0;
    int cbCount = 0;
    int inits = 0;
    bool passive = true, wasPassive = false; // not initialised, or in an unsupported mode; has been
    u32 ini() const { return (inits > 1 ? P(19) : 0) | (wasPassive ? P(26) : 0); }
    Bytes lastAdu;            // of the latest transmission
    std::vector<Outcome> outs;
    bool everDamaged = false;
};

struct ReqInfo // survives the request's outcome
{
    int attempts = 0, copies = 0, services = 0;
    bool taint = false;
    int sid = 0, node = 0;
};

struct Cand
{
    Frame f;
    bool must = false, fits = true;
};

struct VarTab
{
    int n = 0, size = 1;
    u8 *mem = nullptr;        // n slots of 8 bytes
    std::vector<u64> mir;     // what the variables (with the bytes after them up to the next) should hold
    std::vector<u8> reg;      // registered?
    std::vector<int> live;    // addresses that have a variable, in use since the start or named by the plan (all, unless the table is huge)
    bool near(int a) const // huge tables: around both ends and the middle of the address space
    {
        int w = 130;
        return n <= 4000 || a < w || a >= n - (size == 1 ? 2000 : w) || (a >= 32768 - w && a < 32768 + w);
    }
    void touch(int a);
    std::vector<u8> moved; // the application has registered its second variable for this address (4 bytes further on)
    int nMoved = 0;
    u8 *at(int a) const { return mem + a * 8 + (nMoved && moved[a] ? 4 : 0); }
    u64 raw(int a) const; // the slot as it would be if the variable were at its beginning
    void move(int a);     // the application lets another variable take over
    bool same(int from, int to) const; // all of these addresses hold what they should
    std::map<int, std::vector<std::pair<i64, u16>>> hist;
};

struct SlaveM
{
    int sid = 0;
    std::deque<Cand> cands;
    u64 pollsDone = 0, pollSeq = 0;
    bool inPoll = false;
    struct Mid { int tab, adr; u16 old; };
    std::vector<Mid> midCall; // values that application interrupts have replaced during this poll
    int sentThisCall = 0;
    int servedOk = 0;
    u64 answered = 0;
    int inits = 0;
    bool passive = true, wasPassive = false;
    u32 ini() const { return (inits > 1 ? P(19) : 0) | (wasPassive ? P(26) : 0); }
    Bytes lastReq, lastReply;
    bool chainAlone = false;
    Bytes chain; // bytes of consecutive frames the main loop may not have told apart
};

struct Node
{
    int id = 0;
    NodeCfg c;
    Image *img[2] = {nullptr, nullptr};
    int port[2] = {-1, -1};
    bool dead = false, inMain = false, stop = false;
    bool crash = false, up = false;
    jmp_buf jb;
    int depthAtMain = 0;
    u64 acc = 0, callAcc = 0;
    // the last few different addresses accessed, and how many accesses in a row were to them
    void *spinAdr[4] = {};
    u32 spinNext = 0, spinRun = 0, spinMax = 0;
    void spinning(void *adr)
    {
        if (adr == spinAdr[0] || adr == spinAdr[1] || adr == spinAdr[2] || adr == spinAdr[3])
            spinRun++;
        else
        {
            spinAdr[spinNext++ & 3] = adr;
            if (spinRun > spinMax)
                spinMax = spinRun;
            spinRun = 0;
        }
    }
    int varAt(const void *adr) const;
    // variables written by interrupts of this node so far
    void *racyAdr[32] = {};
    u32 racyNum = 0;
    u64 isrN[5] = {}; // interrupts by kind
    void racyAdd(void *a)
    {
        if (!racy(a) && racyNum < 32)
            racyAdr[racyNum++] = a;
    }
    bool racy(void *a) const
    {
        for (u32 i = 0; i < racyNum; i++)
            if (racyAdr[i] == a)
                return true;
        return false;
    }
    i64 pcount = 0, debt = 0, preAt = -1;
    u64 calls = 0;
    size_t preIdx = 0;
    std::vector<PreemptAt> pre;
    i64 period = 0, stallUntil = 0, tickStallUntil = 0;
    u64 pollIdx = 0, pollMark = 0;
    u64 pg = 0; // poll generation
    VarTab tab[4];
    bool varTouched = false;
    MasterM m;
    SlaveM s;
    std::vector<int> cbItems;
    i64 loopLeft = 0, loopIdx = 0, loopSid = 0, loopDepth = 1, loopExc = 0;
    u64 loopSeed = 0;
    std::map<int, u16> stubMem; // key table<<16|adr
    i64 qPeriod = 0;
    bool inCallback = false, preInit = false;
    int preemptsFired = 0;
};

struct Viol
{
    u32 tags = 0;
    std::string key, msg;
    i64 t = 0;
    int node = -1;
};

struct Stats
{
    u64 runs = 0, events = 0, polls = 0, accepted = 0, refused = 0, illegal = 0, sends = 0, slaveReplies = 0, excReplies = 0;
    u64 outData = 0, outExc = 0, outTimeout = 0, outComm = 0, retries = 0;
    u64 preempts = 0, preemptCallback = 0, preemptSend = 0, syncTx = 0, earlyTx = 0, lateTx = 0;
    u64 reinitM = 0, reinitS = 0, power = 0, crashInMain = 0, stalls = 0, tickStalls = 0, rawFrames = 0, mutations = 0, appIrqs = 0, regs = 0, moves = 0, reinitCb = 0, cbReqs = 0;
    u64 collisions = 0, framesSeen = 0, framesBad = 0, framesGap = 0, mustReplies = 0, mergedFrames = 0, cleanReplies = 0, lostBytes = 0;
    u64 isrInMain = 0, nested = 0, probes = 0, passiveM = 0, passiveS = 0, early = 0, multiDamage = 0, lateFrames = 0;
    u64 fault[F_NKINDS] = {0};
    i64 simNs = 0;
    void add(const Stats &o)
    {
        const u64 *s = (const u64 *)&o;
        u64 *d = (u64 *)this;
        for (size_t i = 0; i < sizeof(Stats) / 8; i++)
            d[i] += s[i];
    }
};

struct PortLog // for the C22 twin comparison
{
    std::vector<u64> h;
    std::vector<std::string> txt;
};

struct World
{
    const Plan pl;
    bool verbose;
    bool keepText = false;
    u32 target;   // tags that stop the run
    std::vector<Viol> viols;
    bool stop = false;
    i64 now = 0;
    u64 seq = 0;
    std::vector<Ev> q;
    std::vector<Bus> bus;
    std::vector<Node> node;
    std::vector<Port> port;
    std::deque<Tx> tx;
    int txCount = 0; // faultable transmissions so far
    std::vector<ReqInfo> reqInfo;
    bool sidsChange = false;
    u64 loopSeed = 0; // with requests without end: damage, decided per transmission
    i64 loopDmgM = 0, loopDmgS = 0;
    bool loopAny = false;
    u64 logHash = 0xcbf29ce484222325ull, distHash = 1;
    Stats st;
    bool quiet = false;
    bool preemptOff = false, drainedNow = false;
    int depth = 0;
    Node *cur = nullptr;
    bool split = false; // twin: one image per role
    std::vector<PreemptAt> fired;
    PortLog plog[16];
    int ctrlPhase = 0;
    i64 quietStart = 0, quietDeadline = 0, idleSince = 0, probeDeadline = 0;
    std::vector<std::pair<int, int>> probeList; // node, sid
    size_t probeIdx = 0;
    int probeReq = -1, probeNode = -1, probeAttempts = 0;
    u64 evCount = 0;
    u64 maxEvents = 3000000;
    bool slotUsed[MAXVAR][SLOTS];
    std::string traceText;

    World(const Plan &p, u32 targetTags, bool verb = false, bool splitImages = false);
    ~World();
    void run();

    // events
    void push(i64 t, int kind, int a, i64 b = 0, u64 g = 0);
    void step();
    void runUntil(i64 t);
    void dispatch(const Ev &e);

    void traceLine(const char *f, ...);
    void mixLog(u64 a, u64 b, u64 c) { logHash = h4(logHash, a, b, c); }
    void viol(u32 tags, int nodeId, const char *key, const char *f, ...);

    // nodes
    void boot(Node &n, bool first);
    void registerVars(Node &n);
    template <class F> void callMain(Node &n, F f);
    void pollNode(Node &n);
    void masterInit(Node &n, int mode = 0, bool inCb = false);
    void earlyCalls(Node &n);
    void slaveInit(Node &n, int sid, int mode = 0);
    void masterPoll(Node &n);
    void slavePoll(Node &n);
    void doItem(int idx);
    void loopReq(Node &n);
    bool doReq(Node &n, const std::vector<i64> &a, bool inCb);
    void powerOff(Node &n);
    void portReset(Port &p);
    void onAccess(u64 pcoff, void *adr = nullptr);
    i64 nestedUntil(Node &n, int what);
    void nestedRun(Node &n, i64 dur);
    void checkCrash(Node &n);

    // line
    void planByte(Tx &t, i64 gap);
    i64 startTx(Tx &t, int portId);
    void buildEls(Tx &t, bool faultable);
    void byteStart(Tx &t);
    void byteEnd(Tx &t);
    void portByteEnd(Port &p, int val, Tx &t, bool altered);
    void fireT15(Port &p);
    void fireT35(Port &p);
    int prepareSend(Node &n, int role, int len);
    void frameClose(Port &p);
    void closeAbandoned(Port &p);
    void abortTx(Port &p);
    void isr(Port &p, int what, int arg = 0);
    void txDone(Port &p);
    Bytes forge(const Bytes &o, i64 kind, i64 b, i64 c);

    // driver calls from an image
    void drvInit(Node &n, int role, unsigned baud, int parity);
    void drvSend(Node &n, int role, int len);
    void drvEnable(Node &n, int role);
    void drvDisable(Node &n, int role);
    // a real driver on emulated hardware (stmhw.cpp)
    Port *hwPort(Node &n);
    Image *hwImg(Port &p) { return node[p.node].img[p.role]; }
    void hwIrq(Port &p);
    void hwEvent(const Ev &e);
    void hwShift(Port &p, int byte);
    void hwByte(Port &p, int val, Tx &t, bool altered);
    void hwStored(Port &p, int byte);
    void hwCallback(Port &p, int what);
    void hwPreSend(Node &n, int role, int len);
    void hwPostSend(Port &p);
    void hwInitDone(Port &p);
    void hwOff(Port &p);
    void hwReset(Port &p);
    void stormWait(Node &n);
    bool storming(Node &n);
    bool masked(Node &n);
    i64 hwBound(Node &n, i64 dur);
    bool hwInDriver(Node &n);
    bool hwLong = false;
    // app callbacks
    void appRead(Node &n, int kind, int sid, int adr, int val);
    void appWritten(Node &n, int kind, int sid, int adr, int qty);
    void appExc(Node &n, int kind, int sid, int fc, int code, int adr, int qty);
    void appErr(Node &n, int kind, int sid, int fc, int adr, int qty, int err);
    void afterCallback(Node &n);

    // master oracle
    bool damaged(Node &n, const Attempt &a, const Req &h);
    int cleanReply(Node &n, Attempt &a, const Req &r);
    int matchKind(const Frame &f, const Req &r); // 0 none 1 data 2 exception
    void masterSend(Node &n, Tx &t);
    bool headForCallback(Node &n, const char *what, int sid);
    u32 ok6(Node &n, const Req &h) { return cleanReply(n, n.m.at, h) >= 0 ? P(6) : 0; }
    void finishHead(Node &n);
    void masterPollEnd(Node &n);
    void masterFrame(Node &n, Port &p, Frame &f);
    void progress(Node &n);
    void e2eRead(Node &n, Req &r, int kind, int adr, int val, const Frame *f);
    void e2eWrite(Node &n, Req &r, const Frame *f);
    Node *slaveOf(Node &master, int sid);
    bool e2eUsable(Node &n, Req &r, const Frame *f);
    const Frame *usedFrame(Node &n);

    // slave oracle
    std::vector<Cand> chainCands(Node &n);
    bool effectsFit(Node &n, int wt, int exc, const std::vector<std::pair<int, u16>> &wr);
    void slaveFrame(Node &n, Port &p, Frame &f);
    void slaveSend(Node &n, Tx &t);
    void slavePollEnd(Node &n);
    void acceptPartial(Node &n, const Cand &c);
    bool surelyDamaged(Node &n, Attempt &a, const Req &h);
    void chainFrames(Node &n, const Bytes &ch, const Frame &f);
    void checkVars(Node &n, bool force, const char *what);
    bool fitsMidCall(Node &n, const Bytes &q, const Bytes &reply);
    bool appInterrupt(Node &n, void *adr, u16 val);
    Bytes expectReply(Node &n, const Bytes &req, bool live, int *exc, std::vector<std::pair<int, u16>> *writes, int *wtab);
    void stubFrame(Node &n, Port &p, Frame &f);
    void setVar(Node &n, int tab, int adr, u16 v);
    u16 memVar(VarTab &v, int adr);
    u32 slaveCtx(Node &n, const Frame &f);

    // quiet phase
    void ctrl();
    bool mastersIdle();
    bool busesIdle(i64 forNs);
    i64 worstDrain();

    void plogAdd(Node &n, int role, const char *what, u64 a, u64 b);
};

// the arguments are only worked out when somebody reads the trace
#define trace(...)                          \
    do                                      \
    {                                       \
        if (verbose || keepText)            \
            traceLine(__VA_ARGS__);         \
    } while (0)

extern World *W;
extern bool g_hookOn;
extern bool g_racy;     // accesses to variables that interrupts write are wanted
extern Node *g_isrNode; // an interrupt handler of that node is running
Plan genPlan(const std::string &prop, u64 seed, int nvar, bool thorough);
Plan genEndless(const std::string &prop, u64 seed, int nvar, int kind);
