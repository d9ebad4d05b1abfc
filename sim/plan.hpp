// A plan is everything that decides one simulated execution.  It is generated from one seed, written to and
// read from a text file, and shrunk by the minimiser.
#pragma once
#include "base.hpp"

enum ItemKind
{
    IT_REQ = 1,   // node fc adr qty sid val dataseed      application request from the main loop
    IT_CBREQ,     // node nth fc adr qty sid val dataseed  request from inside the nth outcome callback
    IT_MUT,       // node table adr val                    slave application changes its variable
    IT_REG,       // node table adr on(2: another variable)                   (un)register a variable
    IT_RAW,       // bus delim(tenths) pos gap pos gap ...  raw bytes on a bus (data), gaps in tenths of a char
    IT_REINIT,    // node role sid(or -1) unsupported       application calls the init function again
    IT_PWR,       // node off(us)                          power cycle
    IT_STALL,     // node us                               main loop does not run
    IT_PERIOD,    // node us                               main loop period changes
    IT_TICKSTALL, // node us                               tick interrupt held off, ticks lost
    IT_LOOP,      // node count sid depth seed exc(%) damaged requests(%) replies(%) any-kind   from here on that many requests, as fast as they are served
    IT_RAWREPLY,  // bus: see generator; unused
};
static const char *const itemNames[] = {"?", "REQ", "CBREQ", "MUT", "REG", "RAW", "REINIT", "PWR", "STALL", "PERIOD", "TICKSTALL", "LOOP", "RAWREPLY"};

enum FaultKind
{
    F_XOR = 1,   // a=pos b=mask  (c = listener mask or 0 for everybody)
    F_DROP,      // a=pos
    F_DUP,       // a=pos
    F_GAP,       // a=pos b=tenths of a char of silence before that byte
    F_TRUNC,     // a=bytes that survive
    F_NOISEPRE,  // a=count b=gap after (tenths) c=seed
    F_NOISEPOST, // a=count b=gap before (tenths) c=seed
    F_LOSE,      //
    F_DELAY,     // a=us
    F_FORGE,     // a=kind b=param c=param: CRC-correct but altered
    F_DUPFRAME,  // b=gap tenths
    F_GARBLE,    // c=seed
    F_BYST,      // a=length b=gap after (tenths) c=seed: CRC-valid frame of another id before it
    F_NKINDS
};
static const char *const faultNames[] = {"?", "corrupt_byte", "drop_byte", "dup_byte", "gap", "truncate", "noise_before", "noise_after", "lose_frame", "delay_frame", "forge_frame", "dup_frame", "garble_frame", "foreign_frame"};

struct Item
{
    i64 t = 0;
    int kind = 0;
    std::vector<i64> a;
    Bytes data;
};
struct TxFault
{
    int tx = 0, kind = 0;
    i64 a = 0, b = 0, c = 0;
};
struct BusCfg
{
    int baud = 115200, parity = 0;
};
struct NodeCfg
{
    int variant = 0;
    int roles = 0; // 1 master, 2 slave, 4 stub slave
    int mbus = -1, sbus = -1;
    int sid = 0;
    i64 periodUs = 300;
    int jitter = 20;       // percent of the period
    i64 tickPhaseUs = 0;
    int tickPpm = 0;       // tick clock error
    int txDone[2] = {0, 0};   // 0 at end, 1 one char early, 2 late, 3 inside send()
    i64 txLateUs[2] = {0, 0};
    int cancelOnSend[2] = {1, 1};
    int t15rep = 0;
    int regMode = 0;       // 0 all registered, 1 ~95 %, 2 ~50 %
    u64 varSeed = 1;
    i64 stubDelayUs = 500;
    int order = 0;         // 1: slave polled before master
    int preBaud = 0, preParity = 0; // line settings of a first initialisation that the application corrects at once
    int early = 0;         // calls made before the first initialisation (bits 0-1: how many rounds; 4: an initialisation in an unsupported mode; 8: preBaud's in an unsupported mode)
};
struct PreemptAt
{
    int node;
    u64 acc;
    i64 dur; // APPIRQ + value: no time passes, but the variable accessed gets that value
};
static const i64 APPIRQ = 1ll << 50;
struct Plan
{
    std::string prop = "C01";
    u64 seed = 0;
    u64 sched = 0;
    std::vector<BusCfg> bus;
    std::vector<NodeCfg> node;
    std::vector<Item> items;
    std::vector<TxFault> faults;
    int preemptMode = 0; // 0 none, 1 seeded, 2 explicit list
    int preemptGap = 0;  // mean accesses between preemptions
    int preemptDur = 0;  // duration class mask
    int preemptStyle = 0; // 0 every so many accesses; 1 at an evenly chosen depth of a call; 2 slow CPU (preemptGap: ns per access); 3 = 2 and 1; 8 around accesses to variables that interrupts write; +4 long delays also inside an example driver's own functions
    int appIrq = 0;      // an application interrupt changes the variable the slave is about to read, once in so many such accesses (0: never)
    u64 palette = 0;     // three register values, one or two of them equal maybe; 0: any
    std::vector<PreemptAt> pre;
    i64 tQuiet = 0;
    int twin = 0;
    int asan = 0;
    int drain = 1; // run the quiet phase and the probes
    int cf = 0;    // counterfactual: 1 without re-initialisation/power cycles, 2 without preemption, 3 without callback requests, 4 without unsupported modes and early calls

    bool endless() const // runs for so long that other limits apply
    {
        for (auto &i : items)
            if (i.kind == IT_LOOP)
                return true;
        return false;
    }
    std::string text() const;
    bool parse(const std::string &text);
    bool loadFile(const std::string &path);
};
