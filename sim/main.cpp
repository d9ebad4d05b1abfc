// Seeded search over simulated executions, minimisation, replay, evidence.
#include "world.hpp"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <malloc.h>

extern u8 *g_edgeHit;
static double wall()
{
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec / 1e6;
}

struct Res
{
    bool hit = false, other = false, trunc = false;
    char key[64] = "", msg[900] = "", otherKey[64] = "";
    u64 hash = 0, dist = 0;
    u32 tags = 0;
    Stats st;
};

static bool g_any = false; // soak: every violation counts, whatever its property
static u32 tagOf(const std::string &prop) { return g_any || prop == "C24" ? ~0u : P(atoi(prop.c_str() + 1)); } // C24: the whole stack on real drivers

static Plan strip(const Plan &p)
{
    Plan q = p;
    auto drop = [&](int kind) { q.items.erase(std::remove_if(q.items.begin(), q.items.end(), [&](const Item &i) { return i.kind == kind; }), q.items.end()); };
    if (p.cf == 1)
    {
        drop(IT_REINIT);
        drop(IT_PWR);
        q.items.erase(std::remove_if(q.items.begin(), q.items.end(), [](const Item &i) { return i.kind == IT_CBREQ && i.a[2] == 99; }), q.items.end());
    }
    if (p.cf == 2)
    {
        q.preemptMode = 0;
        for (auto &n : q.node)
            for (int k = 0; k < 2; k++)
                if (n.txDone[k] == 3)
                    n.txDone[k] = 0;
    }
    if (p.cf == 3)
        drop(IT_CBREQ);
    if (p.cf == 4)
    {
        q.items.erase(std::remove_if(q.items.begin(), q.items.end(), [](const Item &i) { return (i.kind == IT_REINIT && i.a.size() > 3 && i.a[3]) || (i.kind == IT_CBREQ && i.a[2] == 99 && i.a[3]); }), q.items.end());
        for (auto &n : q.node)
            n.early = 0;
    }
    return q;
}

// one deterministic execution and its verdict for the property the plan was made for
static Res eval(const Plan &p, bool verbose = false, std::string *trace = nullptr, std::vector<PreemptAt> *fired = nullptr)
{
    Res r;
    u32 t = tagOf(p.prop);
    auto fill = [&](const Viol &v, const char *pre) {
        r.hit = true;
        snprintf(r.key, sizeof r.key, "%s%s", pre, v.key.c_str());
        snprintf(r.msg, sizeof r.msg, "%s", v.msg.c_str());
        r.tags = v.tags;
    };
    World w(p, t, verbose);
    w.keepText = trace != nullptr;
    w.run();
    r.hash = w.logHash;
    r.dist = w.distHash;
    r.st = w.st;
    r.trunc = w.evCount > w.maxEvents;
    if (trace)
        *trace = w.traceText;
    if (fired)
        *fired = w.fired;
    for (auto &v : w.viols)
        if (v.tags & t)
        {
            fill(v, "");
            return r;
        }
    if (!w.viols.empty())
    {
        r.other = true;
        snprintf(r.otherKey, sizeof r.otherKey, "%s", w.viols[0].key.c_str());
        if (verbose || !p.cf)
        {
        }
        if (p.cf)
        {
            World w2(strip(p), 0);
            w2.run();
            if (w2.viols.empty())
                fill(w.viols[0], p.cf == 1 ? "only-after-reinit:" : p.cf == 2 ? "only-with-interrupts-inside-calls:" : p.cf == 3 ? "only-with-requests-from-callbacks:" : "only-with-passive-nodes:");
        }
    }
    if (p.twin && !r.hit)
    {
        World w2(p, 0, false, true);
        w2.run();
        for (int i = 0; i < 16 && !r.hit; i++)
        {
            size_t n = std::min(w.plog[i].h.size(), w2.plog[i].h.size());
            size_t k = 0;
            while (k < n && w.plog[i].h[k] == w2.plog[i].h[k])
                k++;
            if (k == w.plog[i].h.size() && k == w2.plog[i].h.size())
                continue;
            if (w.viols.size() || w2.viols.size())
            {
                // one of the two runs was cut short: compare only what both recorded
                if (k == n)
                    continue;
            }
            r.hit = true;
            snprintf(r.key, sizeof r.key, "role-disturbed");
            snprintf(r.msg, sizeof r.msg, "node %d %s role behaves differently when master and slave share one program: [%s] against [%s] when separated", i / 2, i % 2 ? "slave" : "master",
                     k < w.plog[i].txt.size() ? w.plog[i].txt[k].c_str() : "nothing", k < w2.plog[i].txt.size() ? w2.plog[i].txt[k].c_str() : "nothing");
            if (trace)
                *trace += sfmt("### VIOLATION [C22] role-disturbed: %s\n", r.msg);
        }
    }
    return r;
}

// evaluate in a child process: survives crashes and endless loops of the code under test
static Res evalChild(const Plan &p, std::string *trace = nullptr, std::vector<PreemptAt> *fired = nullptr, int limitS = 12, std::string *errText = nullptr)
{
    int fd[2];
    if (pipe(fd))
        exit(3);
    fflush(stdout);
    fflush(stderr);
    char errName[] = "/tmp/simerrXXXXXX";
    int ef = mkstemp(errName);
    if (p.endless())
        limitS = 150;
    pid_t c = fork();
    if (c == 0)
    {
        close(fd[0]);
        dup2(ef, 2);
        std::string tr;
        std::vector<PreemptAt> fi;
        Res r = eval(p, false, trace ? &tr : nullptr, &fi);
        auto wr = [&](const void *b, size_t n) {
            const char *s = (const char *)b;
            while (n)
            {
                ssize_t k = write(fd[1], s, n);
                if (k <= 0)
                    _exit(4);
                s += k;
                n -= k;
            }
        };
        wr(&r, sizeof r);
        u64 n = fi.size();
        wr(&n, sizeof n);
        if (n)
            wr(fi.data(), n * sizeof(PreemptAt));
        n = tr.size();
        wr(&n, sizeof n);
        wr(tr.data(), n);
        _exit(0);
    }
    close(fd[1]);
    std::string in;
    double end = wall() + limitS;
    bool hang = false;
    char buf[65536];
    for (;;)
    {
        struct pollfd pf = {fd[0], POLLIN, 0};
        double left = end - wall();
        if (left <= 0)
        {
            hang = true;
            kill(c, SIGKILL);
            break;
        }
        int k = poll(&pf, 1, (int)(left * 1000) + 1);
        if (k <= 0)
            continue;
        ssize_t n = read(fd[0], buf, sizeof buf);
        if (n <= 0)
            break;
        in.append(buf, n);
    }
    close(fd[0]);
    int stt = 0;
    waitpid(c, &stt, 0);
    Res r;
    size_t pos = 0;
    auto rd = [&](void *b, size_t n) {
        if (pos + n > in.size())
            return false;
        memcpy(b, in.data() + pos, n);
        pos += n;
        return true;
    };
    u64 n = 0;
    if (!hang && WIFEXITED(stt) && WEXITSTATUS(stt) == 77)
    {
        fprintf(stderr, "internal error: exception in the simulator, plan seed 0x%llx\n", (unsigned long long)p.seed);
        exit(4);
    }
    bool ok = !hang && WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && rd(&r, sizeof r) && rd(&n, sizeof n);
    if (ok)
    {
        std::vector<PreemptAt> fi(n);
        if (n)
            rd(fi.data(), n * sizeof(PreemptAt));
        if (fired)
            *fired = fi;
        if (rd(&n, sizeof n) && trace)
            trace->assign(in.data() + pos, n);
    }
    else
    {
        r = Res();
        r.hit = true;
        std::string et;
        lseek(ef, 0, SEEK_SET);
        ssize_t k = read(ef, buf, sizeof buf - 1);
        if (k > 0)
            et.assign(buf, k);
        if (errText)
            *errText = et;
        std::string first;
        size_t at = et.find("ERROR: AddressSanitizer");
        if (at == std::string::npos)
            at = et.find("runtime error");
        if (at != std::string::npos)
        {
            size_t b = et.rfind('\n', at);
            b = b == std::string::npos ? 0 : b + 1;
            first = et.substr(b, std::min<size_t>(300, et.find('\n', at) - b));
            // where in the library
            size_t q = et.find("/src/", at);
            if (q != std::string::npos)
            {
                size_t s = et.rfind(' ', q);
                first += " at " + et.substr(s + 1, et.find_first_of(" \n)", q) - s - 1);
            }
        }
        if (hang)
        {
            snprintf(r.key, sizeof r.key, "does-not-return");
            snprintf(r.msg, sizeof r.msg, "the code under test does not return within %d s", limitS);
        }
        else
        {
            snprintf(r.key, sizeof r.key, "crash");
            snprintf(r.msg, sizeof r.msg, "the process running the library died (%s %d) %s", WIFSIGNALED(stt) ? "signal" : "exit", WIFSIGNALED(stt) ? WTERMSIG(stt) : WEXITSTATUS(stt), first.c_str());
        }
    }
    close(ef);
    unlink(errName);
    return r;
}

// ------------------------------------------------------------------------------------------------
// minimisation

struct Mini
{
    std::string key;
    double deadline;
    int tries = 0;
    bool test(const Plan &p)
    {
        if (wall() > deadline)
            return false;
        tries++;
        Res r = evalChild(p, nullptr, nullptr, 8);
        return r.hit && key == r.key;
    }
    template <class T> bool ddmin(Plan &p, std::vector<T> Plan::*v)
    {
        bool any = false;
        size_t n = (p.*v).size();
        size_t chunk = std::max<size_t>(1, n / 2);
        while (n && wall() < deadline)
        {
            bool red = false;
            for (size_t i = 0; i < (p.*v).size();)
            {
                Plan q = p;
                size_t e = std::min((q.*v).size(), i + chunk);
                (q.*v).erase((q.*v).begin() + i, (q.*v).begin() + e);
                if (test(q))
                {
                    p = q;
                    red = any = true;
                }
                else
                    i += chunk;
                if (wall() > deadline)
                    break;
            }
            if (chunk == 1 && !red)
                break;
            if (!red || chunk > 1)
                chunk = std::max<size_t>(1, chunk / 2);
            n = (p.*v).size();
        }
        return any;
    }
    void run(Plan &p)
    {
        auto attempt = [&](std::function<void(Plan &)> f) {
            Plan q = p;
            f(q);
            if (q.text() == p.text())
                return false;
            if (test(q))
            {
                p = q;
                return true;
            }
            return false;
        };
        // fewer items, faults, preemptions
        attempt([](Plan &q) { q.preemptMode = 0; q.pre.clear(); });
        attempt([](Plan &q) { q.faults.clear(); });
        attempt([](Plan &q) { q.drain = 0; });
        ddmin(p, &Plan::items);
        ddmin(p, &Plan::faults);
        if (p.preemptMode == 1)
        {
            std::vector<PreemptAt> fired;
            evalChild(p, nullptr, &fired, 8);
            attempt([&](Plan &q) { q.preemptMode = 2; q.pre = fired; });
        }
        if (p.preemptMode == 2)
        {
            ddmin(p, &Plan::pre);
            for (size_t i = 0; i < p.pre.size() && i < 6; i++)
            {
                attempt([&](Plan &q) { q.pre[i].dur /= 2; });
                attempt([&](Plan &q) { q.pre[i].dur = 0; });
            }
        }
        for (size_t i = 0; i < p.node.size(); i++)
        {
            attempt([&](Plan &q) { q.node[i].jitter = 0; });
            attempt([&](Plan &q) { q.node[i].tickPpm = 0; });
            attempt([&](Plan &q) { q.node[i].txDone[0] = q.node[i].txDone[1] = 0; });
            attempt([&](Plan &q) { q.node[i].regMode = 0; });
            attempt([&](Plan &q) { q.node[i].t15rep = 0; });
            attempt([&](Plan &q) { q.node[i].periodUs = 200; });
            attempt([&](Plan &q) { q.node[i].stubDelayUs = 1000; });
            attempt([&](Plan &q) { q.node[i].cancelOnSend[0] = q.node[i].cancelOnSend[1] = 1; });
        }
        ddmin(p, &Plan::items);
        ddmin(p, &Plan::faults);
        if (p.preemptMode == 2)
            ddmin(p, &Plan::pre);
        if (p.items.empty() || wall() > deadline)
            return;
        i64 last = 0;
        for (auto &i : p.items)
            last = std::max(last, i.t);
        for (i64 d : {1000000ll, 10000000ll, 100000000ll})
            if (attempt([&](Plan &q) { q.tQuiet = last + d; }))
                break;
        for (size_t i = 0; i < p.items.size() && i < 12; i++)
        {
            if (p.items[i].kind == IT_REQ)
                attempt([&](Plan &q) { q.items[i].a[3] = 1; });
        }
    }
};

// ------------------------------------------------------------------------------------------------

struct Shared
{
    volatile i64 cur[64];
    volatile double curStart[64];
    volatile i64 done[64], resume[64];
    volatile i64 minViol;
    Stats st[64];
    volatile u64 nontrivial[64], other[64], trunc[64];
    char otherKey[64][64];
    volatile i64 otherIdx[64];
};

static bool loadVariants(const std::string &dir)
{
    for (int v = 0; v < MAXVAR; v++)
    {
        std::string f0 = sfmt("%s/v%d_s0.so", dir.c_str(), v);
        struct stat sb;
        if (stat(f0.c_str(), &sb))
            break;
        g_loadingVariant = v;
        for (int s = 0; s < SLOTS; s++)
        {
            std::string f = sfmt("%s/v%d_s%d.so", dir.c_str(), v, s);
            g_img[v][s].variant = v;
            g_img[v][s].slot = s;
            if (!g_img[v][s].load(f))
                return false;
        }
        g_nvar = v + 1;
    }
    g_loadingVariant = -1;
    return g_nvar > 0;
}

static u64 runSeed(u64 seed, const std::string &prop, i64 i) { return h4(seed, atoi(prop.c_str() + 1), (u64)i, 0x5EED); }

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (c == '\n')
            o += "\\n";
        else if ((unsigned char)c < 32)
            o += ' ';
        else
            o += c;
    }
    return o + "\"";
}

static std::string planSummary(const Plan &p, const Res &r)
{
    int nf = (int)p.faults.size();
    std::string s = sfmt("seed 0x%llx:", (unsigned long long)p.seed);
    for (auto &n : p.node)
        s += sfmt(" [%s v%d id %d loop %lldus txdone %d/%d]", n.roles == 1 ? "master" : n.roles == 2 ? "slave" : n.roles == 3 ? "master+slave" : "stub slave", n.variant, n.sid, (long long)n.periodUs, n.txDone[0], n.txDone[1]);
    s += sfmt(" %d baud, %zu scheduled actions, %d line faults, preemption mode %d gap %d; observed: %llu sends, %llu retries, %llu replies, %llu data %llu exception %llu timeout %llu error outcomes, %llu preemptions, %.1f ms simulated",
              p.bus[0].baud, p.items.size(), nf, p.preemptMode, p.preemptGap, (unsigned long long)r.st.sends, (unsigned long long)r.st.retries,
              (unsigned long long)r.st.slaveReplies, (unsigned long long)r.st.outData, (unsigned long long)r.st.outExc, (unsigned long long)r.st.outTimeout,
              (unsigned long long)r.st.outComm, (unsigned long long)r.st.preempts, r.st.simNs / 1e6);
    return s;
}

static bool nontrivial(const Stats &s)
{
    return (s.sends + s.slaveReplies > 0) && (s.outData + s.outExc + s.outTimeout + s.outComm + s.slaveReplies > 0);
}

int main(int argc, char **argv)
{
    mallopt(M_MMAP_THRESHOLD, 64 << 20); // memory of a finished run is used again, not given back
    mallopt(M_TRIM_THRESHOLD, 512 << 20);
    std::string mode = argc > 1 ? argv[1] : "", prop = "C01", imgs, out, replays = ".", file;
    u64 seed = 1;
    double budget = 20;
    bool thorough = false;
    i64 one = -1, limit = 1ll << 60;
    int workers = 8, minS = 60;
    bool verbose = false;
    for (int i = 2; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = nx();
        else if (a == "--imgs") imgs = nx();
        else if (a == "--out") out = nx();
        else if (a == "--replays") replays = nx();
        else if (a == "--file") file = nx();
        else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--time") budget = atof(nx().c_str());
        else if (a == "--runs") limit = atoll(nx().c_str());
        else if (a == "--min") minS = atoi(nx().c_str());
        else if (a == "--index") one = atoll(nx().c_str());
        else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--thorough") thorough = true;
        else if (a == "--any") g_any = true;
        else if (a == "-v") verbose = true;
    }
    // same addresses in every process, so that even uses of uninitialised memory repeat (best effort)
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC") && personality(per | ADDR_NO_RANDOMIZE) != -1)
    {
        setenv("SIM_NOREEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    signal(SIGPIPE, SIG_IGN);
    // an exception in the simulator is never a verdict about the library
    std::set_terminate([]() { fprintf(stderr, "internal error: exception in the simulator\n"); _exit(77); });
    g_edgeHit = (u8 *)mmap(nullptr, MAXVAR * 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!loadVariants(imgs))
        return 3;

    // four runs (thorough: in 20000) have so many exchanges that counters of two bytes wrap
    auto endlessRun = [&](i64 i) { return prop != "C21" && prop != "C22" && prop != "C24" && (thorough ? i % 20000 >= 40 && i % 20000 < 44 : i >= 40 && i < 44); };
    auto planOf = [&](i64 i) { return endlessRun(i) ? genEndless(prop, runSeed(seed, prop, i), g_nvar, (int)(i & 3)) : genPlan(prop, runSeed(seed, prop, i), g_nvar, thorough); };
    if (mode == "one")
    {
        Plan p = planOf(one);
        printf("%s", p.text().c_str());
        if (p.endless())
        {
            double w0 = wall();
            Res r = eval(p);
            printf("hit %d key %s other %d %s trunc %d, %.1f s\n%s\n", r.hit, r.key, r.other, r.otherKey, r.trunc, wall() - w0, planSummary(p, r).c_str());
            return r.hit;
        }
        Res r = eval(p, true);
        printf("hit %d key %s other %d %s hash %llx\n%s\n%s\n", r.hit, r.key, r.other, r.otherKey, (unsigned long long)r.hash, r.msg, planSummary(p, r).c_str());
        return r.hit;
    }
    if (mode == "exec") // run a plan file in this very process (debugging)
    {
        Plan p;
        if (!p.loadFile(file))
            return 3;
        Res r = eval(p, true);
        printf("hit %d key %s hash %llx %s\n", r.hit, r.key, (unsigned long long)r.hash, r.msg);
        return r.hit;
    }
    if (mode == "replay")
    {
        Plan p;
        if (!p.loadFile(file))
        {
            fprintf(stderr, "cannot read %s\n", file.c_str());
            return 3;
        }
        std::string tr, et;
        Res r = evalChild(p, &tr, nullptr, 12, &et);
        printf("%s", tr.c_str());
        if (!et.empty())
            printf("%s\n", et.c_str());
        if (r.hit)
        {
            printf("key: %s\nhash: %016llx\n%s\n", r.key, (unsigned long long)r.hash, r.msg);
            printf("VIOLATION property=%s replay=%s\n", p.prop.c_str(), file.c_str());
            return 1;
        }
        printf("no violation of %s (hash %016llx)\n", p.prop.c_str(), (unsigned long long)r.hash);
        return 0;
    }
    if (mode != "run")
        return 3;

    double t0 = wall();
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const size_t BM = 1u << 23; // bytes: 2^26 bits
    u8 *bm = (u8 *)mmap(nullptr, BM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->minViol = INT64_MAX;
    for (int w = 0; w < 64; w++)
    {
        sh->cur[w] = -1;
        sh->otherIdx[w] = -1;
    }
    int irrepro = 0;
    std::vector<pid_t> pid(workers, 0);
    std::set<i64> skip;
    auto nextIdx = [&](int w) { return sh->resume[w]; };
    for (int w = 0; w < workers; w++)
        sh->resume[w] = w;
    auto spawn = [&](int w, i64 from) {
        fflush(stdout);
        pid_t c = fork();
        if (c)
            return c;
        if (!verbose)
        {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 2);
        }
        for (i64 i = from; i < limit; i += workers)
        {
            if (i >= sh->minViol || wall() - t0 > budget)
                break;
            if (skip.count(i))
                continue;
            sh->cur[w] = i;
            sh->curStart[w] = wall();
            Plan p = planOf(i);
            Res r = eval(p);
            sh->st[w].add(r.st);
            if (r.other)
            {
                sh->other[w]++;
                if (sh->otherIdx[w] < 0)
                {
                    strcpy(sh->otherKey[w], r.otherKey);
                    sh->otherIdx[w] = i;
                }
            }
            if (r.trunc)
                sh->trunc[w]++;
            if (nontrivial(r.st))
            {
                sh->nontrivial[w]++;
                u64 hsh = mix64(r.dist);
                __atomic_fetch_or(&bm[(hsh >> 3) & (BM - 1)], (u8)(1 << (hsh & 7)), __ATOMIC_RELAXED);
            }
            sh->done[w]++;
            sh->resume[w] = i + workers;
            if (r.hit)
            {
                i64 m = sh->minViol;
                while (i < m && !__atomic_compare_exchange_n((i64 *)&sh->minViol, &m, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
                    ;
                break;
            }
        }
        sh->cur[w] = -1;
        _exit(0);
    };
    // confirmed only if a fresh child process comes to the same verdict; anything else is noted and passed over
    Res found;
    for (;;)
    {
    for (int w = 0; w < workers; w++)
        pid[w] = spawn(w, nextIdx(w));
    int alive = workers;
    while (alive)
    {
        usleep(20000);
        for (int w = 0; w < workers; w++)
        {
            if (!pid[w])
                continue;
            int stt;
            if (sh->cur[w] >= 0 && wall() - sh->curStart[w] > (endlessRun(sh->cur[w]) ? 150 : 15))
                kill(pid[w], SIGKILL);
            if (waitpid(pid[w], &stt, WNOHANG) == pid[w])
            {
                pid[w] = 0;
                alive--;
                if (sh->cur[w] >= 0) // died in the middle of a run
                {
                    i64 i = sh->cur[w];
                    if (i < sh->minViol)
                        sh->minViol = i;
                }
            }
        }
    }
        if (sh->minViol == INT64_MAX)
            break;
        i64 idx = sh->minViol;
        Plan p = planOf(idx);
        for (int k = 0; k < 4 && !found.hit; k++)
            found = evalChild(p);
        if (found.hit)
            break;
        fprintf(stderr, "note: run %lld died or violated in the search but not when executed again; passed over\n", (long long)idx);
        irrepro++;
        skip.insert(idx);
        sh->minViol = INT64_MAX;
        if (skip.size() > 20)
            break;
    }
    Stats st;
    memset((void *)&st, 0, sizeof st);
    u64 evals = 0, nontriv = 0, other = 0, trunc = 0;
    for (int w = 0; w < workers; w++)
    {
        st.add(sh->st[w]);
        evals += sh->done[w];
        nontriv += sh->nontrivial[w];
        other += sh->other[w];
        trunc += sh->trunc[w];
    }
    double searchS = wall() - t0;
    u64 distinct = 0;
    for (size_t i = 0; i < BM; i++)
        distinct += __builtin_popcount(bm[i]);

    std::string samples, replayPath;
    auto sample = [&](i64 i) {
        Plan p = planOf(i);
        Res r = evalChild(p);
        if (!samples.empty())
            samples += ",\n   ";
        samples += jstr(planSummary(p, r));
    };
    for (i64 i = 0; i < 3 && i < (i64)evals; i++)
        sample(i);

    int rc = 0;
    std::string violMsg;
    if (found.hit)
    {
        i64 idx = sh->minViol;
        Plan p = planOf(idx);
        Res a = found;
        printf("violation in run %lld (seed 0x%llx): %s\n  %s\nminimising...\n", (long long)idx, (unsigned long long)p.seed, a.key, a.msg);
        fflush(stdout);
        Mini m;
        m.key = a.key;
        m.deadline = wall() + minS;
        m.run(p);
        std::string tr, et;
        Res f = evalChild(p, &tr, nullptr, 12, &et);
        if (!f.hit) // only if the code under test is itself nondeterministic: report the unminimised run
        {
            p = planOf(idx);
            f = found;
        }
        mkdir(replays.c_str(), 0755);
        replayPath = sfmt("%s/%s-%llx.plan", replays.c_str(), prop.c_str(), (unsigned long long)(p.seed & 0xFFFFFFFFFFull));
        FILE *fp = fopen(replayPath.c_str(), "w");
        if (!fp)
        {
            fprintf(stderr, "cannot write %s\n", replayPath.c_str());
            return 4;
        }
        fprintf(fp, "# property %s violated: %s\n# %s\n# found in run %lld of VERIF_SEED %llu; minimised in %d trial executions; execution hash %016llx\n", prop.c_str(), f.key, f.msg, (long long)idx, (unsigned long long)seed, m.tries, (unsigned long long)f.hash);
        fputs(p.text().c_str(), fp);
        fprintf(fp, "# --- trace of this execution\n");
        std::string ln;
        size_t pos = 0;
        int lines = 0;
        std::string all = tr + et;
        while (pos < all.size() && lines < 4000)
        {
            if (lines == 500 && all.size() - pos > 250000) // the end tells more
                pos = all.find('\n', all.size() - 250000) + 1;
            size_t e = all.find('\n', pos);
            if (e == std::string::npos)
                e = all.size();
            fprintf(fp, "# %s\n", all.substr(pos, e - pos).c_str());
            pos = e + 1;
            lines++;
        }
        fclose(fp);
        // the file alone must reproduce it
        Plan chk;
        chk.loadFile(replayPath);
        Res g = evalChild(chk);
        if (!g.hit || strcmp(g.key, f.key) || g.hash != f.hash)
            printf("note: the code under test does not behave the same way twice (%s, then %s)\n", f.key, g.hit ? g.key : "nothing");
        violMsg = f.msg;
        printf("%s: %s\n", f.key, f.msg);
        printf("minimised to %zu actions, %zu line faults, %zu preemptions\n", p.items.size(), p.faults.size(), p.pre.size());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayPath.c_str());
        rc = 1;
    }
    if (verbose)
        for (int w = 0; w < workers; w++)
            if (sh->otherIdx[w] >= 0)
                printf("note: run %lld violates another property: %s\n", (long long)sh->otherIdx[w], sh->otherKey[w]);

    u64 edges = 0, edgesAll = 0;
    for (int v = 0; v < g_nvar; v++)
        for (u32 e = 1; e <= g_edgeCount[v]; e++)
        {
            edgesAll++;
            edges += g_edgeHit[v * 65536 + e];
        }
    double total = wall() - t0;
    printf("%s: %llu runs, %llu distinct, %.1f s simulated in %.1f s wall, edges %llu/%llu, other-property hits %llu\n", prop.c_str(), (unsigned long long)evals, (unsigned long long)distinct, st.simNs / 1e9, total, (unsigned long long)edges, (unsigned long long)edgesAll, (unsigned long long)other);
    if (!out.empty())
    {
        FILE *fp = fopen(out.c_str(), "w");
        if (!fp)
            return 4;
        auto U = [](u64 x) { return (unsigned long long)x; };
        fprintf(fp, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"wall_s\": %.2f,\n \"violations\": %d,\n", jstr(prop).c_str(), thorough ? "thorough" : "quick", U(seed), total, rc);
        fprintf(fp, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", U(evals), U(distinct));
        fprintf(fp, "  \"rule\": \"One evaluation is one simulated execution generated from hash(VERIF_SEED, property, run index): topology, loop and interrupt timing, application requests and variable changes, line faults, preemptions. It is non-trivial if at least one frame was transmitted by real library code and at least one request outcome or slave reply was judged. Two executions are distinct if the hash over their sequence of interrupts (with whether they hit inside a library call), preempted code locations, transmissions, frames heard and their damage, faults applied and outcomes differs; counted in a 2^26-bit table, so collisions only lower the count.\",\n");
        fprintf(fp, "  \"samples\": [\n   %s\n  ],\n", samples.c_str());
        fprintf(fp, "  \"nontrivial_runs\": %llu,\n  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.3f,\n  \"simulated_events\": %llu,\n  \"truncated_runs\": %llu,\n  \"irreproducible_runs\": %d,\n", U(nontriv), evals / searchS * 3600, evals / searchS * 3600, st.simNs / 1e9, U(st.events), U(trunc), irrepro);
        fprintf(fp, "  \"library_edges_covered\": %llu,\n  \"library_edges_total\": %llu,\n  \"build_variants\": %d,\n", U(edges), U(edgesAll), g_nvar);
        fprintf(fp, "  \"faults_injected\": {");
        for (int k = 1; k < F_NKINDS; k++)
            fprintf(fp, "\"%s\": %llu, ", faultNames[k], U(st.fault[k]));
        fprintf(fp, "\"raw_line_traffic\": %llu, \"collisions\": %llu, \"lost_bytes\": %llu, \"main_loop_stall\": %llu, \"ticks_lost\": %llu, \"preemption_inside_library_call\": %llu, \"preemption_inside_send\": %llu, \"preemption_inside_callback\": %llu, \"interrupts_inside_library_call\": %llu, \"tx_done_inside_send\": %llu, \"tx_done_early\": %llu, \"tx_done_late\": %llu, \"reinit_master\": %llu, \"reinit_slave\": %llu, \"power_cycle\": %llu, \"power_cycle_inside_library_call\": %llu, \"init_in_unsupported_mode\": %llu, \"calls_before_init\": %llu, \"reinit_master_inside_callback\": %llu, \"application_interrupt_inside_slave_poll\": %llu},\n",
                U(st.rawFrames), U(st.collisions), U(st.lostBytes), U(st.stalls), U(st.tickStalls), U(st.preempts), U(st.preemptSend), U(st.preemptCallback), U(st.isrInMain), U(st.syncTx), U(st.earlyTx), U(st.lateTx), U(st.reinitM), U(st.reinitS), U(st.power), U(st.crashInMain), U(st.passiveM + st.passiveS), U(st.early), U(st.reinitCb), U(st.appIrqs));
        fprintf(fp, "  \"observed\": {\"requests_accepted\": %llu, \"requests_refused\": %llu, \"illegal_requests\": %llu, \"requests_from_callbacks\": %llu, \"master_transmissions\": %llu, \"retries\": %llu, \"outcomes_data\": %llu, \"outcomes_exception\": %llu, \"outcomes_timeout\": %llu, \"outcomes_communication_error\": %llu, \"slave_replies\": %llu, \"slave_exceptions\": %llu, \"replies_demanded\": %llu, \"frames_heard\": %llu, \"frames_damaged\": %llu, \"frames_with_gap\": %llu, \"frames_merged\": %llu, \"variable_changes_by_application\": %llu, \"registrations_changed\": %llu, \"variables_replaced\": %llu, \"probes\": %llu, \"polls\": %llu},\n",
                U(st.accepted), U(st.refused), U(st.illegal), U(st.cbReqs), U(st.sends), U(st.retries), U(st.outData), U(st.outExc), U(st.outTimeout), U(st.outComm), U(st.slaveReplies), U(st.excReplies), U(st.mustReplies), U(st.framesSeen), U(st.framesBad), U(st.framesGap), U(st.mergedFrames), U(st.mutations), U(st.regs), U(st.moves), U(st.probes), U(st.polls));
        const char *src = "every .c file under /repo/src (master, slave, PDU, RTU, CRC, queue, slave data), compiled from the current working tree";
        if (g_stmAny)
            fprintf(fp, "  \"real_code\": \"%s, and the two STM32 example drivers (modbus_driver_interface.c) unchanged\",\n  \"stubs\": \"USART, timer, interrupt controller (register level emulation), serial line, tick source, application callbacks and main loop; in some runs one side has the simulated driver or is a stub device\",\n", src);
        else
            fprintf(fp, "  \"real_code\": \"%s in %d configurations\",\n  \"stubs\": \"RTU driver (UART, character timers, tick), serial line, application callbacks and main loop; in some runs the slave is a stub device\",\n", src, g_nvar);
        fprintf(fp, "  \"runs_with_violations_of_other_properties\": %llu\n },\n", U(other));
        fprintf(fp, " \"assumptions\": [\"the (simulated) driver keeps its contract: it stores at most 255 bytes per frame, raises T1.5 before T3.5, half duplex without echo\", \"interrupts do not interrupt each other and run to completion\", \"a byte is one memory access: preemption happens between memory accesses as compiled, not inside one\"%s]\n}\n", violMsg.empty() ? "" : (", " + jstr("violation: " + violMsg)).c_str());
        fclose(fp);
    }
    return rc;
}
