#include "sim.h"
#include <pthread.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/time.h>
#include <algorithm>
#include <signal.h>

extern "C" {
void AnnotateIgnoreReadsBegin(const char *, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char *, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char *, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char *, int) __attribute__((weak));
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
void __tsan_read_range(void *, unsigned long) __attribute__((weak));
void __tsan_write_range(void *, unsigned long) __attribute__((weak));
void __sanitizer_print_stack_trace() __attribute__((weak));
}

namespace sim {

World *g;
int violations;
static FILE *gOut;

std::string u8(const ustr &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        uint32_t c = s[i];
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000)
            c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    }
    return r;
}
std::string esc(const std::string &s, size_t max) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size() && r.size() < max; i++) {
        unsigned char c = s[i];
        if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; }
    }
    if (r.size() >= max) r += "...";
    return r;
}
ustr lower(ustr s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

static FILE *out() { if (!gOut) { gOut = fdopen(dup(1), "w"); setvbuf(gOut, nullptr, _IOFBF, 1 << 16); } return gOut; }
void violation(const char *key, const char *fmt, ...) {
    char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; p++) if (*p == '\n') *p = ' ';
    fprintf(out(), "VIOL %s %s\n", key, b); fflush(out());
    violations++;
    if (violations > 40) finish(1);
}
void note(const char *fmt, ...) {
    char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    fprintf(out(), "%s\n", b); fflush(out());
}
void finish(int code) {
    if (g) {
        for (auto &kv : g->st.n) fprintf(out(), "STAT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
        fprintf(out(), "STAT sim.apis %llu\nSTAT sim.switches %llu\nSTAT sim.preempts %llu\n", (unsigned long long)g->st.apis,
                (unsigned long long)g->st.switches, (unsigned long long)g->st.preempts);
        fprintf(out(), "HASH %016llx\n", (unsigned long long)g->st.schedHash);
    }
    fprintf(out(), "DONE %d\n", code); fflush(out());
    _exit(code);
}

// ---- sanitizer glue -------------------------------------------------------------------------------------------
void annotateAcquire(void *p) { if (__tsan_acquire) __tsan_acquire(p); }
void annotateRelease(void *p) { if (__tsan_release) __tsan_release(p); }
static void ignBegin() { if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0); } }
static void ignEnd() { if (AnnotateIgnoreReadsBegin) { AnnotateIgnoreReadsEnd("", 0); AnnotateIgnoreWritesEnd("", 0); } }
Quiet::Quiet() { ignBegin(); }
Quiet::~Quiet() { ignEnd(); }
void userRead(const void *p, size_t n) {
    if (__tsan_read_range && n) { ignEnd(); __tsan_read_range(const_cast<void*>(p), n); ignBegin(); }
}
void userWrite(void *p, size_t n) {
    if (__tsan_write_range && n) { ignEnd(); __tsan_write_range(p, n); ignBegin(); }
}

// ---- scheduler ------------------------------------------------------------------------------------------------
Thread *cur() { return g->cur; }

static void futexWait(std::atomic<int> *f) {
    while (f->load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int*)f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f->store(0, std::memory_order_relaxed);
}
static void futexWake(std::atomic<int> *f) {
    f->store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void dumpThreads(std::string &s) {
    char b[200];
    for (auto t : g->threads) {
        if (t->finished || t->parked || t->proc->exited) continue;
        snprintf(b, sizeof b, "[%s/%s %s api=%s wait=%s] ", t->proc->name.c_str(), t->name.c_str(), t->blocked ? "blocked" : "runnable", t->api, t->where);
        s += b;
    }
}

static void runTimers() {
    while (!g->timers.empty() && g->timers.begin()->first <= g->nowUs) {
        auto f = g->timers.begin()->second; g->timers.erase(g->timers.begin());
        f();
    }
}
void after(uint64_t us, std::function<void()> f) { g->timers.emplace(g->nowUs + us, std::move(f)); }

static Thread *pickNext() {
    static std::vector<Thread*> c;
    for (;;) {
        runTimers();
        c.clear();
        uint64_t nextT = kForever;
        if (!g->timers.empty()) nextT = g->timers.begin()->first;
        for (auto t : g->threads) {
            if (t->finished || t->parked || t->proc->exited) continue;
            if (t->notBefore > g->nowUs) { nextT = std::min(nextT, t->notBefore); continue; }
            if (!t->blocked || t->deadline <= g->nowUs || t->ready()) c.push_back(t);
            else nextT = std::min(nextT, t->deadline);
        }
        if (!c.empty()) {
            Thread *t = c[c.size() == 1 ? 0 : g->schedRng.below((uint32_t)c.size())];
            if (t->blocked) { t->timedOut = !t->ready(); t->blocked = false; }
            return t;
        }
        if (nextT == kForever) {
            std::string s; dumpThreads(s);
            violation("deadlock", "no thread can ever run again: %s", s.c_str()); finish(1);
        }
        g->nowUs = std::max(nextT, g->nowUs);
        if (g->nowUs > g->cfg.vtimeLimitUs) {
            std::string s; dumpThreads(s);
            violation("hang", "virtual time limit of %llu s passed: %s", (unsigned long long)(g->cfg.vtimeLimitUs / 1000000), s.c_str()); finish(1);
        }
    }
}
static void switchTo(Thread *n) {
    Thread *me = g->cur;
    if (n == me) return;
    g->st.switches++;
    g->st.schedHash = (g->st.schedHash ^ (uint64_t)n->id * 131 ^ (uint64_t)me->id) * 1099511628211ull;
    for (const char *p = me->api; *p; p++) g->st.schedHash = (g->st.schedHash ^ (unsigned char)*p) * 1099511628211ull;
    g->cur = n;
    futexWake(&n->fut);
    futexWait(&me->fut);
}
static void switchAway() { switchTo(pickNext()); }

void yieldPoint() {
    Thread *t = g->cur;
    if (t->proc->exited) parkForever();
    if (t->noYield) return;
    if (g->cfg.pStall > 0 && g->schedRng.chance(g->cfg.pStall)) {
        t->notBefore = g->nowUs + (uint64_t)g->schedRng.range(1, g->cfg.stallMaxMs * 1000);
        g->st.preempts++;
        switchAway();
    } else if (g->schedRng.chance(g->cfg.pSwitch)) {
        g->st.preempts++;
        switchAway();
    } else runTimers();
    if (t->proc->exited) parkForever();
}
bool block(const char *what, std::function<bool()> ready, uint64_t deadlineUs) {
    Thread *t = g->cur;
    if (t->noYield) { if (ready()) return true; violation("harness", "block inside noYield (%s)", what); finish(2); }
    t->ready = std::move(ready); t->deadline = deadlineUs; t->timedOut = false; t->blocked = true; t->where = what;
    switchAway();
    t->where = "";
    if (t->proc->exited) parkForever();
    return !t->timedOut;
}
void parkForever() {
    Thread *t = g->cur;
    t->parked = true;
    Thread *n = pickNext();
    g->st.switches++;
    g->cur = n;
    futexWake(&n->fut);
    for (;;) pause();
}
void sleepMs(int ms) { ApiScope s("sim.sleep"); block("sleep", [] { return false; }, msFromNow(ms)); }
bool waitFor(std::function<bool()> p, int ms) {
    ApiScope s("sim.waitFor");
    if (p()) return true;
    return block("waitFor", p, msFromNow(ms));
}

static void *threadMain(void *a) {
    Thread *t = (Thread*)a;
    futexWait(&t->fut);
    try { t->body(); }
    catch (const std::exception &e) { if (t->proc->mayThrow) { killProcess(t->proc, 3, "terminate"); parkForever(); } violation("uncaught-exception", "thread %s/%s: %s", t->proc->name.c_str(), t->name.c_str(), e.what()); finish(1); }
    catch (...) { if (t->proc->mayThrow) { killProcess(t->proc, 3, "terminate"); parkForever(); } violation("uncaught-exception", "thread %s/%s", t->proc->name.c_str(), t->name.c_str()); finish(1); }
    t->finished = true;
    annotateRelease(t);
    Thread *n = pickNext();
    g->cur = n;
    futexWake(&n->fut);
    return nullptr;
}
static int gThreadId;
Thread *spawnThread(Process *p, const std::string &name, std::function<void()> f) {
    Thread *t = new Thread; t->id = ++gThreadId; t->proc = p; t->name = name; t->body = std::move(f);
    g->threads.push_back(t);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
    pthread_t pt;
    if (pthread_create(&pt, &at, threadMain, t) != 0) { violation("harness", "pthread_create failed"); finish(2); }
    t->pt = (unsigned long)pt;
    return t;
}
void joinThread(Thread *t) {
    ApiScope s("sim.join");
    if (!t->finished) block("join", [t] { return t->finished; }, kForever);
    annotateAcquire(t);
}

ApiScope::ApiScope(const char *name) : n(name) {
    Thread *t = g->cur;
    if (t->proc->exited) parkForever();
    if (t->depth++ == 0) {
        t->api = name;
        g->st.apis++; t->proc->apiCalls++;
        g->nowUs += 1 + (g->st.apis & 1);
        if (g->nowUs > g->cfg.vtimeLimitUs) { std::string s; dumpThreads(s); violation("hang", "virtual time limit (busy): %s", s.c_str()); finish(1); }
        if (g->onApi) g->onApi(name);
        yieldPoint();
        ignBegin();
    }
}
ApiScope::~ApiScope() { Thread *t = g->cur; if (--t->depth == 0) ignEnd(); }

void setErr(DWORD e) { g->cur->lastError = e; }
DWORD getErr() { return g->cur->lastError; }
bool fault(const char *api) {
    Process *p = g->cur->proc;
    if (!p->faultArmed) return false;
    long k = p->fallible++;
    if ((k >= p->failAt && k < p->failAt + p->failLen && p->failAt >= 0) || (!p->failName.empty() && p->failName == api)) {
        p->faultFired = true; if (p->faultApi.empty()) p->faultApi = api;
        setErr(p->failError ? p->failError : ERROR_NO_SYSTEM_RESOURCES);
        return true;
    }
    return false;
}

Process *createProcess(const std::string &name, Process *parent) {
    Process *p = new Process; p->name = name; p->pid = g->nextPid; g->nextPid += 4;
    p->obj = std::make_shared<ProcessObj>(p);
    if (parent) { p->parentPid = parent->pid; p->env = parent->env; p->user = parent->user; p->owner = parent->owner; p->desktop = parent->desktop; p->winsta = parent->winsta;
                  p->ignoreCtrlC = parent->ignoreCtrlC; p->cwd = parent->cwd; }
    g->procs.push_back(p);
    return p;
}

static void onCpuLimit(int) {
    static const char m[] = "\nCPULIMIT\n"; (void)!write(1, m, sizeof m - 1);
    _exit(5);
}
void initWorld(uint64_t seed, const Config &c) {
    g = new World; g->cfg = c; g->seed = seed; g->rng = Rng(seed); g->schedRng = Rng(seed * 7919 + 13);
    Process *p = createProcess("client", nullptr);
    p->exe = u"C:\\client\\client.exe"; p->cmdline = u"client.exe"; p->cwd = u"C:\\client";
    g->client = p;
    Thread *t = new Thread; t->id = ++gThreadId; t->proc = p; t->name = "main"; g->threads.push_back(t);
    g->cur = t;
    signal(SIGPROF, onCpuLimit);
}

std::string Process::ledger() {
    std::string s; char b[300];
    for (auto &kv : handles) { snprintf(b, sizeof b, "handle %#lx type %d from %s; ", (unsigned long)kv.first, (int)kv.second.obj->type, kv.second.origin); s += b; }
    for (auto &kv : locals) { snprintf(b, sizeof b, "LocalAlloc %zu; ", kv.second); s += b; }
    if (!sids.empty()) { snprintf(b, sizeof b, "%zu SIDs; ", sids.size()); s += b; }
    for (auto &kv : modules) if (kv.second) { snprintf(b, sizeof b, "module %s x%d; ", kv.first.c_str(), kv.second); s += b; }
    if (crypt) { snprintf(b, sizeof b, "%d crypt contexts; ", crypt); s += b; }
    size_t hb = 0; for (auto &kv : heap) hb += kv.second;
    if (!heap.empty()) { snprintf(b, sizeof b, "%zu heap blocks (%zu bytes); ", heap.size(), hb); s += b; }
    if (!critsecs.empty()) { snprintf(b, sizeof b, "%zu critical sections; ", critsecs.size()); s += b; }
    return s;
}
std::map<std::string, long> Process::ledgerCounts() {
    std::map<std::string, long> m;
    long own = 0; for (auto &kv : handles) if (strcmp(kv.second.origin, "thread desktop") && strcmp(kv.second.origin, "process winsta")) own++;   // those two belong to the system
    m["handles"] = own; m["localalloc"] = locals.size(); m["sids"] = sids.size(); m["crypt"] = crypt;
    m["heap"] = heap.size(); m["critsec"] = critsecs.size();
    long mods = 0; for (auto &kv : modules) mods += kv.second; m["modules"] = mods;
    return m;
}

} // namespace sim

using namespace sim;
extern "C" {
void *sim_mod_alloc(size_t n) {
    Process *p = g ? g->cur->proc : nullptr;
    if (p && p->allocFailAt >= 0 && p->allocCount++ == p->allocFailAt) { p->allocFired = true; return nullptr; }
    if (n > (1u << 28)) return nullptr;        // more memory than the machine has
    void *r = malloc(n ? n : 1);
    if (p && r) { p->heap[r] = n; p->heapNow += n; p->heapPeak = std::max(p->heapPeak, p->heapNow); }
    return r;
}
void sim_mod_free(void *q) {
    if (!q) return;
    if (g) { auto &h = g->cur->proc->heap; auto it = h.find(q); if (it != h.end()) { g->cur->proc->heapNow -= it->second; h.erase(it); } }
    free(q);
}
// Function-local statics: a thread that finds initialisation in progress must wait inside the simulated scheduler.
static std::map<void*, Thread*> gGuards;
static std::map<void*, std::pair<Thread*, int>> gMutexes;     // std::mutex / std::recursive_mutex in the code under test
int sim_mutex_lock(void *m, int kind) {
    ApiScope s("mutex.lock");
    auto &e = gMutexes[m];
    if (e.first == g->cur && kind == 1) { e.second++; return 0; }
    if (e.first == g->cur) { violation("deadlock", "a thread locks a mutex that it already holds"); finish(1); }
    if (e.first) block("mutex", [m] { return !gMutexes[m].first || gMutexes[m].first->proc->exited; }, kForever);
    gMutexes[m] = {g->cur, 1};
    annotateAcquire(m);
    return 0;
}
int sim_mutex_trylock(void *m, int kind) {
    ApiScope s("mutex.trylock");
    auto &e = gMutexes[m];
    if (e.first == g->cur && kind == 1) { e.second++; return 0; }
    if (e.first) return 16;
    e = {g->cur, 1}; annotateAcquire(m);
    return 0;
}
int sim_mutex_unlock(void *m) {
    ApiScope s("mutex.unlock");
    auto &e = gMutexes[m];
    if (e.first != g->cur) { violation("sync", "a thread unlocks a mutex that it does not hold"); return 1; }
    if (--e.second == 0) { annotateRelease(m); e.first = nullptr; }
    return 0;
}
int sim_guard_acquire(void *gp) {
    if (*(volatile char*)gp) { annotateAcquire(gp); return 0; }
    ApiScope s("static-init");
    while (gGuards.count(gp)) {
        if (gGuards[gp] == g->cur) { violation("recursive-static-init", "recursive initialisation of a function-local static"); finish(1); }
        block("static-init", [gp] { return !gGuards.count(gp); }, kForever);
    }
    if (*(volatile char*)gp) { annotateAcquire(gp); return 0; }
    gGuards[gp] = g->cur;
    return 1;
}
void sim_guard_release(void *gp) { annotateRelease(gp); *(volatile char*)gp = 1; gGuards.erase(gp); }
void sim_guard_abort(void *gp) { gGuards.erase(gp); }
void sim_exit(int code) {
    Process *p = g->cur->proc;
    if (p == g->client) { violation("client-exit", "code under test called exit(%d) in the client process", code); finish(1); }
    killProcess(p, (DWORD)code, "exit");
    parkForever();
}
void sim_abort() {
    Process *p = g->cur->proc;
    if (p == g->client) {
        if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
        violation("client-abort", "code under test aborted the client process"); finish(1);
    }
    g->st.n["agent.abort"]++;
    killProcess(p, 3, "abort");
    parkForever();
}
}
