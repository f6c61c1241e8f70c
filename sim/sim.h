// FakeOS: a small simulated Windows kernel, good enough to run winpty's own sources natively.
#pragma once
#ifndef NOMINMAX
#define NOMINMAX
#endif
#include <windows.h>
#include <functional>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include <atomic>

namespace sim {

typedef std::u16string ustr;
inline ustr W(const wchar_t *s) { ustr r; if (s) while (*s) r.push_back((char16_t)*s++); return r; }
inline ustr A(const char *s) { ustr r; while (*s) r.push_back((unsigned char)*s++); return r; }
inline const wchar_t *P(const ustr &s) { return reinterpret_cast<const wchar_t*>(s.c_str()); }
std::string u8(const ustr &s);                 // UTF-16 -> UTF-8 (lossy for lone surrogates, for messages)
std::string esc(const std::string &s, size_t max = 400);
ustr lower(ustr s);

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0x1234567; next(); next(); }
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
};

struct Process; struct Thread; struct Console; struct ScreenBuffer; struct Desktop; struct WinSta;

enum class OT { Event, Mutex, Pipe, Process, Thread, Token, ConIn, ConBuf, Desktop, WinSta, Nul };

struct Object : std::enable_shared_from_this<Object> {
    OT type; int handles = 0;
    explicit Object(OT t) : type(t) {}
    virtual ~Object() {}
    virtual bool signaled() { return true; }
    virtual void consume() {}
    virtual void lastClose() {}
};
typedef std::shared_ptr<Object> ObjP;

struct Event : Object {
    bool manual, state;
    Event(bool m, bool s) : Object(OT::Event), manual(m), state(s) {}
    bool signaled() override { return state; }
    void consume() override { if (!manual) state = false; }
};

struct HandleEntry { ObjP obj; DWORD access = 0; bool inherit = false; const char *origin = ""; };

struct CreateProcessRecord {
    int parentPid = 0, pid = 0; BOOL ok = FALSE; DWORD error = 0;
    bool hasApp = false, hasCmd = false, hasEnv = false, hasCwd = false, hasDesktop = false;
    ustr app, cmd, env, cwd, desktop; DWORD flags = 0; BOOL inherit = FALSE; DWORD siFlags = 0; WORD show = 0;
    DWORD cb = 0; bool stdHandles = false; ObjP in, out, errh;
};

typedef std::function<int(Process &)> Program;

struct ProcessObj;
struct Process {
    int pid = 0, parentPid = 0;
    ustr exe, cmdline, cwd; std::string name;
    bool exited = false; DWORD exitCode = 259; const char *exitWhy = "";
    std::map<uintptr_t, HandleEntry> handles;
    std::shared_ptr<Console> console;
    HANDLE std_[3] = {};
    std::map<std::string, std::string> env;
    std::shared_ptr<ProcessObj> obj;
    std::shared_ptr<Desktop> desktop; std::shared_ptr<WinSta> winsta; HANDLE winstaHandle = nullptr;
    std::map<void*, size_t> locals;            // LocalAlloc
    std::set<void*> sids;                      // AllocateAndInitializeSid
    std::map<std::string, int> modules;        // LoadLibrary references
    int crypt = 0;
    size_t heapNow = 0, heapPeak = 0;
    std::map<void*, size_t> heap;              // C++ heap of the module under test (module-tagged)
    std::set<void*> critsecs;
    std::vector<void*> ctrlHandlers; bool ignoreCtrlC = false, suspended = false;
    int ctrlCHandled = 0;
    // fault injection
    long fallible = 0; long failAt = -1; long failLen = 1; DWORD failError = 0; bool faultArmed = false; bool faultFired = false;
    std::string faultApi, failName;            // failName: fail this API whatever its number
    long allocCount = 0, allocFailAt = -1; bool allocFired = false;
    long apiCalls = 0;
    void *module = nullptr;
    Program prog;
    uintptr_t nextHandle = 4;
    std::vector<uintptr_t> freeHandles;
    bool strictHandles = true; bool mayThrow = false;   // an exception nobody catches ends the process (injected faults)
    std::string owner = "S-1-5-21-1000";       // user
    int user = 1000;
    HANDLE add(ObjP o, DWORD access, const char *origin, bool inherit = false);
    ObjP get(HANDLE h);
    bool close(HANDLE h);
    std::string ledger();                      // textual snapshot of every live resource (handles, allocs ...)
    std::map<std::string, long> ledgerCounts();
};
struct ProcessObj : Object {
    Process *p; explicit ProcessObj(Process *pp) : Object(OT::Process), p(pp) {}
    bool signaled() override { return p->exited; }
};
struct ThreadObj : Object {
    Process *p; explicit ThreadObj(Process *pp) : Object(OT::Thread), p(pp) {}
    bool signaled() override { return p->exited; }
};

struct Thread {
    int id = 0; Process *proc = nullptr; std::string name;
    unsigned long pt = 0;
    std::atomic<int> fut{0};
    bool finished = false; bool blocked = false; std::function<bool()> ready; uint64_t deadline = 0; bool timedOut = false;
    uint64_t notBefore = 0;                    // stalled until
    int noYield = 0; int depth = 0;
    DWORD lastError = 0; const char *api = "";
    std::function<void()> body;
    std::weak_ptr<Desktop> desktop;
    bool parked = false;
    const char *where = "";
};

struct Config {                                // per-scenario knobs of the simulated machine
    double pSwitch = 0.15;                     // preemption probability at every API entry
    double pStall = 0.0; int stallMaxMs = 40;  // probability that a thread is descheduled for a while
    double pPendingIo = 0.5; int ioLatencyUs = 300;
    double pFragment = 0.2;
    uint32_t tickBase = 100000; uint32_t tickGran = 1;
    int osMajor = 10, osMinor = 0, osBuild = 10586; bool newConsole = true; bool wow64 = false;
    int maxWinCols = 5000, maxWinRows = 5000;  // see console font model
    uint64_t vtimeLimitUs = 7200ull * 1000000;
    bool noRtlGenRandom = false, noCrypt = false; bool weakRandom = false; uint64_t rndSalt = 0; unsigned char rndXor = 0;
};

struct Stats { std::map<std::string, uint64_t> n; uint64_t switches = 0, apis = 0, preempts = 0, schedHash = 1469598103934665603ull; };

struct World {
    Config cfg; Rng rng{1}; Rng schedRng{1};
    uint64_t nowUs = 1000000;
    std::vector<Thread*> threads; std::vector<Process*> procs; Process *client = nullptr;
    Thread *cur = nullptr;
    int nextPid = 1000;
    std::multimap<uint64_t, std::function<void()>> timers;
    std::vector<CreateProcessRecord> createLog;
    std::map<ustr, Program> programs;          // lower-case base name
    std::function<bool(const ustr&, DWORD &)> createProcessHook;   // may veto: returns true and sets the error
    Stats st;
    std::vector<std::string> debugMessages;
    std::vector<ustr> pipeNamesCreated; struct PipeClient { ustr name; std::string proc; DWORD flags; }; std::vector<PipeClient> pipeClients; std::function<void(const ustr &)> onPipeCreate;   // before the pipe exists
    uint64_t seed = 0; std::function<void(const char*)> onApi;    // called at every API entry (monitors)
};
extern World *g;

// ---- scheduling -----------------------------------------------------------------------------------------------
Thread *cur();
void yieldPoint();                                     // maybe switch
bool block(const char *what, std::function<bool()> ready, uint64_t deadlineUs);   // false on timeout
const uint64_t kForever = ~0ull;
inline uint64_t msFromNow(DWORD ms) { return ms == INFINITE ? kForever : g->nowUs + (uint64_t)ms * 1000; }
Thread *spawnThread(Process *p, const std::string &name, std::function<void()> f);
void joinThread(Thread *t);
[[noreturn]] void parkForever();
void after(uint64_t us, std::function<void()> f);      // kernel timer event
void killProcess(Process *p, DWORD code, const char *why);
Process *createProcess(const std::string &name, Process *parent);
void initWorld(uint64_t seed, const Config &c);        // the calling thread becomes the client's main thread
void sleepMs(int ms);
bool waitFor(std::function<bool()> p, int ms);         // virtual milliseconds; false on timeout

struct Quiet { Quiet(); ~Quiet(); };                  // monitor state: not subject to race detection, no preemption
struct ApiScope { const char *n; ApiScope(const char *name); ~ApiScope(); };
#define API(name) sim::ApiScope _api(name)
bool fault(const char *api);                           // true: this call must fail (last error already set)
void setErr(DWORD e);
DWORD getErr();

// ---- reporting ------------------------------------------------------------------------------------------------
void violation(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int violations;
[[noreturn]] void finish(int code);

// ---- pipes ----------------------------------------------------------------------------------------------------
struct PipeInst; struct PipeEnd;
struct PipeInfo {                                      // what monitors may look at
    ustr name; DWORD openMode, pipeMode, maxInst; std::vector<std::pair<std::string, DWORD>> dacl; bool hasSd = false, hasDacl = false, nullDacl = false, reject = false;
    int creatorPid; bool everConnected = false, serverClosed = false, clientClosed = false; uint64_t serverClosedAt = 0;
    uint64_t s2c = 0, c2s = 0;                         // bytes transferred
    int clientPid = 0; DWORD clientFlags = 0;
};
std::vector<std::shared_ptr<PipeInfo>> &allPipes();
std::shared_ptr<PipeInfo> pipeInfo(const ustr &name);  // latest with that name
// hook: called for each write with the data; may return replacement data (man in the middle).
extern std::function<void(const ustr &name, bool serverToClient, std::string &data)> pipeTap;

void annotateAcquire(void *p); void annotateRelease(void *p);
void userRead(const void *p, size_t n); void userWrite(void *p, size_t n);
ObjP handleObj(HANDLE h);
void setEventObj(const ObjP &e);

} // namespace sim

// Entry points for the shared objects under test.
extern "C" {
void *sim_mod_alloc(size_t n);
void sim_mod_free(void *p);
void sim_exit(int code) __attribute__((noreturn));
void sim_abort() __attribute__((noreturn));
}
