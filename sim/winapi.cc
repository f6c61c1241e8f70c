// Win32 API on top of the simulated kernel: handles, events, processes, pipes, modules, misc.
#include "sim.h"
#include "console.h"
#include <dlfcn.h>

extern "C" void *__asan_region_is_poisoned(void *beg, size_t size) __attribute__((weak));

namespace sim {

std::function<void(const ustr &, bool, std::string &)> pipeTap;

// ---------------------------------------------------------------------------------------------------------------
// Handles
HANDLE Process::add(ObjP o, DWORD access, const char *origin, bool inherit) {
    uintptr_t h;
    if (!freeHandles.empty()) { h = freeHandles.back(); freeHandles.pop_back(); }   // LIFO reuse: stale handles hit new objects
    else { h = nextHandle; nextHandle += 4; }
    HandleEntry e; e.obj = o; e.access = access; e.inherit = inherit; e.origin = origin;
    o->handles++;
    handles[h] = e;
    return (HANDLE)h;
}
ObjP Process::get(HANDLE h) { auto it = handles.find((uintptr_t)h); return it == handles.end() ? nullptr : it->second.obj; }
bool Process::close(HANDLE h) {
    auto it = handles.find((uintptr_t)h);
    if (it == handles.end()) return false;
    ObjP o = it->second.obj;
    handles.erase(it);
    freeHandles.push_back((uintptr_t)h);
    if (--o->handles == 0) o->lastClose();
    return true;
}
static Process *me() { return g->cur->proc; }
static const HANDLE kCurProcess = (HANDLE)(intptr_t)-1, kCurThread = (HANDLE)(intptr_t)-2;

static ObjP lookup(HANDLE h, const char *api) {
    if (h == kCurProcess) return me()->obj;
    ObjP o = me()->get(h);
    if (!o) {
        setErr(ERROR_INVALID_HANDLE);
        if (me()->strictHandles)
            violation("bad-handle", "%s called with invalid handle %#lx in process %s", api, (unsigned long)(uintptr_t)h, me()->name.c_str());
    }
    return o;
}
template <class T> static std::shared_ptr<T> lookupAs(HANDLE h, OT t, const char *api) {
    ObjP o = lookup(h, api);
    if (!o) return nullptr;
    if (o->type != t) {
        setErr(ERROR_INVALID_HANDLE);
        if (me()->strictHandles) violation("bad-handle", "%s called with handle %#lx of the wrong type (%d) in process %s", api, (unsigned long)(uintptr_t)h, (int)o->type, me()->name.c_str());
        return nullptr;
    }
    return std::static_pointer_cast<T>(o);
}
ObjP handleObj(HANDLE h) { return me()->get(h); }
void setEventObj(const ObjP &e) { if (e && e->type == OT::Event) static_cast<Event*>(e.get())->state = true; }

// ---------------------------------------------------------------------------------------------------------------
// Named pipes
struct IoOp {
    Process *proc; Thread *thread; OVERLAPPED *ov; ObjP event; char *buf; DWORD len; DWORD done = 0;
    int kind;                      // 0 read, 1 write, 2 connect
    bool finished = false, completing = false; DWORD status = 0; DWORD bytes = 0;
    std::string readData;          // data to be copied to the user at completion
    uint64_t hash = 0;
    std::string queued;            // (writes) everything that has not been consumed yet
    ObjP file;                     // keeps the pipe end's memory alive
};
typedef std::shared_ptr<IoOp> OpP;
static std::vector<OpP> &ops() { static std::vector<OpP> v; return v; }
static uint64_t hashBuf(const char *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return h; }

struct Chan {
    std::string buf; size_t quota = 4096;
    std::deque<OpP> writes;        // pending writes, their unread data in op->queued
    std::deque<OpP> reads;
    std::deque<size_t> msgs;       // message sizes still in buf (message mode)
};
struct PipeEnd;
struct PipeInst {
    ustr name; std::shared_ptr<PipeInfo> info;
    Chan c[2];                     // [0]: server to client, [1]: client to server
    PipeEnd *end[2] = {};          // 0 server, 1 client
    bool connected = false, disconnected = false; bool msgType = false;
    bool clientGone = false, serverGone = false;
    OpP connectOp;
};
struct PipeEnd : Object {
    std::shared_ptr<PipeInst> inst; int side; DWORD access; bool overlapped; bool readMsg = false;
    PipeEnd() : Object(OT::Pipe) {}
    void lastClose() override;
};
static std::vector<std::shared_ptr<PipeInst>> gInsts;       // server side still open
static std::vector<std::shared_ptr<PipeInfo>> gInfos;
std::vector<std::shared_ptr<PipeInfo>> &allPipes() { return gInfos; }
std::shared_ptr<PipeInfo> pipeInfo(const ustr &name) {
    for (auto it = gInfos.rbegin(); it != gInfos.rend(); ++it) if (lower((*it)->name) == lower(name)) return *it;
    return nullptr;
}

// The kernel finishes an operation: user memory (data, OVERLAPPED) is written, then the event is set.
static void deliver(const OpP &op) {
    if (op->finished) return;
    op->finished = true;
    auto &v = ops(); v.erase(std::remove(v.begin(), v.end(), op), v.end());
    if (op->proc->exited) return;
    if (__asan_region_is_poisoned) {
        static const char *what[] = {"read", "write", "connect"};
        if (op->ov && __asan_region_is_poisoned(op->ov, sizeof *op->ov)) { violation("io-freed", "the OVERLAPPED of a pending pipe %s was freed before the operation had ended (process %s)", what[op->kind], op->proc->name.c_str()); return; }
        if (op->kind == 0 && op->buf && !op->readData.empty() && __asan_region_is_poisoned(op->buf, op->readData.size())) { violation("io-freed", "the buffer of a pending pipe read was freed before the read had ended (process %s)", op->proc->name.c_str()); return; }
    }
    if (op->kind == 0 && op->status == 0 && !op->readData.empty()) memcpy(op->buf, op->readData.data(), op->readData.size());
    if (op->ov) { op->ov->InternalHigh = op->bytes; op->ov->Internal = op->status == 0 ? 0 : (0xC0000000u | op->status); }
    setEventObj(op->event);
}
static void complete(const OpP &op, DWORD status, DWORD bytes, bool now) {
    if (op->completing || op->finished) return;
    op->completing = true; op->status = status; op->bytes = bytes;
    if (op->kind == 1 && !op->proc->exited && op->hash != hashBuf(op->buf, op->len) && status == 0)
        violation("write-buffer-mutated", "the buffer of a pending pipe write was modified before the write completed (process %s)", op->proc->name.c_str());
    if (now || g->cfg.ioLatencyUs == 0) deliver(op);
    else after(g->schedRng.below((uint32_t)g->cfg.ioLatencyUs) + 1, [op] { deliver(op); });
}
static size_t avail(Chan &c) { size_t n = c.buf.size(); for (auto &w : c.writes) n += w->queued.size(); return n; }
static void refill(Chan &c) {      // pending writes move into the pipe's buffer as space appears
    while (!c.writes.empty()) {
        OpP w = c.writes.front();
        if (w->completing || w->finished) { c.writes.pop_front(); continue; }   // cancelled
        size_t room = c.buf.size() < c.quota ? c.quota - c.buf.size() : 0;
        size_t n = std::min(room, w->queued.size());
        c.buf.append(w->queued, 0, n); w->queued.erase(0, n);
        if (!w->queued.empty()) break;
        c.writes.pop_front();
        complete(w, 0, w->len, false);
    }
}
static std::string takeBytes(Chan &c, size_t want, bool msgMode) {
    // Pull what the reader wants, straight through pending writes when the buffer runs dry.
    std::string out;
    size_t limit = want;
    if (msgMode && !c.msgs.empty()) limit = std::min(want, c.msgs.front());
    else if (g->cfg.pFragment > 0 && want > 1 && avail(c) > 1 && g->schedRng.chance(g->cfg.pFragment)) limit = 1 + g->schedRng.below((uint32_t)std::min(want, avail(c)));
    while (out.size() < limit) {
        if (c.buf.empty()) refill(c);
        if (c.buf.empty()) {
            if (c.writes.empty()) break;
            OpP w = c.writes.front();
            size_t n = std::min(limit - out.size(), w->queued.size());
            out.append(w->queued, 0, n); w->queued.erase(0, n);
            if (w->queued.empty()) { c.writes.pop_front(); complete(w, 0, w->len, false); }
            else if (n == 0) break;
            continue;
        }
        size_t n = std::min(limit - out.size(), c.buf.size());
        out.append(c.buf, 0, n); c.buf.erase(0, n);
    }
    if (!c.msgs.empty()) { size_t n = out.size(); while (n && !c.msgs.empty()) { size_t m = std::min(n, c.msgs.front()); n -= m; c.msgs.front() -= m; if (!c.msgs.front()) c.msgs.pop_front(); } }
    refill(c);
    return out;
}
static void serveReads(PipeInst &pi, int chan) {
    Chan &c = pi.c[chan];
    while (!c.reads.empty() && avail(c)) {
        OpP r = c.reads.front(); c.reads.pop_front();
        if (r->completing || r->finished) continue;
        PipeEnd *e = pi.end[chan == 0 ? 1 : 0];
        r->readData = takeBytes(c, r->len, e && e->readMsg);
        (chan == 0 ? pi.info->s2c : pi.info->c2s) += r->readData.size();
        complete(r, 0, (DWORD)r->readData.size(), false);
    }
}
static void breakPipe(PipeInst &pi, int goneSide) {
    // goneSide closed its last handle.  Data that it fully wrote stays readable; pending writes are lost.
    int outChan = goneSide == 0 ? 0 : 1;      // channel in which goneSide wrote
    int inChan = 1 - outChan;
    for (auto &w : pi.c[outChan].writes) complete(w, ERROR_OPERATION_ABORTED, 0, false);
    pi.c[outChan].writes.clear();
    serveReads(pi, outChan);
    for (auto &r : pi.c[outChan].reads) complete(r, ERROR_BROKEN_PIPE, 0, false);
    pi.c[outChan].reads.clear();
    for (auto &w : pi.c[inChan].writes) complete(w, ERROR_BROKEN_PIPE, 0, false);
    pi.c[inChan].writes.clear(); pi.c[inChan].buf.clear(); pi.c[inChan].msgs.clear();
    for (auto &r : pi.c[inChan].reads) complete(r, ERROR_OPERATION_ABORTED, 0, false);
    pi.c[inChan].reads.clear();
}
void PipeEnd::lastClose() {
    auto keep = shared_from_this();
    auto pi = inst;
    pi->end[side] = nullptr;
    if (side == 0) {
        pi->serverGone = true; pi->info->serverClosed = true; pi->info->serverClosedAt = g->nowUs;
        gInsts.erase(std::remove(gInsts.begin(), gInsts.end(), pi), gInsts.end());
        if (pi->connectOp) { complete(pi->connectOp, ERROR_OPERATION_ABORTED, 0, false); pi->connectOp = nullptr; }
    } else { pi->clientGone = true; pi->info->clientClosed = true; }
    breakPipe(*pi, side);
    // any operation of this process on this end is cancelled
    auto v = ops();
    for (auto &op : v) if (op->file.get() == this) complete(op, ERROR_OPERATION_ABORTED, 0, false);
}

struct IoResult { BOOL ok; DWORD err; };
static bool dupBufferCheck(const OpP &op) {
    for (auto &o : ops()) {
        if (o == op || o->proc != op->proc) continue;
        if (op->ov && o->ov == op->ov) { violation("overlapped-reuse", "an OVERLAPPED with a pending operation was passed to another operation (process %s)", op->proc->name.c_str()); return false; }
        if (op->len && o->len && o->buf && op->buf && o->buf < op->buf + op->len && op->buf < o->buf + o->len) { violation("io-buffer-reuse", "the buffer of a pending operation was passed to another operation (process %s)", op->proc->name.c_str()); return false; }
    }
    return true;
}
static OpP newOp(PipeEnd *e, int kind, void *buf, DWORD len, OVERLAPPED *ov) {
    auto op = std::make_shared<IoOp>();
    op->proc = me(); op->thread = g->cur; op->ov = ov; op->buf = (char*)buf; op->len = len; op->kind = kind; op->file = e->shared_from_this();
    if (ov) {
        if (ov->hEvent) {
            HANDLE eh = (HANDLE)((uintptr_t)ov->hEvent & ~(uintptr_t)1);
            op->event = me()->get(eh);
            if (!op->event || op->event->type != OT::Event) violation("bad-handle", "OVERLAPPED.hEvent is not a valid event (process %s)", me()->name.c_str());
            else static_cast<Event*>(op->event.get())->state = false;
        }
        ov->Internal = 0x103; ov->InternalHigh = 0;
    }
    dupBufferCheck(op);
    return op;
}
// Issues a read or write.  Returns the Win32 status; ERROR_IO_PENDING when pending.
static DWORD pipeIo(PipeEnd *e, bool write, void *buf, DWORD len, DWORD *actual, OVERLAPPED *ov, OpP *outOp) {
    PipeInst &pi = *e->inst;
    int chan = write ? (e->side == 0 ? 0 : 1) : (e->side == 0 ? 1 : 0);
    Chan &c = pi.c[chan];
    if (actual) *actual = 0;
    if (e->side == 0 && !pi.connected) return pi.disconnected ? ERROR_PIPE_NOT_CONNECTED : ERROR_PIPE_LISTENING;
    bool peerGone = e->side == 0 ? pi.clientGone : pi.serverGone;
    if (pi.disconnected && e->side == 1) return ERROR_PIPE_NOT_CONNECTED;
    if (write) {
        if (peerGone) return ERROR_NO_DATA;
        OpP op = newOp(e, 1, buf, len, ov);
        op->hash = hashBuf(op->buf, len);
        std::string data((char*)buf, len);
        if (pipeTap) pipeTap(pi.name, e->side == 0, data);
        if (pi.msgType) c.msgs.push_back(data.size());
        op->queued = data;
        c.writes.push_back(op);
        *outOp = op;
        serveReads(pi, chan);
        refill(c);
        if (op->completing && !op->finished) {
            // Fits: may complete at once.
            if (!g->schedRng.chance(g->cfg.pPendingIo)) { deliver(op); }
        }
        if (op->finished) { if (actual) *actual = len; return 0; }
        ops().push_back(op);
        return ERROR_IO_PENDING;
    }
    if (!avail(c) && peerGone) return ERROR_BROKEN_PIPE;
    OpP op = newOp(e, 0, buf, len, ov);
    *outOp = op;
    if (avail(c)) {
        op->readData = takeBytes(c, len, e->readMsg);
        (chan == 0 ? pi.info->s2c : pi.info->c2s) += op->readData.size();
        complete(op, 0, (DWORD)op->readData.size(), false);
        if (!op->finished && !g->schedRng.chance(g->cfg.pPendingIo)) deliver(op);
        if (op->finished) { if (actual) *actual = op->bytes; return 0; }
    } else c.reads.push_back(op);
    ops().push_back(op);
    return ERROR_IO_PENDING;
}
static void cancelOp(const OpP &op) {
    if (op->completing || op->finished) return;
    // A real cancellation can lose the race against completion; here it always wins unless data arrived already.
    auto *e = static_cast<PipeEnd*>(op->file.get());
    for (auto &c : e->inst->c) {
        c.reads.erase(std::remove(c.reads.begin(), c.reads.end(), op), c.reads.end());
        c.writes.erase(std::remove(c.writes.begin(), c.writes.end(), op), c.writes.end());
    }
    if (e->inst->connectOp == op) e->inst->connectOp = nullptr;
    complete(op, ERROR_OPERATION_ABORTED, 0, false);
}

void killProcess(Process *p, DWORD code, const char *why) {
    if (p->exited) return;
    p->exitCode = code; p->exitWhy = why;
    auto v = ops();
    p->exited = true;                     // stops its threads from being scheduled; set before waking others
    for (auto &op : v) if (op->proc == p) cancelOp(op);
    while (!p->handles.empty()) { auto h = p->handles.begin()->first; p->close((HANDLE)h); }
    if (p->console) p->console->detach(p);
    p->desktop = nullptr; p->winsta = nullptr;
    annotateRelease(p->obj.get());
}

} // namespace sim

using namespace sim;

#define RET(v) return (v)
#define FAULT(apiname, failval) do { if (fault(apiname)) return failval; } while (0)

extern "C" {

// ---- errors, identity, time -----------------------------------------------------------------------------------
DWORD GetLastError() { return g->cur->lastError; }
void SetLastError(DWORD e) { g->cur->lastError = e; }
HANDLE GetCurrentProcess() { return kCurProcess; }
HANDLE GetCurrentThread() { return kCurThread; }
DWORD GetCurrentProcessId() { return me()->pid; }
DWORD GetCurrentThreadId() { return (DWORD)g->cur->id * 4 + 100000; }
DWORD GetTickCount() {
    API("GetTickCount");
    uint64_t ms = g->nowUs / 1000; if (g->cfg.tickGran > 1) ms -= ms % g->cfg.tickGran;
    return (DWORD)(g->cfg.tickBase + ms);
}
ULONGLONG GetTickCount64() { API("GetTickCount64"); return g->cfg.tickBase + g->nowUs / 1000; }
void GetSystemTimeAsFileTime(FILETIME *ft) {
    API("GetSystemTimeAsFileTime");
    uint64_t v = 0x01D9000000000000ull + (g->nowUs / 15600) * 156000;   // coarse, as on old Windows
    ft->dwLowDateTime = (DWORD)v; ft->dwHighDateTime = (DWORD)(v >> 32);
}
BOOL QueryPerformanceCounter(LARGE_INTEGER *v) { v->QuadPart = g->nowUs; return TRUE; }
BOOL QueryPerformanceFrequency(LARGE_INTEGER *v) { v->QuadPart = 1000000; return TRUE; }
void Sleep(DWORD ms) { API("Sleep"); if (ms == 0) { if (!g->cur->noYield) block("Sleep(0)", [] { return true; }, kForever); return; } block("Sleep", [] { return false; }, msFromNow(ms)); }
DWORD SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
BOOL SwitchToThread() { Sleep(0); return TRUE; }
UINT GetDoubleClickTime() { return 500; }
UINT GetACP() { return 1252; }

// ---- handles --------------------------------------------------------------------------------------------------
BOOL CloseHandle(HANDLE h) {
    API("CloseHandle");
    if (h == kCurProcess || h == kCurThread) return TRUE;
    if (!me()->close(h)) {
        setErr(ERROR_INVALID_HANDLE);
        if (me()->strictHandles) violation("bad-handle", "CloseHandle(%#lx): not an open handle of process %s (double close?)", (unsigned long)(uintptr_t)h, me()->name.c_str());
        return FALSE;
    }
    return TRUE;
}
BOOL DuplicateHandle(HANDLE sp, HANDLE h, HANDLE tp, HANDLE *out, DWORD access, BOOL inherit, DWORD opt) {
    API("DuplicateHandle");
    auto so = lookupAs<ProcessObj>(sp, OT::Process, "DuplicateHandle"); auto to = lookupAs<ProcessObj>(tp, OT::Process, "DuplicateHandle");
    if (!so || !to) return FALSE;
    FAULT("DuplicateHandle", FALSE);
    Process *s = so->p, *t = to->p;
    if (s->exited || t->exited) { setErr(ERROR_ACCESS_DENIED); return FALSE; }
    ObjP o; DWORD acc = 0;
    if (h == kCurProcess) { o = s->obj; acc = PROCESS_ALL_ACCESS; }
    else { auto it = s->handles.find((uintptr_t)h); if (it != s->handles.end()) { o = it->second.obj; acc = it->second.access; } }
    if (!o) {
        setErr(ERROR_INVALID_HANDLE);
        if (s->strictHandles && me()->strictHandles && s == me()) violation("bad-handle", "DuplicateHandle of an invalid handle");
        return FALSE;
    }
    HANDLE r = nullptr;
    if (out) r = t->add(o, (opt & DUPLICATE_SAME_ACCESS) ? acc : access, "DuplicateHandle", inherit != 0);
    if (opt & DUPLICATE_CLOSE_SOURCE) s->close(h);
    if (out) *out = r;
    return TRUE;
}
BOOL GetHandleInformation(HANDLE h, DWORD *f) { API("GetHandleInformation"); auto it = me()->handles.find((uintptr_t)h); if (it == me()->handles.end()) { setErr(ERROR_INVALID_HANDLE); return FALSE; } *f = it->second.inherit; return TRUE; }
BOOL SetHandleInformation(HANDLE h, DWORD m, DWORD f) { API("SetHandleInformation"); auto it = me()->handles.find((uintptr_t)h); if (it == me()->handles.end()) { setErr(ERROR_INVALID_HANDLE); return FALSE; } if (m & HANDLE_FLAG_INHERIT) it->second.inherit = f & HANDLE_FLAG_INHERIT; return TRUE; }

// ---- synchronization ------------------------------------------------------------------------------------------
HANDLE CreateEventW(SECURITY_ATTRIBUTES *sa, BOOL manual, BOOL init, LPCWSTR) {
    API("CreateEventW"); FAULT("CreateEventW", nullptr);
    setErr(0);
    return me()->add(std::make_shared<Event>(manual != 0, init != 0), EVENT_ALL_ACCESS, "CreateEvent", sa && sa->bInheritHandle);
}
HANDLE CreateEventA(SECURITY_ATTRIBUTES *sa, BOOL manual, BOOL init, LPCSTR) { return CreateEventW(sa, manual, init, nullptr); }
BOOL SetEvent(HANDLE h) { API("SetEvent"); auto e = lookupAs<Event>(h, OT::Event, "SetEvent"); if (!e) return FALSE; annotateRelease(e.get()); e->state = true; return TRUE; }
BOOL ResetEvent(HANDLE h) { API("ResetEvent"); auto e = lookupAs<Event>(h, OT::Event, "ResetEvent"); if (!e) return FALSE; e->state = false; return TRUE; }
DWORD WaitForMultipleObjectsEx(DWORD n, const HANDLE *hs, BOOL all, DWORD ms, BOOL) {
    API("WaitForMultipleObjects");
    if (n == 0 || n > 64) { setErr(ERROR_INVALID_PARAMETER); return WAIT_FAILED; }
    std::vector<ObjP> v;
    for (DWORD i = 0; i < n; i++) { ObjP o = lookup(hs[i], "WaitForMultipleObjects"); if (!o) return WAIT_FAILED; v.push_back(o); }
    if (fault("WaitForMultipleObjects")) return WAIT_FAILED;
    auto ready = [&v, all] {
        size_t c = 0; for (auto &o : v) if (o->signaled()) { if (!all) return true; c++; }
        return all && c == v.size();
    };
    if (!ready()) { if (ms == 0) return WAIT_TIMEOUT; if (!block("WaitForMultipleObjects", ready, msFromNow(ms))) return WAIT_TIMEOUT; }
    if (all) { for (auto &o : v) { o->consume(); annotateAcquire(o.get()); } return WAIT_OBJECT_0; }
    for (DWORD i = 0; i < n; i++) if (v[i]->signaled()) { v[i]->consume(); annotateAcquire(v[i].get()); return WAIT_OBJECT_0 + i; }
    return WAIT_FAILED;
}
DWORD WaitForMultipleObjects(DWORD n, const HANDLE *hs, BOOL all, DWORD ms) { return WaitForMultipleObjectsEx(n, hs, all, ms, FALSE); }
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { return WaitForMultipleObjectsEx(1, &h, FALSE, ms, FALSE); }
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return WaitForMultipleObjectsEx(1, &h, FALSE, ms, FALSE); }

struct CS { Thread *owner = nullptr; int rec = 0; Process *proc; };
static std::map<void*, CS> &css() { static std::map<void*, CS> m; return m; }
void InitializeCriticalSection(CRITICAL_SECTION *c) { API("InitializeCriticalSection"); css()[c] = CS{nullptr, 0, me()}; me()->critsecs.insert(c); memset(c, 0xCC, sizeof *c); }
BOOL InitializeCriticalSectionAndSpinCount(CRITICAL_SECTION *c, DWORD) { InitializeCriticalSection(c); return TRUE; }
BOOL InitializeCriticalSectionEx(CRITICAL_SECTION *c, DWORD, DWORD) { InitializeCriticalSection(c); return TRUE; }
void DeleteCriticalSection(CRITICAL_SECTION *c) {
    API("DeleteCriticalSection");
    auto it = css().find(c);
    if (it == css().end()) { violation("critsec", "DeleteCriticalSection of an uninitialised critical section"); return; }
    if (it->second.owner) violation("critsec", "DeleteCriticalSection of an owned critical section");
    css().erase(it); me()->critsecs.erase(c);
}
void EnterCriticalSection(CRITICAL_SECTION *c) {
    API("EnterCriticalSection");
    auto it = css().find(c);
    if (it == css().end()) { violation("critsec", "EnterCriticalSection of an uninitialised or deleted critical section"); finish(1); }
    if (it->second.owner && it->second.owner != g->cur) block("EnterCriticalSection", [c] { auto i = css().find(c); return i == css().end() || !i->second.owner; }, kForever);
    it = css().find(c);
    if (it == css().end()) { violation("critsec", "critical section deleted while a thread waited for it"); finish(1); }
    it->second.owner = g->cur; it->second.rec++;
    annotateAcquire(c);
}
BOOL TryEnterCriticalSection(CRITICAL_SECTION *c) {
    API("TryEnterCriticalSection");
    auto it = css().find(c); if (it == css().end()) { violation("critsec", "TryEnterCriticalSection of an uninitialised critical section"); finish(1); }
    if (it->second.owner && it->second.owner != g->cur) return FALSE;
    it->second.owner = g->cur; it->second.rec++; annotateAcquire(c); return TRUE;
}
void LeaveCriticalSection(CRITICAL_SECTION *c) {
    API("LeaveCriticalSection");
    auto it = css().find(c);
    if (it == css().end() || it->second.owner != g->cur) { violation("critsec", "LeaveCriticalSection by a thread that does not own it"); return; }
    annotateRelease(c);
    if (--it->second.rec == 0) it->second.owner = nullptr;
}
struct MutexObj : Object {
    Thread *owner = nullptr; int rec = 0; MutexObj() : Object(OT::Mutex) {}
    bool signaled() override { return !owner || owner == g->cur || owner->proc->exited; }
    void consume() override { owner = g->cur; rec++; }
};
HANDLE CreateMutexW(SECURITY_ATTRIBUTES *, BOOL own, LPCWSTR) { API("CreateMutexW"); FAULT("CreateMutexW", nullptr); auto m = std::make_shared<MutexObj>(); if (own) m->consume(); return me()->add(m, MUTEX_ALL_ACCESS, "CreateMutex"); }
BOOL ReleaseMutex(HANDLE h) { API("ReleaseMutex"); auto m = lookupAs<MutexObj>(h, OT::Mutex, "ReleaseMutex"); if (!m) return FALSE; if (m->owner != g->cur) { setErr(ERROR_NOT_OWNER); return FALSE; } annotateRelease(m.get()); if (--m->rec == 0) m->owner = nullptr; return TRUE; }

// SRW locks and one-time init, in case a change uses them.
void InitializeSRWLock(SRWLOCK *l) { l->Ptr = nullptr; }
void AcquireSRWLockExclusive(SRWLOCK *l) { API("AcquireSRWLockExclusive"); if (l->Ptr) block("SRW", [l] { return !l->Ptr; }, kForever); l->Ptr = (void*)1; annotateAcquire(l); }
void ReleaseSRWLockExclusive(SRWLOCK *l) { API("ReleaseSRWLockExclusive"); annotateRelease(l); l->Ptr = nullptr; }
void AcquireSRWLockShared(SRWLOCK *l) { AcquireSRWLockExclusive(l); }
void ReleaseSRWLockShared(SRWLOCK *l) { ReleaseSRWLockExclusive(l); }

// ---- files and pipes ------------------------------------------------------------------------------------------
HANDLE CreateNamedPipeW(LPCWSTR name, DWORD openMode, DWORD pipeMode, DWORD maxInst, DWORD outBuf, DWORD inBuf, DWORD, SECURITY_ATTRIBUTES *sa) {
    API("CreateNamedPipeW"); FAULT("CreateNamedPipeW", INVALID_HANDLE_VALUE);
    ustr n = W(name), ln = lower(n);
    if (g->onPipeCreate) { auto h = g->onPipeCreate; g->onPipeCreate = nullptr; h(n); g->onPipeCreate = h; }
    g->pipeNamesCreated.push_back(n);
    if ((pipeMode & 8) && g->cfg.osMajor < 6) { setErr(ERROR_INVALID_PARAMETER); return INVALID_HANDLE_VALUE; }
    if (ln.compare(0, 9, u"\\\\.\\pipe\\") != 0) { setErr(ERROR_INVALID_NAME); return INVALID_HANDLE_VALUE; }
    int existing = 0; DWORD lim = 0;
    for (auto &i : gInsts) if (lower(i->name) == ln) { existing++; lim = i->info->maxInst; }
    if (existing && (openMode & FILE_FLAG_FIRST_PIPE_INSTANCE)) { setErr(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    if (existing && (DWORD)existing >= lim) { setErr(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    if (maxInst == 0 || maxInst > 255) { setErr(ERROR_INVALID_PARAMETER); return INVALID_HANDLE_VALUE; }
    auto info = std::make_shared<PipeInfo>();
    info->name = n; info->openMode = openMode; info->pipeMode = pipeMode; info->maxInst = maxInst; info->creatorPid = me()->pid;
    info->reject = (pipeMode & 8) != 0;
    info->hasSd = sa && sa->lpSecurityDescriptor; info->hasDacl = false;
    if (info->hasSd) secRead(sa->lpSecurityDescriptor, *info);
    auto pi = std::make_shared<PipeInst>(); pi->name = n; pi->info = info; pi->msgType = (pipeMode & PIPE_TYPE_MESSAGE) != 0;
    pi->c[0].quota = outBuf; pi->c[1].quota = inBuf;
    auto e = std::make_shared<PipeEnd>(); e->inst = pi; e->side = 0; e->access = openMode & 3; e->overlapped = (openMode & FILE_FLAG_OVERLAPPED) != 0; e->readMsg = (pipeMode & PIPE_READMODE_MESSAGE) != 0;
    pi->end[0] = e.get();
    gInsts.push_back(pi); gInfos.push_back(info);
    return me()->add(e, openMode, "CreateNamedPipe", sa && sa->bInheritHandle);
}
BOOL ConnectNamedPipe(HANDLE h, OVERLAPPED *ov) {
    API("ConnectNamedPipe"); auto e = lookupAs<PipeEnd>(h, OT::Pipe, "ConnectNamedPipe"); if (!e) return FALSE;
    FAULT("ConnectNamedPipe", FALSE);
    auto pi = e->inst;
    if (e->overlapped && !ov) violation("api-misuse", "ConnectNamedPipe on an overlapped pipe without OVERLAPPED");
    if (pi->clientGone) { setErr(ERROR_NO_DATA); return FALSE; }
    if (pi->connected) { setErr(ERROR_PIPE_CONNECTED); return FALSE; }
    OVERLAPPED dummy = {};
    OpP op = newOp(e.get(), 2, nullptr, 0, ov ? ov : &dummy);
    pi->connectOp = op; pi->disconnected = false;
    ops().push_back(op);
    if (ov) { setErr(ERROR_IO_PENDING); return FALSE; }
    block("ConnectNamedPipe", [op] { return op->finished; }, kForever);
    return TRUE;
}
BOOL DisconnectNamedPipe(HANDLE h) {
    API("DisconnectNamedPipe"); auto e = lookupAs<PipeEnd>(h, OT::Pipe, "DisconnectNamedPipe"); if (!e) return FALSE;
    auto pi = e->inst; if (!pi->connected) { setErr(ERROR_PIPE_NOT_CONNECTED); return FALSE; }
    // The client's end stays attached to the dead connection; the server's end starts afresh.
    breakPipe(*pi, 0); pi->c[0].buf.clear(); pi->connected = false; pi->disconnected = true; pi->end[0] = nullptr;
    auto np = std::make_shared<PipeInst>(); np->name = pi->name; np->info = pi->info; np->msgType = pi->msgType; np->disconnected = true;
    for (int i = 0; i < 2; i++) np->c[i].quota = pi->c[i].quota;
    np->end[0] = e.get(); e->inst = np; std::replace(gInsts.begin(), gInsts.end(), pi, np); return TRUE;
}
BOOL WaitNamedPipeW(LPCWSTR name, DWORD ms) {
    API("WaitNamedPipeW"); ustr ln = lower(W(name));
    auto any = [ln] { for (auto &i : gInsts) if (lower(i->name) == ln) return true; return false; };
    auto freei = [ln] { for (auto &i : gInsts) if (lower(i->name) == ln && !i->connected && !i->disconnected) return true; return false; };
    if (!any()) { setErr(ERROR_FILE_NOT_FOUND); return FALSE; }
    if (freei()) return TRUE;
    if (!block("WaitNamedPipe", [freei, any] { return freei() || !any(); }, msFromNow(ms == 0 ? 50 : ms))) { setErr(ERROR_SEM_TIMEOUT); return FALSE; }
    if (!freei()) { setErr(ERROR_FILE_NOT_FOUND); return FALSE; }
    return TRUE;
}
HANDLE CreateFileW(LPCWSTR name, DWORD access, DWORD share, SECURITY_ATTRIBUTES *sa, DWORD disp, DWORD flags, HANDLE) {
    API("CreateFileW"); FAULT("CreateFileW", INVALID_HANDLE_VALUE);
    (void)share; (void)disp;
    ustr n = W(name), ln = lower(n);
    bool inherit = sa && sa->bInheritHandle;
    if (ln == u"conout$" || ln == u"conin$") {
        auto c = me()->console;
        if (!c) { setErr(ERROR_INVALID_HANDLE); return INVALID_HANDLE_VALUE; }
        if (ln == u"conin$") return me()->add(c->inputObj, access, "CONIN$", inherit);
        return me()->add(c->active, access, "CONOUT$", inherit);
    }
    if (ln == u"nul") { return me()->add(std::make_shared<Event>(true, true), access, "NUL", inherit); }
    if (ln.compare(0, 9, u"\\\\.\\pipe\\") != 0) { setErr(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    std::shared_ptr<PipeInst> pick; bool any = false;
    for (auto &i : gInsts) if (lower(i->name) == ln) { any = true; if (!i->connected && !i->disconnected && !i->serverGone) { pick = i; break; } }
    if (!any) { setErr(ERROR_FILE_NOT_FOUND); return INVALID_HANDLE_VALUE; }
    if (!pick) { setErr(ERROR_PIPE_BUSY); return INVALID_HANDLE_VALUE; }
    DWORD om = pick->info->openMode & 3;
    if (((access & GENERIC_READ) && !(om & PIPE_ACCESS_OUTBOUND)) || ((access & GENERIC_WRITE) && !(om & PIPE_ACCESS_INBOUND))) { setErr(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    if (!secCheck(*pick->info, me(), access)) { setErr(ERROR_ACCESS_DENIED); return INVALID_HANDLE_VALUE; }
    auto e = std::make_shared<PipeEnd>(); e->inst = pick; e->side = 1; e->access = access; e->overlapped = (flags & FILE_FLAG_OVERLAPPED) != 0;
    pick->end[1] = e.get(); pick->connected = true; pick->info->everConnected = true; pick->info->clientPid = me()->pid; pick->info->clientFlags = flags; if (g->pipeClients.size() < 1000) { Quiet q; g->pipeClients.push_back({ln, me()->name, flags}); }
    if (pick->connectOp) { auto op = pick->connectOp; pick->connectOp = nullptr; complete(op, 0, 0, false); }
    return me()->add(e, access, "CreateFile(pipe)", inherit);
}
static BOOL doIo(HANDLE h, bool write, void *buf, DWORD len, DWORD *actual, OVERLAPPED *ov) {
    const char *api = write ? "WriteFile" : "ReadFile";
    ObjP o = lookup(h, api); if (!o) return FALSE;
    if (o->type == OT::ConBuf || o->type == OT::ConIn) {
        if (write && o->type == OT::ConBuf) { conWriteBytes(std::static_pointer_cast<ScreenBuffer>(o), std::string((char*)buf, len)); if (actual) *actual = len; return TRUE; }
        setErr(ERROR_INVALID_FUNCTION); return FALSE;
    }
    if (o->type != OT::Pipe) { if (o->type == OT::Event) { if (actual) *actual = write ? len : 0; return TRUE; } setErr(ERROR_INVALID_HANDLE); return FALSE; }
    auto e = std::static_pointer_cast<PipeEnd>(o);
    if (write) userRead(buf, len); else userWrite(buf, len);
    if (fault(api)) return FALSE;
    if (e->side == 0) {
        DWORD need = write ? PIPE_ACCESS_OUTBOUND : PIPE_ACCESS_INBOUND;
        if (!(e->access & need)) { setErr(ERROR_ACCESS_DENIED); return FALSE; }
    } else if (!(e->access & ((write ? GENERIC_WRITE : GENERIC_READ) | GENERIC_ALL))) { setErr(ERROR_ACCESS_DENIED); return FALSE; }
    if (e->overlapped && !ov) { violation("api-misuse", "%s on an overlapped pipe handle without OVERLAPPED", api); setErr(ERROR_INVALID_PARAMETER); return FALSE; }
    OVERLAPPED tmp = {};
    OVERLAPPED *use = e->overlapped ? ov : (ov ? ov : &tmp);
    OpP op;
    if (write) annotateRelease(e->inst.get());
    DWORD r = pipeIo(e.get(), write, buf, len, actual, use, &op);
    if (r == ERROR_IO_PENDING && !e->overlapped) {
        block(api, [op] { return op->finished; }, kForever);
        r = op->status; if (actual) *actual = op->bytes;
    }
    if (!write) annotateAcquire(e->inst.get());
    if (r == 0) return TRUE;
    setErr(r); return FALSE;
}
BOOL ReadFile(HANDLE h, void *buf, DWORD len, DWORD *actual, OVERLAPPED *ov) { API("ReadFile"); return doIo(h, false, buf, len, actual, ov); }
BOOL WriteFile(HANDLE h, const void *buf, DWORD len, DWORD *actual, OVERLAPPED *ov) { API("WriteFile"); return doIo(h, true, const_cast<void*>(buf), len, actual, ov); }
BOOL FlushFileBuffers(HANDLE) { API("FlushFileBuffers"); return TRUE; }
BOOL GetOverlappedResult(HANDLE h, OVERLAPPED *ov, DWORD *actual, BOOL wait) {
    API("GetOverlappedResult");
    ObjP o = lookup(h, "GetOverlappedResult"); if (!o) return FALSE;
    if (ov->Internal == 0x103) {
        if (!wait) { setErr(ERROR_IO_INCOMPLETE); return FALSE; }
        if (ov->hEvent) {
            ObjP ev = lookup((HANDLE)((uintptr_t)ov->hEvent & ~(uintptr_t)1), "GetOverlappedResult"); if (!ev) return FALSE;
            block("GetOverlappedResult", [ev] { return ev->signaled(); }, kForever);
            ev->consume();
        } else {
            block("GetOverlappedResult", [ov] { return ov->Internal != 0x103; }, kForever);
        }
        if (ov->Internal == 0x103) { setErr(ERROR_IO_INCOMPLETE); return FALSE; }
    }
    if (o->type == OT::Pipe) annotateAcquire(static_cast<PipeEnd*>(o.get())->inst.get());
    *actual = (DWORD)ov->InternalHigh;
    if (ov->Internal == 0) return TRUE;
    setErr((DWORD)ov->Internal & 0xFFFF); return FALSE;
}
BOOL GetOverlappedResultEx(HANDLE h, OVERLAPPED *ov, DWORD *actual, DWORD ms, BOOL) { return GetOverlappedResult(h, ov, actual, ms != 0); }
BOOL CancelIo(HANDLE h) {
    API("CancelIo"); ObjP o = lookup(h, "CancelIo"); if (!o) return FALSE;
    auto v = ops(); for (auto &op : v) if (op->file == o && op->thread == g->cur) cancelOp(op);
    return TRUE;
}
BOOL CancelIoEx(HANDLE h, OVERLAPPED *ov) {
    API("CancelIoEx"); ObjP o = lookup(h, "CancelIoEx"); if (!o) return FALSE;
    bool any = false; auto v = ops(); for (auto &op : v) if (op->file == o && op->proc == me() && (!ov || op->ov == ov)) { cancelOp(op); any = true; }
    if (!any) { setErr(ERROR_NOT_FOUND); return FALSE; } return TRUE;
}
BOOL PeekNamedPipe(HANDLE h, void *buf, DWORD len, DWORD *rd, DWORD *av, DWORD *left) {
    API("PeekNamedPipe"); auto e = lookupAs<PipeEnd>(h, OT::Pipe, "PeekNamedPipe"); if (!e) return FALSE;
    Chan &c = e->inst->c[e->side == 0 ? 1 : 0];
    bool peerGone = e->side == 0 ? e->inst->clientGone : e->inst->serverGone;
    if (!avail(c) && peerGone) { setErr(ERROR_BROKEN_PIPE); return FALSE; }
    DWORD n = (DWORD)std::min<size_t>(len, c.buf.size()); if (buf) memcpy(buf, c.buf.data(), n);
    if (rd) *rd = n; if (av) *av = (DWORD)avail(c); if (left) *left = 0; return TRUE;
}
BOOL SetNamedPipeHandleState(HANDLE h, DWORD *mode, DWORD *, DWORD *) { API("SetNamedPipeHandleState"); auto e = lookupAs<PipeEnd>(h, OT::Pipe, "SetNamedPipeHandleState"); if (!e) return FALSE; FAULT("SetNamedPipeHandleState", FALSE); if (mode) e->readMsg = (*mode & PIPE_READMODE_MESSAGE) != 0; return TRUE; }
BOOL TransactNamedPipe(HANDLE h, void *in, DWORD inLen, void *out, DWORD outLen, DWORD *actual, OVERLAPPED *ov) {
    API("TransactNamedPipe"); (void)ov;
    auto e = lookupAs<PipeEnd>(h, OT::Pipe, "TransactNamedPipe"); if (!e) return FALSE;
    if (!e->readMsg) { setErr(ERROR_BAD_PIPE); return FALSE; }
    if (e->side != 1 || e->overlapped) { violation("api-misuse", "TransactNamedPipe on such an end is not modelled"); setErr(ERROR_BAD_PIPE); return FALSE; }
    userRead(in, inLen); userWrite(out, outLen); FAULT("TransactNamedPipe", FALSE);
    // One operation: the read is in place before the server can see the message.
    Chan &c = e->inst->c[0]; if (avail(c)) { setErr(ERROR_PIPE_BUSY); return FALSE; }
    if (e->inst->disconnected || e->inst->serverGone) { setErr(e->inst->disconnected ? ERROR_PIPE_NOT_CONNECTED : ERROR_NO_DATA); return FALSE; }
    annotateRelease(e->inst.get());
    OVERLAPPED o1 = {}, o2 = {}; OpP rd, wr; DWORD n = 0, r;
    pipeIo(e.get(), false, out, outLen, &n, &o1, &rd);
    r = pipeIo(e.get(), true, in, inLen, &n, &o2, &wr);
    if (r != 0 && r != ERROR_IO_PENDING) { setErr(r); return FALSE; }
    block("TransactNamedPipe", [rd, wr] { return rd->finished && wr->finished; }, kForever);
    *actual = rd->bytes; annotateAcquire(e->inst.get());
    if (rd->status) { setErr(rd->status); return FALSE; }
    return TRUE;
}
BOOL GetNamedPipeClientProcessId_impl(HANDLE h, ULONG *pid) {
    API("GetNamedPipeClientProcessId"); auto e = lookupAs<PipeEnd>(h, OT::Pipe, "GetNamedPipeClientProcessId"); if (!e) return FALSE;
    FAULT("GetNamedPipeClientProcessId", FALSE);
    if (!e->inst->info->everConnected) { setErr(ERROR_NOT_FOUND); return FALSE; }
    *pid = e->inst->info->clientPid; return TRUE;
}
DWORD GetFileAttributesW(LPCWSTR p) {
    API("GetFileAttributesW"); FAULT("GetFileAttributesW", INVALID_FILE_ATTRIBUTES);
    ustr n = lower(W(p)); size_t s = n.find_last_of(u"\\/"); ustr base = s == ustr::npos ? n : n.substr(s + 1);
    if (n.compare(0, 10, u"c:\\winpty\\") == 0 && g->programs.count(base)) return FILE_ATTRIBUTE_NORMAL;
    setErr(ERROR_FILE_NOT_FOUND); return INVALID_FILE_ATTRIBUTES;
}

// ---- processes ------------------------------------------------------------------------------------------------
BOOL CreateProcessW(LPCWSTR app, LPWSTR cmd, SECURITY_ATTRIBUTES *, SECURITY_ATTRIBUTES *, BOOL inherit, DWORD flags, void *env, LPCWSTR cwd, STARTUPINFOW *si, PROCESS_INFORMATION *pi) {
    API("CreateProcessW");
    CreateProcessRecord r; r.parentPid = me()->pid; r.flags = flags; r.inherit = inherit; r.siFlags = si->dwFlags; r.show = si->wShowWindow; r.cb = si->cb;
    if (app) { r.hasApp = true; r.app = W(app); }
    if (cmd) { r.hasCmd = true; r.cmd = W(cmd); if (!r.cmd.empty()) { WCHAR c = cmd[0]; cmd[0] = 0; cmd[0] = c; } }   // the API may write to it
    if (cwd) { r.hasCwd = true; r.cwd = W(cwd); }
    if (env) {
        r.hasEnv = true;
        if (flags & CREATE_UNICODE_ENVIRONMENT) { const WCHAR *p = (const WCHAR*)env; for (;;) { ustr one = W(p); r.env += one; r.env += u'\0'; p += one.size() + 1; if (!*p) break; } }
        else violation("api-misuse", "CreateProcess: environment without CREATE_UNICODE_ENVIRONMENT");
    }
    if (si->lpDesktop) { r.hasDesktop = true; r.desktop = W(si->lpDesktop); }
    if (si->dwFlags & STARTF_USESTDHANDLES) { r.stdHandles = true; r.in = me()->get(si->hStdInput); r.out = me()->get(si->hStdOutput); r.errh = me()->get(si->hStdError); }
    ustr exe = r.app;
    if (!r.hasApp) {
        const ustr &c = r.cmd; size_t i = 0;
        if (!c.empty() && c[0] == '"') { size_t e = c.find(u'"', 1); exe = c.substr(1, e == ustr::npos ? ustr::npos : e - 1); }
        else { while (i < c.size() && c[i] != ' ' && c[i] != '\t') i++; exe = c.substr(0, i); }
    }
    ustr le = lower(exe); size_t sl = le.find_last_of(u"\\/"); ustr base = sl == ustr::npos ? le : le.substr(sl + 1);
    auto fail = [&](DWORD e) { r.error = e; g->createLog.push_back(r); setErr(e); return FALSE; };
    memset(pi, 0, sizeof *pi);
    if (fault("CreateProcessW")) return fail(getErr());
    DWORD he = 0;
    if (g->createProcessHook && g->createProcessHook(base, he)) return fail(he);
    auto it = g->programs.find(base);
    if (it == g->programs.end()) it = g->programs.find(base + u".exe");
    if (it == g->programs.end()) return fail(ERROR_FILE_NOT_FOUND);
    if ((flags & CREATE_NEW_CONSOLE) && (flags & DETACHED_PROCESS)) return fail(ERROR_INVALID_PARAMETER);
    Process *par = me();
    Process *p = createProcess(u8(base), par);
    if ((flags & CREATE_NEW_PROCESS_GROUP) && !(flags & CREATE_NEW_CONSOLE)) p->ignoreCtrlC = true;   // a new group starts with Ctrl-C disabled
    p->exe = exe; p->cmdline = r.hasCmd ? r.cmd : exe; if (r.hasCwd) p->cwd = r.cwd;
    p->prog = it->second;
    bool stillborn = false; // no such desktop: the process dies before its first instruction
    if (r.hasDesktop) { auto d = findDesktop(r.desktop); if (d.first) { p->winsta = d.first; p->desktop = d.second; } else stillborn = true; }
    if (flags & CREATE_NEW_CONSOLE) { auto c = newConsole(); c->attach(p); }
    else if (flags & DETACHED_PROCESS) {}
    else if (flags & CREATE_NO_WINDOW) { auto c = newConsole(); c->attach(p); }
    else if (par->console) par->console->attach(p);
    if (inherit) {
        // inherited handles keep their values
        for (auto &kv : par->handles) if (kv.second.inherit) { p->handles[kv.first] = kv.second; kv.second.obj->handles++; p->nextHandle = std::max(p->nextHandle, kv.first + 4); }
    }
    if (si->dwFlags & STARTF_USESTDHANDLES) {
        HANDLE hs[3] = { si->hStdInput, si->hStdOutput, si->hStdError };
        for (int i = 0; i < 3; i++) {
            p->std_[i] = hs[i];
            // console handles are usable by the child in any case (pre-Windows 8: pseudo-handles); elsewhere inheritance decides
            if (!p->handles.count((uintptr_t)hs[i])) p->std_[i] = nullptr;
        }
    } else if (p->console) {
        p->std_[0] = p->add(p->console->inputObj, GENERIC_READ | GENERIC_WRITE, "std", true);
        p->std_[1] = p->add(p->console->active, GENERIC_READ | GENERIC_WRITE, "std", true);
        p->std_[2] = p->add(p->console->active, GENERIC_READ | GENERIC_WRITE, "std", true);
    }
    r.ok = TRUE; r.pid = p->pid; g->createLog.push_back(r);
    pi->hProcess = par->add(p->obj, PROCESS_ALL_ACCESS, "CreateProcess(process)");
    pi->hThread = par->add(std::make_shared<ThreadObj>(p), THREAD_ALL_ACCESS, "CreateProcess(thread)");
    pi->dwProcessId = p->pid; pi->dwThreadId = p->pid + 1;
    if (stillborn) { killProcess(p, 0xC0000142, "no desktop"); return TRUE; }
    if (flags & CREATE_SUSPENDED) p->suspended = true;
    spawnThread(p, "main", [p] {
        if (p->suspended) block("suspended", [p] { return !p->suspended; }, kForever);
        int rc = p->prog(*p);
        killProcess(p, (DWORD)rc, "return");
    });
    return TRUE;
}
BOOL GetExitCodeProcess(HANDLE h, DWORD *c) { API("GetExitCodeProcess"); auto o = lookupAs<ProcessObj>(h, OT::Process, "GetExitCodeProcess"); if (!o) return FALSE; *c = o->p->exited ? o->p->exitCode : 259; return TRUE; }
BOOL TerminateProcess(HANDLE h, UINT c) { API("TerminateProcess"); auto o = lookupAs<ProcessObj>(h, OT::Process, "TerminateProcess"); if (!o) return FALSE; killProcess(o->p, c, "TerminateProcess"); if (o->p == me()) parkForever(); return TRUE; }
DWORD ResumeThread(HANDLE h) { API("ResumeThread"); auto o = lookupAs<ThreadObj>(h, OT::Thread, "ResumeThread"); if (!o) return (DWORD)-1; DWORD r = o->p->suspended; o->p->suspended = false; return r; }
DWORD GetProcessId(HANDLE h) { API("GetProcessId"); auto o = lookupAs<ProcessObj>(h, OT::Process, "GetProcessId"); return o ? o->p->pid : 0; }
HANDLE OpenProcess(DWORD acc, BOOL, DWORD pid) { API("OpenProcess"); for (auto p : g->procs) if ((DWORD)p->pid == pid && !p->exited) return me()->add(p->obj, acc, "OpenProcess"); setErr(ERROR_INVALID_PARAMETER); return nullptr; }
void ExitProcess(UINT c) { sim_exit((int)c); }
LPWSTR GetCommandLineW() { static std::map<Process*, ustr> m; auto &s = m[me()]; s = me()->cmdline; return (LPWSTR)s.c_str(); }
void *LocalAlloc_impl(size_t n, UINT f) { void *p = malloc(n ? n : 1); if (f & LMEM_ZEROINIT) memset(p, 0, n); else memset(p, 0xA5, n); me()->locals[p] = n; return p; }
HLOCAL LocalAlloc(UINT f, SIZE_T n) { API("LocalAlloc"); FAULT("LocalAlloc", nullptr); return (HLOCAL)LocalAlloc_impl(n, f); }
HLOCAL LocalFree(HLOCAL h) {
    API("LocalFree"); if (!h) return nullptr;
    if (!me()->locals.erase((void*)h)) { violation("bad-free", "LocalFree of a pointer that is not a live LocalAlloc block (process %s)", me()->name.c_str()); return h; }
    free((void*)h); return nullptr;
}
HGLOBAL GlobalAlloc(UINT f, SIZE_T n) { return (HGLOBAL)LocalAlloc(f & GMEM_ZEROINIT ? LMEM_ZEROINIT : 0, n); }
HGLOBAL GlobalFree(HGLOBAL h) { return (HGLOBAL)LocalFree((HLOCAL)h); }
HANDLE GetProcessHeap() { return (HANDLE)0x77; }
void *HeapAlloc(HANDLE, DWORD f, SIZE_T n) { API("HeapAlloc"); return LocalAlloc_impl(n, f & HEAP_ZERO_MEMORY ? LMEM_ZEROINIT : 0); }
BOOL HeapFree(HANDLE, DWORD, void *p) { API("HeapFree"); return LocalFree((HLOCAL)p) == nullptr; }

LPWSTR *CommandLineToArgvW(LPCWSTR cmd, int *argc) {
    API("CommandLineToArgvW");
    std::vector<ustr> v = parseCommandLine(W(cmd));
    size_t sz = (v.size() + 1) * sizeof(wchar_t*); for (auto &s : v) sz += (s.size() + 1) * 2;
    char *b = (char*)LocalAlloc_impl(sz, 0); wchar_t **a = (wchar_t**)b; wchar_t *p = (wchar_t*)(b + (v.size() + 1) * sizeof(wchar_t*));
    for (size_t i = 0; i < v.size(); i++) { a[i] = p; memcpy(p, v[i].c_str(), (v[i].size() + 1) * 2); p += v[i].size() + 1; }
    a[v.size()] = nullptr; *argc = (int)v.size(); return a;
}
DWORD GetEnvironmentVariableA(LPCSTR n, LPSTR buf, DWORD sz) {
    API("GetEnvironmentVariableA");
    auto it = me()->env.find(n); if (it == me()->env.end()) { setErr(ERROR_ENVVAR_NOT_FOUND); return 0; }
    if (it->second.size() + 1 > sz) return (DWORD)it->second.size() + 1;
    memcpy(buf, it->second.c_str(), it->second.size() + 1); return (DWORD)it->second.size();
}
DWORD GetEnvironmentVariableW(LPCWSTR n, LPWSTR buf, DWORD sz) {
    API("GetEnvironmentVariableW");
    auto it = me()->env.find(u8(W(n))); if (it == me()->env.end()) { setErr(ERROR_ENVVAR_NOT_FOUND); return 0; }
    if (it->second.size() + 1 > sz) return (DWORD)it->second.size() + 1;
    for (size_t i = 0; i <= it->second.size(); i++) buf[i] = (unsigned char)it->second.c_str()[i];
    return (DWORD)it->second.size();
}

// ---- modules --------------------------------------------------------------------------------------------------
static char gClientModuleTag, gExeTag;
BOOL GetModuleHandleExW(DWORD f, LPCWSTR, HMODULE *out) { API("GetModuleHandleExW"); (void)f; *out = (HMODULE)(me() == g->client ? &gClientModuleTag : &gExeTag); return TRUE; }
static ustr modulePath(HMODULE m) { if ((void*)m == &gClientModuleTag) return u"C:\\winpty\\winpty.dll"; return me()->exe; }
DWORD GetModuleFileNameW(HMODULE m, LPWSTR buf, DWORD n) {
    API("GetModuleFileNameW"); ustr s = modulePath(m); size_t k = std::min<size_t>(s.size(), n ? n - 1 : 0); memcpy(buf, s.data(), k * 2); if (n) buf[k] = 0;
    if (s.size() >= n) { setErr(ERROR_INSUFFICIENT_BUFFER); return n; } return (DWORD)k;
}
DWORD GetModuleFileNameA(HMODULE m, LPSTR buf, DWORD n) {
    API("GetModuleFileNameA"); std::string s = u8(modulePath(m)); size_t k = std::min<size_t>(s.size(), n ? n - 1 : 0); memcpy(buf, s.data(), k); if (n) buf[k] = 0;
    if (s.size() >= n) { setErr(ERROR_INSUFFICIENT_BUFFER); return n; } return (DWORD)k;
}
static std::map<std::string, char*> gModTags;
static HMODULE modTag(const std::string &n) { auto &p = gModTags[n]; if (!p) p = (char*)malloc(16); return (HMODULE)p; }
static std::string modName(HMODULE m) { for (auto &kv : gModTags) if ((HMODULE)kv.second == m) return kv.first; return ""; }
static std::string baseName(const std::string &s0) { std::string s = s0; for (auto &c : s) c = tolower(c); size_t p = s.find_last_of("\\/"); if (p != std::string::npos) s = s.substr(p + 1); if (s.find('.') == std::string::npos) s += ".dll"; return s; }
static bool alwaysLoaded(const std::string &b) { return b == "kernel32.dll" || b == "ntdll.dll" || b == "user32.dll" || b == "advapi32.dll"; }
HMODULE LoadLibraryW(LPCWSTR n) { API("LoadLibraryW"); std::string b = baseName(u8(W(n))); if (!alwaysLoaded(b)) FAULT("LoadLibraryW", nullptr); me()->modules[b]++; return modTag(b); }
HMODULE LoadLibraryA(LPCSTR n) { API("LoadLibraryA"); std::string b = baseName(n); if (!alwaysLoaded(b)) FAULT("LoadLibraryA", nullptr); me()->modules[b]++; return modTag(b); }
HMODULE LoadLibraryExW(LPCWSTR n, HANDLE, DWORD) { return LoadLibraryW(n); }
HMODULE GetModuleHandleW(LPCWSTR n) { if (!n) return (HMODULE)&gExeTag; return modTag(baseName(u8(W(n)))); }
HMODULE GetModuleHandleA(LPCSTR n) { if (!n) return (HMODULE)&gExeTag; return modTag(baseName(n)); }
BOOL FreeLibrary(HMODULE m) {
    API("FreeLibrary"); std::string n = modName(m);
    if (n.empty() || me()->modules[n] <= 0) { violation("bad-free", "FreeLibrary of a module that is not loaded (process %s)", me()->name.c_str()); setErr(ERROR_INVALID_HANDLE); return FALSE; }
    me()->modules[n]--; return TRUE;
}
FARPROC GetProcAddress(HMODULE m, LPCSTR n) {
    API("GetProcAddress");
    std::string mod = modName(m);
    if (mod.empty() && (void*)m != &gExeTag && (void*)m != &gClientModuleTag) violation("bad-handle", "GetProcAddress on an invalid module");
    FARPROC f = procLookup(mod, n);
    if (!f) setErr(ERROR_PROC_NOT_FOUND);
    return f;
}
UINT GetSystemDirectoryW(LPWSTR b, UINT n) { ustr s = u"C:\\Windows\\system32"; if (n > s.size()) memcpy(b, s.c_str(), (s.size() + 1) * 2); return (UINT)s.size(); }
BOOL GetVersionExW(OSVERSIONINFOW *v) {
    API("GetVersionExW");
    v->dwMajorVersion = g->cfg.osMajor; v->dwMinorVersion = g->cfg.osMinor; v->dwBuildNumber = g->cfg.osBuild; v->dwPlatformId = 2; v->szCSDVersion[0] = 0;
    if (v->dwOSVersionInfoSize >= sizeof(OSVERSIONINFOEXW)) { auto *e = (OSVERSIONINFOEXW*)v; e->wServicePackMajor = 0; e->wServicePackMinor = 0; e->wSuiteMask = 0; e->wProductType = 1; }
    return TRUE;
}
HWINSTA GetProcessWindowStation() {
    API("GetProcessWindowStation"); FAULT("GetProcessWindowStation", nullptr);
    auto p = me();
    if (!p->winsta) initDesktop(p);
    if (!p->winstaHandle) { p->winstaHandle = p->add(p->winsta, 0, "process winsta"); }
    return (HWINSTA)p->winstaHandle;
}
BOOL SetProcessWindowStation(HWINSTA h) { API("SetProcessWindowStation"); auto w = lookupAs<WinSta>((HANDLE)h, OT::WinSta, "SetProcessWindowStation"); if (!w) return FALSE; if (w->name != u"WinSta0") FAULT("SetProcessWindowStation", FALSE); me()->winsta = w; me()->winstaHandle = (HANDLE)h; return TRUE; }
HWINSTA CreateWindowStationW(LPCWSTR, DWORD, ACCESS_MASK, SECURITY_ATTRIBUTES *) { API("CreateWindowStationW"); FAULT("CreateWindowStationW", nullptr); auto w = makeWinSta(); return (HWINSTA)me()->add(w, 0, "CreateWindowStation"); }
BOOL CloseWindowStation(HWINSTA h) {
    API("CloseWindowStation"); auto w = lookupAs<WinSta>((HANDLE)h, OT::WinSta, "CloseWindowStation"); if (!w) return FALSE;
    if (me()->winsta == w) { violation("desktop", "CloseWindowStation of the process's current window station"); setErr(ERROR_BUSY); return FALSE; }
    me()->close((HANDLE)h); return TRUE;
}
HDESK CreateDesktopW(LPCWSTR n, LPCWSTR, DEVMODEW *, DWORD, ACCESS_MASK, SECURITY_ATTRIBUTES *) {
    API("CreateDesktopW"); FAULT("CreateDesktopW", nullptr);
    if (!me()->winsta) initDesktop(me());
    return (HDESK)me()->add(makeDesktop(me()->winsta, W(n)), 0, "CreateDesktop");
}
BOOL CloseDesktop(HDESK h) { API("CloseDesktop"); auto d = lookupAs<Desktop>((HANDLE)h, OT::Desktop, "CloseDesktop"); if (!d) return FALSE; me()->close((HANDLE)h); return TRUE; }
HDESK GetThreadDesktop(DWORD) {
    API("GetThreadDesktop"); FAULT("GetThreadDesktop", nullptr);
    auto p = me(); if (!p->desktop) initDesktop(p);
    for (auto &kv : p->handles) if (kv.second.obj == p->desktop && !strcmp(kv.second.origin, "thread desktop")) return (HDESK)kv.first;
    return (HDESK)p->add(p->desktop, 0, "thread desktop");
}
BOOL GetUserObjectInformationW(HANDLE h, int idx, void *buf, DWORD len, DWORD *need) {
    API("GetUserObjectInformationW"); ObjP o = lookup(h, "GetUserObjectInformationW"); if (!o) return FALSE; FAULT("GetUserObjectInformationW", FALSE);
    if (idx != UOI_NAME) { setErr(ERROR_INVALID_PARAMETER); return FALSE; }
    ustr n = objName(o); DWORD sz = (DWORD)(n.size() + 1) * 2; if (need) *need = sz;
    if (len < sz) { setErr(ERROR_INSUFFICIENT_BUFFER); return FALSE; }
    memcpy(buf, n.c_str(), sz); return TRUE;
}

// ---- text conversion ------------------------------------------------------------------------------------------
int MultiByteToWideChar(UINT cp, DWORD flags, LPCSTR s, int n, LPWSTR out, int cch) {
    API("MultiByteToWideChar"); (void)cp;
    size_t len = n < 0 ? strlen(s) + 1 : n; ustr r; bool bad = false;
    for (size_t i = 0; i < len;) {
        unsigned char c = s[i]; uint32_t v; int k;
        if (c < 0x80) { v = c; k = 1; } else if (c >= 0xC2 && c < 0xE0) { v = c & 31; k = 2; } else if (c >= 0xE0 && c < 0xF0) { v = c & 15; k = 3; } else if (c >= 0xF0 && c < 0xF5) { v = c & 7; k = 4; } else { v = 0xFFFD; k = 1; bad = true; r.push_back(0xFFFD); i++; continue; }
        bool ok = true; for (int j = 1; j < k; j++) { if (i + j >= len || ((unsigned char)s[i + j] & 0xC0) != 0x80) { ok = false; break; } v = v << 6 | ((unsigned char)s[i + j] & 63); }
        if (ok && k == 3 && (v < 0x800 || (v >= 0xD800 && v < 0xE000))) ok = false;
        if (ok && k == 4 && (v < 0x10000 || v > 0x10FFFF)) ok = false;
        if (!ok) { bad = true; r.push_back(0xFFFD); i++; continue; }
        if (v >= 0x10000) { v -= 0x10000; r.push_back((char16_t)(0xD800 + (v >> 10))); r.push_back((char16_t)(0xDC00 + (v & 0x3FF))); } else r.push_back((char16_t)v);
        i += k;
    }
    if (bad && (flags & MB_ERR_INVALID_CHARS)) { setErr(ERROR_NO_UNICODE_TRANSLATION); return 0; }
    if (cch == 0) return (int)r.size();
    if ((int)r.size() > cch) { setErr(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(out, r.data(), r.size() * 2); return (int)r.size();
}
int WideCharToMultiByte(UINT cp, DWORD, LPCWSTR s, int n, LPSTR out, int cb, LPCSTR, BOOL *) {
    API("WideCharToMultiByte"); (void)cp;
    if (n == 0 || cb < 0) { setErr(ERROR_INVALID_PARAMETER); return 0; }
    size_t len; if (n < 0) { len = 0; while (s[len]) len++; len++; } else len = n;
    ustr w; for (size_t i = 0; i < len; i++) w.push_back((char16_t)s[i]);
    std::string r;
    for (size_t i = 0; i < w.size(); i++) {   // lone surrogates become U+FFFD (Vista and later)
        char16_t c = w[i];
        if (c >= 0xD800 && c < 0xDC00 && i + 1 < w.size() && w[i + 1] >= 0xDC00 && w[i + 1] < 0xE000) { r += u8(ustr(w, i, 2)); i++; }
        else if (c >= 0xD800 && c < 0xE000) r += "\xEF\xBF\xBD";
        else if (c == 0) r += '\0';
        else r += u8(ustr(1, c));
    }
    if (cb == 0) return (int)r.size();
    if ((int)r.size() > cb) { setErr(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(out, r.data(), r.size()); return (int)r.size();
}

// ---- randomness -----------------------------------------------------------------------------------------------
static bool rnd(void *b, ULONG n) { static Rng own(g->seed * 31 + 77 + g->cfg.rndSalt * 0x9E3779B97F4A7C15ull); for (ULONG i = 0; i < n; i++) ((unsigned char*)b)[i] = g->cfg.weakRandom ? 7 : (unsigned char)((own.next() >> 24) ^ g->cfg.rndXor); return true; }
BOOLEAN RtlGenRandom_impl(void *b, ULONG n) { API("RtlGenRandom"); if (fault("RtlGenRandom")) return FALSE; return rnd(b, n); }
BOOL CryptAcquireContextW(HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD) { API("CryptAcquireContextW"); if (g->cfg.noCrypt) { setErr(NTE_FAIL); return FALSE; } FAULT("CryptAcquireContextW", FALSE); *p = 0x5150; me()->crypt++; return TRUE; }
BOOL CryptReleaseContext(HCRYPTPROV p, DWORD) { API("CryptReleaseContext"); if (p != 0x5150 || me()->crypt <= 0) { violation("bad-free", "CryptReleaseContext of an invalid context"); return FALSE; } me()->crypt--; return TRUE; }
BOOL CryptGenRandom(HCRYPTPROV p, DWORD n, BYTE *b) { API("CryptGenRandom"); if (p != 0x5150 || me()->crypt <= 0) { violation("bad-handle", "CryptGenRandom with an invalid context"); return FALSE; } FAULT("CryptGenRandom", FALSE); return rnd(b, n); }
BOOL IsWow64Process_impl(HANDLE, BOOL *b) { *b = g->cfg.wow64; return TRUE; }
void OutputDebugStringA(LPCSTR) {}
void OutputDebugStringW(LPCWSTR) {}
BOOL IsDebuggerPresent() { return FALSE; }

} // extern "C"
