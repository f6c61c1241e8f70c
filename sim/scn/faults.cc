// Any system call or allocation may fail, in the client or in the agent, once or for good.
#include "apih.h"

namespace {
struct Desk { std::shared_ptr<WinSta> ws; std::shared_ptr<Desktop> dt; };
Desk desk() { ApiScope sc("desk"); if (!g->client->winsta || !g->client->desktop) initDesktop(g->client); Desk d; d.ws = g->client->winsta; d.dt = g->cur->desktop.lock(); if (!d.dt) d.dt = g->client->desktop; return d; }
std::string deskName() { Desk d = desk(); return u8(d.ws->name) + "\\" + u8(d.dt->name); }
struct Plan { UINT64 flags; int cols, rows; bool conerr; std::vector<int> ops; UINT64 spawnFlags; bool wantP, wantT; bool spawnFails; bool noErr = false; };
struct Ran { bool opened = false, failed = false, spawned = false; int calls = 0, failures = 0; };
// A whole session; every call is judged by itself.
Ran runSession(const Plan &p, Puppet &pp, Process **agentOut, bool expectOk, std::function<void()> afterOpen = nullptr) {
    Ran x; std::string before = deskName(); auto d0 = desk();
    Cfg c; c.flags = p.flags; c.cols = p.cols; c.rows = p.rows; c.timeout = 8000; Outcome o;
    size_t n0 = g->procs.size();
    const bool we = !p.noErr; winpty_t *wp = doOpen(c, we, o); x.calls++;
    auto d1 = desk(); if (d1.ws != d0.ws || d1.dt != d0.dt) violation("desktop", "winpty_open (%s) left the caller on %s; it was on %s", wp ? "ok" : "failed", deskName().c_str(), before.c_str());
    if (!wp) { x.failed = true; x.failures++; return x; }
    x.opened = true;
    HANDLE ah = api.agent_process(wp); Process *agent = nullptr; for (size_t i = n0; i < g->procs.size(); i++) if (auto ob = g->client->get(ah)) if (ob == g->procs[i]->obj) agent = g->procs[i];
    if (!agent) violation("api-contract", "winpty_agent_process is not a handle of the agent process");
    if (agentOut) *agentOut = agent;
    if (afterOpen) afterOpen();
    HANDLE hin = connectPipe(api.conin_name(wp), GENERIC_WRITE), hout = connectPipe(api.conout_name(wp), GENERIC_READ);
    Reader rd; if (hout != INVALID_HANDLE_VALUE) rd.start(hout, "reader");
    bool broken = false; std::vector<HANDLE> hs; int lastC = 0, lastR = 0;
    for (int op : p.ops) {
        Outcome q; const char *nm = ""; x.calls++;
        if (op == 0) { if (x.spawned) continue; SpawnArgs a; a.flags = p.spawnFlags; a.wantP = p.wantP; a.wantT = p.wantT; a.wantErr = we; q = doSpawn(wp, a); nm = "winpty_spawn"; if (q.p) hs.push_back(q.p); if (q.t) hs.push_back(q.t); x.spawned = q.ok;
            if (q.ok && p.wantP) { auto ob = g->client->get(q.p); if (!ob || ob->type != OT::Process) violation("api-contract", "the process handle is not a process"); }
            if (!q.ok && q.cp) { stat("create.failed"); continue; } }
        else if (op == 1) { lastC = p.cols + x.calls; lastR = p.rows + x.calls; q = doSize(wp, lastC, lastR, we); nm = "winpty_set_size"; }
        else { q = doList(wp, 64, we); nm = "winpty_get_console_process_list"; if (q.ok && agent && !agent->exited) { int want = (int)agent->console->procs.size(); if (q.n != want) violation("stale-reply", "the process list has %d entries instead of %d", q.n, want); } }
        if (q.ok && broken) violation("stale-reply", "%s succeeded on a session on which a request had failed", nm);
        if (!q.ok) { if (we && q.e.code != WINPTY_ERROR_OUT_OF_MEMORY) broken = true; /* memory may run out outside the request itself */ x.failed = true; x.failures++; }
        else if (op == 1 && agent && !agent->exited) { auto b = agent->console->active; if (b->win.Right - b->win.Left + 1 != lastC || b->win.Bottom - b->win.Top + 1 != lastR) if (!agent->faultFired) violation("stale-reply", "winpty_set_size returned before the console had the new size"); }
    }
    api.free(wp); pp.quit = true; x.calls++;
    if (hin != INVALID_HANDLE_VALUE) CloseHandle(hin);
    if (rd.t) { if (!waitFor([&] { return rd.closed || (agent && agent->exited); }, 60000)) violation("agent-orphan", "the output pipe is still open 60 s after winpty_free"); waitFor([&] { return rd.closed; }, 60000); if (rd.closed) joinThread(rd.t); CloseHandle(rd.h); }
    for (auto h : hs) CloseHandle(h);
    (void)expectOk;
    return x;
}
Plan plan(Rng &r) {
    Plan p; p.conerr = r.chance(0.25); p.flags = (p.conerr ? 1 : 0) | (r.chance(0.5) ? 8 : 0) | (r.chance(0.2) ? 2 : 0); p.cols = r.range(10, 100); p.rows = r.range(5, 50);
    int n = r.range(1, 5); for (int i = 0; i < n; i++) p.ops.push_back(r.below(3)); p.spawnFlags = r.below(4) & 1; p.wantP = r.chance(0.5); p.wantT = r.chance(0.5); p.spawnFails = false; return p;
}
// sweep: seed = plan * 8 + block; fails every call or allocation of the block in turn, so that a plan is covered without gaps
void run(bool alloc, bool agentSide, bool sweep = false) {
    uint64_t seed = params.num("seed", 1); const int BLOCK = 24, BLOCKS = 8;
    Rng r((sweep ? seed / BLOCKS * 1009 + 7 : seed * 89 + 5)); pickSchedule(r); g->cfg.pStall = 0; pickOs(r); if (r.chance(0.3)) { g->cfg.osMajor = r.chance(0.5) ? 5 : 6; g->cfg.osMinor = g->cfg.osMajor == 5 ? 1 : 0; g->cfg.newConsole = false; }
    if (r.chance(0.15)) g->client->env["WINPTY_DEBUG"] = r.chance(0.5) ? "trace" : "force_desktop";
    if (r.chance(0.1)) g->cfg.noRtlGenRandom = true;
    loadLibwinpty();
    Plan p = plan(r);
    uint64_t schedSeed = r.next();
    { Puppet pp; g->programs[u"child.exe"] = pp.program(); Ran w = runSession(p, pp, nullptr, true); if (w.failed) violation("clean-run", "a session without faults failed"); waitFor([] { return agentCount(true) == 0; }, 40000); }
    // count what there is to fail
    Process *cl = g->client; long fallible = 0, allocs = 0;
    Baseline b = baseline(); size_t procs0 = 0;
    { Puppet pp; g->programs[u"child.exe"] = pp.program(); cl->faultArmed = true; cl->failAt = -1; cl->fallible = 0; cl->allocCount = 0; cl->allocFailAt = 1000000000; Process *ag = nullptr; Ran w = runSession(p, pp, &ag, true); cl->faultArmed = false; cl->allocFailAt = -1; fallible = cl->fallible; allocs = cl->allocCount; if (w.failed) violation("clean-run", "a session without faults failed"); waitFor([] { return agentCount(true) == 0; }, 40000); checkBaseline(b, "after a clean session", true); }
    if (violations) return;
    statMax("calls.to.fail", fallible); statMax("allocs.to.fail", allocs);
    (void)procs0; (void)schedSeed;
    int tries = r.range(2, 5);
    if (sweep) { tries = BLOCK; if (!agentSide && (long)(seed % BLOCKS) * BLOCK >= (alloc ? allocs : fallible)) { stat("sweep.past_end"); return; } stat("sweep.blocks"); }
    for (int k = 0; k < tries && !violations; k++) {
        Puppet pp; g->programs[u"child.exe"] = pp.program();
        Process *ag = nullptr; std::string what = "?";
        auto hook = g->programs[u"winpty-agent.exe"];
        static const DWORD errs[] = {ERROR_NO_SYSTEM_RESOURCES, ERROR_NOT_ENOUGH_MEMORY, ERROR_ACCESS_DENIED, ERROR_INVALID_HANDLE + 1000, ERROR_BROKEN_PIPE, ERROR_OPERATION_ABORTED};
        if (agentSide) {
            long at = r.chance(0.5) ? r.below(60) : r.below(400); long pos = (long)(seed % BLOCKS) * BLOCK + k; if (sweep) at = pos; DWORD err = errs[r.below(6)]; bool al = alloc; long aat = r.chance(0.5) ? r.below(120) : r.below(800); if (sweep) aat = pos; long len = r.chance(0.7) ? 1 : r.range(2, 1000);
            g->programs[u"winpty-agent.exe"] = [=](Process &q) -> int { q.mayThrow = true; if (al) { q.allocFailAt = aat; } else { q.faultArmed = true; q.failAt = at; q.failLen = len; q.failError = err; } return hook(q); };
        } else if (alloc) { cl->allocCount = 0; cl->allocFailAt = sweep ? (long)(seed % BLOCKS) * BLOCK + k : allocs > 0 ? (long)(r.next() % (uint64_t)allocs) : 0; cl->allocFired = false; }
        else { cl->faultArmed = true; cl->faultFired = false; cl->faultApi.clear(); cl->fallible = 0; cl->failAt = sweep ? (long)(seed % BLOCKS) * BLOCK + k : (long)(r.next() % (uint64_t)std::max(1L, fallible)); cl->failLen = r.chance(0.7) ? 1 : r.range(2, 1000000); cl->failError = errs[r.below(6)]; }
        p.noErr = r.chance(0.3);       // the caller may not be interested in the error
        Ran x = runSession(p, pp, &ag, false);
        bool fired = agentSide ? false : alloc ? cl->allocFired : cl->faultFired; what = alloc ? "allocation" : cl->faultApi;
        if (agentSide) for (auto q : g->procs) if (q->faultFired || q->allocFired) fired = true;
        cl->faultArmed = false; cl->allocFailAt = -1;
        g->programs[u"winpty-agent.exe"] = hook;
        if (fired) { stat("faults.fired"); stat("nontrivial"); stat(("fault." + (agentSide ? std::string("agent") : what)).c_str()); stat(x.failed ? "reported" : "absorbed"); }
        if (!fired && x.failed && !agentSide) violation("call-failed", "a call failed although nothing had gone wrong");
        pp.quit = true;
        // an agent that lost its way may leave its programs behind; everything else must be gone
        if (agentSide) { waitFor([] { return agentCount(true) == 0; }, 60000); if (agentCount(true)) violation("agent-orphan", "an agent in which a system call failed is still running 60 s after winpty_free"); for (auto q : g->procs) if (q != cl && !q->exited) killProcess(q, 0, "end"); }
        else { if (!waitFor([] { return agentCount(true) == 0; }, 60000)) violation("agent-orphan", "an agent is still running 60 s after %s had failed in the client", what.c_str()); checkNoAgentAbort(); for (auto q : g->procs) if (q != cl && !q->exited && q->name != "debugserver") { if (!waitFor([q] { return q->exited; }, 20000)) violation("child-orphan", "%s is still running after %s had failed in the client", q->name.c_str(), what.c_str()); } }
        char w[120]; snprintf(w, sizeof w, "after a failing %s (%d calls, %d failed)", agentSide ? "call in the agent" : what.c_str(), x.calls, x.failures);
        checkBaseline(b, w, true);
    }
    // and everything still works
    { Puppet pp; g->programs[u"child.exe"] = pp.program(); Process *ag = nullptr; Plan q = plan(r); Ran x = runSession(q, pp, &ag, true); if (x.failed) violation("unusable-afterwards", "a new session failed after the faults"); checkAgentsGone("end"); checkBaseline(b, "at the end", true); }
}
}
SCENARIO(faults) { run(false, false); }
SCENARIO(oom) { run(true, false); }
SCENARIO(agentfaults) { run(false, true); }
SCENARIO(agentoom) { run(true, true); }
SCENARIO(faultsweep) { run(false, false, true); }
SCENARIO(oomsweep) { run(true, false, true); }
SCENARIO(agentfaultsweep) { run(false, true, true); }
SCENARIO(agentoomsweep) { run(true, true, true); }
