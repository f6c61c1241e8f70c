// Agents that die, hang, stop reading, never connect or answer slowly.
#include "apih.h"

namespace {
const uint64_t kSlackUs = 300000;
struct Timing { uint64_t lastSeen = 0; bool died = false; uint64_t diedAt = 0; bool hung = false; uint64_t hungAt = 0; };
// Judges one call that may not have been answered.
void judgeCall(const char *nm, const Outcome &o, const Timing &t, DWORD timeoutMs, bool broken) {
    uint64_t to = (uint64_t)timeoutMs * 1000;
    if (broken) {
        if (o.ok) violation("stale-reply", "%s succeeded on a session that had already failed", nm);
        if (o.t1 > o.t0 + kSlackUs) violation("late", "%s on a session that had already failed took %llu ms", nm, (unsigned long long)((o.t1 - o.t0) / 1000));
        stat("broken.calls"); return;
    }
    if (o.ok) { stat("answered"); return; }
    uint64_t from = std::max(o.t0, t.lastSeen);
    if (t.died && t.diedAt <= o.t1) {
        if (o.t1 > std::max(o.t0, t.diedAt) + kSlackUs) violation("late", "%s returned %llu ms after the agent had died", nm, (unsigned long long)((o.t1 - t.diedAt) / 1000));
        // (it may also die after its answer, before the library has fetched the handles that the answer names)
        if (o.hadErr && o.e.code != WINPTY_ERROR_AGENT_DIED && o.e.code != WINPTY_ERROR_LOST_CONNECTION && o.e.msg.find("ConnectNamedPipe") == std::string::npos && o.e.msg.find("DuplicateHandle of ") == std::string::npos) violation("error-code", "%s: the agent's death was reported as code %u (%s)", nm, (unsigned)o.e.code, o.e.msg.c_str());
        stat("died");
    } else {
        if (o.hadErr && o.e.code != WINPTY_ERROR_AGENT_TIMEOUT) violation("error-code", "%s: a silent agent was reported as code %u (%s)", nm, (unsigned)o.e.code, o.e.msg.c_str());
        if (o.t1 > from + to + kSlackUs) violation("late", "%s returned %llu ms after the agent's last sign of life; the timeout is %u ms", nm, (unsigned long long)((o.t1 - from) / 1000), (unsigned)timeoutMs);
        if (o.t1 + 20000 < o.t0 + to) violation("early", "%s gave up after %llu ms; the timeout is %u ms", nm, (unsigned long long)((o.t1 - o.t0) / 1000), (unsigned)timeoutMs);
        stat("timed.out");
    }
}
Outcome anyCall(winpty_t *wp, Rng &r, bool &spawned, const char *&nm, bool wantErr) {
    int k = r.below(3); if (k == 0 && spawned) k = 1;
    if (k == 0) { spawned = true; nm = "winpty_spawn"; SpawnArgs a; a.flags = r.below(4); a.wantErr = wantErr; a.wantP = r.chance(0.5); a.wantT = r.chance(0.5); a.hasCmd = true; a.cmd = anyText(r, r.chance(0.3) ? 20000 : 10); auto o = doSpawn(wp, a); if (o.p) CloseHandle(o.p); if (o.t) CloseHandle(o.t); if (!o.ok && o.cp) o.ok = true; return o; }
    if (k == 1) { nm = "winpty_set_size"; return doSize(wp, r.range(1, 200), r.range(1, 100), wantErr); }
    nm = "winpty_get_console_process_list"; return doList(wp, 1 + r.below(64), true);
}
}

// Scripted agents.
SCENARIO(deadagent) {
    Rng r(params.num("seed", 1)); pickSchedule(r); g->cfg.pStall = 0;
    int fl = r.below(10); if (fl == 0) { g->cfg.osMajor = 6; g->cfg.osMinor = 0; g->cfg.newConsole = false; }
    loadLibwinpty();
    bool heap = r.chance(0.5); if (heap) { { Session s; SessionOpts o; o.flags = r.chance(0.5) ? 0 : 8; if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; } s.resize(50, 20); s.close(); } waitFor([] { return agentCount(true) == 0; }, 40000); }
    Baseline b = baseline();
    int sessions = r.range(1, 3);
    for (int k = 0; k < sessions; k++) {
        // where the agent stops behaving
        enum { NeverStart, ExitAtOnce, NeverConnect, ConnectExit, ConnectHang, HalfSetup, AfterSetup, BadExe };
        int how = r.chance(0.5) ? AfterSetup : r.below(8), okReplies = r.below(4); bool exits = r.chance(0.5), slow = r.chance(0.4), halfReply = r.chance(0.3), noRead = r.chance(0.3); int exitDelay = r.chance(0.5) ? r.range(0, 50) : r.range(0, 3000);
        DWORD timeout = r.range(100, 5000); if (r.chance(0.05)) timeout = INFINITE; if (timeout == INFINITE) exits = true;
        if (timeout == INFINITE && (how == NeverConnect || how == ConnectHang)) how = ConnectExit;
        auto tm = std::make_shared<Timing>(); uint64_t seed = r.next(); Process *proc = nullptr; auto quit = std::make_shared<bool>(false);
        int desktopHow = g->cfg.osMajor < 10 ? r.below(timeout == INFINITE ? 3 : 4) : 0;
        g->programs[u"winpty-agent.exe"] = [=, &proc](Process &p) -> int {
            p.name = "agent-fake"; Rng q(seed); FakeAgent a;
            auto argv = parseCommandLine(p.cmdline);
            bool desk = argv.size() > 2 && argv[2] == u"--create-desktop";
            auto dies = [&] { tm->died = true; tm->diedAt = g->nowUs; return 1; };
            auto hang = [&] { tm->hung = true; tm->hungAt = g->nowUs; if (exits || desk) { if (!desk || desktopHow == 2) { sleepMs(exitDelay); return dies(); } } waitFor([quit] { return *quit; }, 100000000); return 1; };
            auto slowly = [&] { if (slow && timeout != INFINITE) sleepMs(q.range(0, (int)timeout * 8 / 10)); };
            if (desk) {
                if (desktopHow == 1) return dies();
                if (!a.connect()) return 0;
                if (desktopHow >= 2) return hang();
                a.send(Wire().str(u"").packet(), q, false); std::string s; a.read(s); return 0;
            }
            proc = &p;
            tm->lastSeen = g->nowUs;
            if (how == ExitAtOnce) { if (q.chance(0.5)) sleepMs(q.range(0, 100)); return dies(); }
            if (how == NeverConnect) return hang();
            slowly();
            if (!a.connect()) return 0;
            tm->lastSeen = g->nowUs;
            if (how == ConnectExit) { if (q.chance(0.5)) sleepMs(q.range(0, 200)); return dies(); }
            if (how == ConnectHang) return hang();
            std::string hello = validOpen(u"\\\\.\\pipe\\a", u"\\\\.\\pipe\\b", false, u"");
            slowly();
            if (how == HalfSetup) { a.send(hello.substr(0, 1 + q.below((uint32_t)hello.size() - 1)), q, false); tm->lastSeen = g->nowUs; return hang(); }
            a.send(hello, q, q.chance(0.3)); tm->lastSeen = g->nowUs;
            for (int i = 0;; i++) {
                if (i >= okReplies && noRead) return hang();
                std::string pl; if (!a.read(pl)) return 0;
                tm->lastSeen = g->nowUs;
                if (*quit) return 0;
                slowly();
                if (i >= okReplies && !halfReply) return hang();
                auto rq = parseRequest(pl); std::string rep;
                if (rq.type == 0) rep = Wire().i32(0).i32(5).packet(); else if (rq.type == 1) rep = Wire().packet(); else rep = Wire().i32(2).i32(7).i32(8).packet();
                if (i >= okReplies) { a.send(rep.substr(0, 1 + q.below((uint32_t)rep.size() - 1)), q, false); tm->lastSeen = g->nowUs; return hang(); }
                a.send(rep, q, q.chance(0.3)); tm->lastSeen = g->nowUs;
            }
        };
        bool noExe = how == NeverStart || how == BadExe;
        DWORD vetoErr = how == BadExe ? 193 : 2; if (noExe) g->createProcessHook = [vetoErr](const ustr &, DWORD &e) { e = vetoErr; return true; };
        Cfg c; c.timeout = timeout; c.flags = r.chance(0.5) ? 0 : 8; Outcome o; bool wantErr = r.chance(0.85);
        winpty_t *wp = doOpen(c, wantErr, o);
        g->createProcessHook = nullptr;
        bool openShould = how == AfterSetup;
        if (noExe) {
            if (wp) violation("api-contract", "winpty_open succeeded without an agent");
            if (wantErr && o.e.code != WINPTY_ERROR_AGENT_CREATION_FAILED && o.e.code != WINPTY_ERROR_AGENT_EXE_MISSING) violation("error-code", "an agent that cannot be started was reported as code %u (%s)", (unsigned)o.e.code, o.e.msg.c_str());
            if (o.t1 > o.t0 + kSlackUs) violation("late", "winpty_open took %llu ms to notice that the agent cannot be started", (unsigned long long)((o.t1 - o.t0) / 1000));
            stat("no.agent");
        } else if (!wp) {
            if (openShould && !(tm->died && tm->diedAt <= o.t1) && !(desktopHow && g->cfg.osMajor < 10 && !(c.flags & 8))) violation("slow-agent-refused", "winpty_open failed (code %u, %s) although the agent answered within the timeout", (unsigned)o.e.code, o.e.msg.c_str());
            judgeCall("winpty_open", o, *tm, timeout, false);
        } else {
            if (!openShould) violation("api-contract", "winpty_open succeeded although the agent had never sent its pipe names");
            bool spawned = false, broken = false; const char *nm = ""; int done = 0;
            for (int i = 0; i < 6; i++) {
                size_t before = 0; (void)before;
                if (r.chance(0.3)) sleepMs(r.range(0, (int)std::min<DWORD>(timeout, 4000)));
                Outcome q = anyCall(wp, r, spawned, nm, r.chance(0.85));
                if (!broken && q.ok && done >= okReplies) violation("api-contract", "%s succeeded although the agent never answered", nm);
                if (!broken && !q.ok && done < okReplies && !(tm->died && tm->diedAt <= q.t1)) violation("slow-agent-refused", "%s failed (code %u, %s) although the agent answered within the timeout", nm, (unsigned)q.e.code, q.e.msg.c_str());
                judgeCall(nm, q, *tm, timeout, broken);
                if (!q.ok) broken = true; else done++;
            }
            uint64_t t0 = g->nowUs;
            api.free(wp);
            if (g->nowUs > t0 + kSlackUs) violation("late", "winpty_free took %llu ms", (unsigned long long)((g->nowUs - t0) / 1000));
            stat("sessions");
        }
        *quit = true;
        if (proc && !proc->exited && !waitFor([proc] { return proc->exited; }, 20000)) {}
        checkBaseline(b, "after the failed session", heap);
    }
    for (auto p : g->procs) if (p != g->client && !p->exited) killProcess(p, 0, "end");
    g->programs[u"winpty-agent.exe"] = realAgent();
    { Session s; if (!s.open(SessionOpts())) violation("unusable-afterwards", "a new session failed: %s", s.openErr.msg.c_str()); else s.close(); }
    waitFor([] { return agentCount(true) == 0; }, 40000); checkBaseline(b, "at the end");
}

// The real agent, killed or suspended at an arbitrary moment while several threads use the session.
SCENARIO(killagent) {
    Rng r(params.num("seed", 1)); pickSchedule(r); g->cfg.pStall = 0; pickOs(r);
    loadLibwinpty();
    Baseline b = baseline();
    DWORD timeout = r.range(1000, 8000);
    SessionOpts so; so.timeout = timeout; so.flags = (r.chance(0.3) ? 1 : 0) | 8; so.cols = r.range(20, 150); so.rows = r.range(5, 60);
    Session s; Puppet pp;
    bool suspend = r.chance(0.4);
    if (!s.open(so)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
    const bool late = r.chance(0.25); if (late) { ApiScope sc("program"); g->programs[u"child.exe"] = pp.program(); }   // one of the threads starts the program
    if (!late && r.chance(0.8) && !s.spawn(pp.program())) violation("spawn", "spawn failed: %s", s.spawnErr.msg.c_str());
    if (pp.started || s.child) pp.post([] { for (int i = 0; i < 200; i++) { childWrite(hOut(), u"some output of the program\r\n"); if (i % 20 == 0) sleepMs(10); } });
    auto tm = std::make_shared<Timing>(); int nThreads = r.range(1, 4); int running = nThreads; bool anyFail = false; uint64_t firstFailAt = 0;
    long afterCalls = r.chance(0.5) ? r.range(1, 400) : r.range(400, 4000); Process *agent = s.agent; long at = agent->apiCalls + afterCalls;
    // the agent stops in the middle of one of its own system calls
    g->onApi = [=](const char *) {
        if (agent->exited || tm->died || tm->hung) return;
        if (g->cur->proc == agent && agent->apiCalls >= at) {
            if (suspend) { tm->hung = true; tm->hungAt = tm->lastSeen = g->nowUs; for (auto t : g->threads) if (t->proc == agent) t->notBefore = g->nowUs + 1000000000ull; }
            else { tm->died = true; tm->diedAt = g->nowUs; killProcess(agent, 9, "killed"); }
        }
    };
    std::vector<Thread*> ts;
    for (int i = 0; i < nThreads; i++) {
        uint64_t seed = r.next();
        ts.push_back(spawnThread(g->client, "caller", [&, seed, i] {
            Rng q(seed); bool spawned = !late || i, broken = false;
            for (int j = 0; j < 40; j++) {
                if (q.chance(0.3)) sleepMs(q.range(1, 60));
                const char *nm; bool stopped = tm->died || tm->hung; (void)stopped;
                Outcome o = anyCall(s.wp, q, spawned, nm, true);
                stat("calls");
                if (o.ok) { if (broken) violation("stale-reply", "%s succeeded on a session that had already failed", nm); continue; }
                if (!tm->died && !tm->hung) { violation("call-failed", "%s failed (code %u, %s) although the agent was alive", nm, (unsigned)o.e.code, o.e.msg.c_str()); break; }
                uint64_t stop = tm->died ? tm->diedAt : tm->hungAt;
                // the callers queue up for one lock: each waits at most for the one in progress, then fails at once
                uint64_t limit = std::max(o.t0, stop) + (tm->died ? 0 : (uint64_t)timeout * 1000) + kSlackUs;
                if (o.t1 > limit) violation("late", "%s returned %llu ms after the agent %s (timeout %u ms, %d threads)", nm, (unsigned long long)((o.t1 - std::max(o.t0, stop)) / 1000), tm->died ? "had died" : "hung", (unsigned)timeout, nThreads);
                bool later = o.e.code == WINPTY_ERROR_UNSPECIFIED && o.e.msg.find("shutdown") != std::string::npos;
                if (!later && tm->died && o.e.msg.find("DuplicateHandle of ") == std::string::npos && o.e.code != WINPTY_ERROR_AGENT_DIED && o.e.code != WINPTY_ERROR_LOST_CONNECTION) violation("error-code", "%s: the agent's death was reported as code %u (%s)", nm, (unsigned)o.e.code, o.e.msg.c_str());
                if (!later && tm->hung && o.e.code != WINPTY_ERROR_AGENT_TIMEOUT) violation("error-code", "%s: a hung agent was reported as code %u (%s)", nm, (unsigned)o.e.code, o.e.msg.c_str());
                if (!anyFail) { anyFail = true; firstFailAt = o.t1; }
                broken = true; stat(tm->died ? "died" : "timed.out");
            }
            ApiScope sc("done"); running--;
        }));
    }
    if (!waitFor([&] { return running == 0; }, 600000)) violation("blocked", "a library call is still blocked 600 s after the agent stopped");
    for (auto t : ts) joinThread(t);
    // what the agent did not get around to
    if (!tm->died && !tm->hung) stat("not.reached");
    uint64_t t0 = g->nowUs;
    api.free(s.wp); s.wp = nullptr;
    if (g->nowUs > t0 + kSlackUs) violation("late", "winpty_free took %llu ms", (unsigned long long)((g->nowUs - t0) / 1000));
    g->onApi = nullptr;
    if (tm->hung) for (auto t : g->threads) if (t->proc == agent) t->notBefore = 0;      // goes on, and must find out that its client has left
    pp.quit = true;
    if (tm->died) for (auto p : s.con->procs) { (void)p; }
    s.close();
    if (tm->died) { for (auto p : g->procs) if (p != g->client && !p->exited) killProcess(p, 0, "end"); }
    else checkAgentsGone("after winpty_free");
    checkBaseline(b, "at the end");
    // a new session works
    { Session n; if (!n.open(SessionOpts())) violation("unusable-afterwards", "a new session failed: %s", n.openErr.msg.c_str()); else n.close(); }
}
