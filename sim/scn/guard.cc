// Who may connect to a session's pipes, what the pipes are called, and where the caller ends up.
#include "apih.h"
#include "wire.h"
#include <unistd.h>
#include <sys/wait.h>

namespace {
std::string randomSid(Rng &r) {
    if (r.chance(0.3)) return "S-1-5-32-544"; if (r.chance(0.2)) return "S-1-5-18";
    std::string s = "S-1-5-21"; int n = r.range(1, 4); for (int i = 0; i < n; i++) s += "-" + std::to_string((uint32_t)r.next()); return s;
}
void checkPipe(const PipeInfo &i, const std::string &owner) {
    std::string n = u8(i.name); const char *c = n.c_str();
    if (!(i.openMode & FILE_FLAG_FIRST_PIPE_INSTANCE)) violation("pipe-security", "%s was not created as the first instance", c);
    if (i.maxInst != 1) violation("pipe-security", "%s allows %u instances", c, (unsigned)i.maxInst);
    if (g->cfg.osMajor >= 6 && !i.reject) violation("pipe-security", "%s does not reject remote clients", c);
    if (!i.hasSd) violation("pipe-security", "%s was created without a security descriptor", c);
    else if (i.nullDacl || !i.hasDacl) violation("pipe-security", "%s was created without an access list", c);
    bool own = false;
    for (auto &e : i.dacl) {
        if (e.first.compare(0, 5, "deny:") == 0 || !e.second) continue;
        if (e.first != owner && e.first != "S-1-5-18" && e.first != "S-1-5-32-544") violation("pipe-security", "%s grants %#x to %s; its owner is %s", c, (unsigned)e.second, e.first.c_str(), owner.c_str());
        if (e.first == owner && (e.second & (GENERIC_ALL | 3))) own = true;
    }
    if (i.hasDacl && !own) violation("pipe-security", "%s does not admit its owner %s", c, owner.c_str());
    stat("pipes.checked");
}
}

SCENARIO(pipesec) {
    Rng r(params.num("seed", 1) * 7 + 3); pickSchedule(r); g->cfg.pStall = 0; pickOs(r);
    std::string owner = r.chance(0.3) ? "S-1-5-21-1000" : randomSid(r);
    g->client->owner = owner;
    if (r.chance(0.15)) g->client->env["WINPTY_DEBUG"] = r.chance(0.5) ? "trace" : r.chance(0.5) ? "force_desktop" : "force_desktop_spawn";
    startDebugServer(g->client->env.count("WINPTY_DEBUG") && g->client->env["WINPTY_DEBUG"] == "trace" ? 2 : 0, r.next());
    if (r.chance(0.15)) g->cfg.noRtlGenRandom = true; if (r.chance(0.1)) g->cfg.noCrypt = true;
    // somebody who is not the owner keeps trying every pipe
    bool intruder = r.chance(0.7); bool sameUser = r.chance(0.4); bool admitted = false, stop = false; int tries = 0;
    std::string other = sameUser ? owner : randomSid(r); if (other == "S-1-5-32-544" || other == "S-1-5-18") other = "S-1-5-21-77"; if (!sameUser && other == owner) other = "S-1-5-21-77-1";
    Thread *it = nullptr;
    if (intruder) {
        Process *x = createProcess("intruder", nullptr); x->owner = other; uint64_t seed = r.next();
        it = spawnThread(x, "main", [&, seed] {
            Rng q(seed); size_t seen = 0; std::vector<HANDLE> mine;
            while (!stop) {
                waitFor([&] { return stop || g->pipeNamesCreated.size() > seen; }, 3600000);
                if (stop) break;
                if (q.chance(0.3)) sleepMs(q.below(60));
                ustr n = g->pipeNamesCreated[seen++]; tries++;
                // a further instance of the pipe
                static const DWORD lim[] = {1, 2, 255};
                HANDLE h = CreateNamedPipeW(P(n), PIPE_ACCESS_DUPLEX | FILE_FLAG_OVERLAPPED, 0, lim[q.below(3)], 100, 100, 0, nullptr);
                if (h != INVALID_HANDLE_VALUE) { // fine once the original has gone
                    bool orig = false; for (auto &i : allPipes()) if (i->name == n && i->creatorPid != g->cur->proc->pid && !i->serverClosed) orig = true;
                    if (orig) { violation("pipe-security", "a second instance of %s could be created", u8(n).c_str()); stop = true; }
                    CloseHandle(h);
                }
                if (!sameUser) {
                    HANDLE c = CreateFileW(P(n), q.chance(0.5) ? GENERIC_READ | GENERIC_WRITE : q.chance(0.5) ? GENERIC_READ : GENERIC_WRITE, 0, nullptr, OPEN_EXISTING, FILE_FLAG_OVERLAPPED, nullptr);
                    if (c != INVALID_HANDLE_VALUE) { admitted = true; violation("pipe-security", "%s (%s) could open %s of %s", "another user", other.c_str(), u8(n).c_str(), owner.c_str()); CloseHandle(c); }
                }
            }
        });
    }
    loadLibwinpty();
    int sessions = r.range(1, 2);
    for (int k = 0; k < sessions; k++) {
        Session s; SessionOpts o; o.flags = (r.chance(0.4) ? 1 : 0) | (r.chance(0.3) ? 8 : 0); 
        if (!s.open(o)) { violation("open-failed", "winpty_open failed: %s", s.openErr.msg.c_str()); break; }
        Puppet pp; if (r.chance(0.5)) { if (!s.spawn(pp.program())) violation("spawn-failed", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); pp.run([] { childWrite(hOut(), u"hello\r\n"); }); s.quiesce(100); }
        std::string names[3]; { LPCWSTR q[3] = {api.conin_name(s.wp), api.conout_name(s.wp), api.conerr_name(s.wp)}; for (int i = 0; i < 3; i++) if (q[i]) {
            auto pi = pipeInfo(W((const wchar_t*)q[i])); if (!pi) violation("pipe-security", "there is no pipe %s", u8(W((const wchar_t*)q[i])).c_str()); else if (pi->creatorPid != s.agent->pid) violation("pipe-security", "%s does not belong to the agent", u8(pi->name).c_str()); } }
        pp.quit = true; s.close();
    }
    checkAgentsGone("end");
    for (auto &i : allPipes()) { bool ours = true; for (auto p : g->procs) if (p->pid == i->creatorPid && (p->name == "intruder" || p->name == "debugserver")) ours = false; if (ours) { if (lower(i->name).find(u"\\\\.\\pipe\\winpty-") != 0) violation("pipe-security", "a pipe is called %s", u8(i->name).c_str()); checkPipe(*i, owner); } }
    // whoever owns the other end may learn who connected, but must not be able to act as them
    for (auto &c : g->pipeClients) if (c.proc.find("agent") != std::string::npos || lower(c.name).find(u"debugserver") != ustr::npos) {
        stat("connections.checked"); DWORD level = c.flags & 0x00030000u;
        if (!(c.flags & 0x00100000u) || level > 0x00010000u) violation("impersonation", "%s connected to %s so that the server can impersonate it (flags %#x)", c.proc.c_str(), u8(c.name).c_str(), (unsigned)c.flags);
    }
    stop = true; if (it) joinThread(it);
    stat("intrusions.tried", tries);
}

// Another process of the same user gets to the control pipe first, or owns the name before winpty does.
SCENARIO(squatter) {
    Rng r(params.num("seed", 1) * 11 + 5); pickSchedule(r); g->cfg.pStall = 0; pickOs(r);
    if (g->cfg.osMajor < 6) { g->cfg.osMajor = 6; g->cfg.osMinor = 0; }
    if (r.chance(0.2)) g->client->env["WINPTY_DEBUG"] = "trace";
    int how = r.below(3);            // 0: connect first   1: the name exists already   2: the pid cannot be determined
    int which = r.below(4);          // how==1: the n-th pipe
    bool fakeHello = r.chance(0.6), fast = r.chance(0.7); std::string got; bool in = false, stop = false; std::string victim; HANDLE pre = nullptr; bool preDone = false;
    bool desktop = r.chance(0.3); if (desktop) { g->cfg.osMajor = 6; g->cfg.osMinor = 0; g->cfg.newConsole = false; }
    bool wantSecond = r.chance(0.5);
    bool insider = how == 0 && r.chance(0.25);     // another thread of the caller's own process
    Process *x = insider ? g->client : createProcess("squatter", nullptr); x->owner = g->client->owner; Thread *it = nullptr; uint64_t seed = r.next();
    auto agent = realAgent();
    if (how == 0) {
        g->programs[u"winpty-agent.exe"] = [=, &in](Process &p) -> int { if (fast) waitFor([&in] { return in; }, 300); return agent(p); };
        it = spawnThread(x, "main", [&, seed] {
            Rng q(seed); size_t seen = 0; int skip = wantSecond && desktop ? 1 : 0; const bool skipped = skip > 0;
            while (!stop && !in) {
                waitFor([&] { return stop || g->pipeNamesCreated.size() > seen; }, 3600000);
                if (stop) return;
                ustr n = g->pipeNamesCreated[seen++]; auto i = pipeInfo(n); if (!i || i->creatorPid != g->client->pid) continue;
                if (skip-- > 0) continue;
                if (q.chance(0.4)) sleepMs(q.below(5));
                HANDLE h = CreateFileW(P(n), GENERIC_READ | GENERIC_WRITE, 0, nullptr, OPEN_EXISTING, 0, nullptr);
                if (h == INVALID_HANDLE_VALUE) continue;
                in = true; victim = u8(n);
                if (fakeHello) { bool toDesk = desktop && !skipped; std::string m = toDesk ? Wire().str(q.chance(0.3) ? u"" : u"WinSta0\\Default").packet() : Wire().str(u"\\\\.\\pipe\\evil-in").str(u"\\\\.\\pipe\\evil-out").packet(); DWORD w = 0; WriteFile(h, m.data(), (DWORD)m.size(), &w, nullptr); }
                char b[512]; DWORD n2 = 0; while (ReadFile(h, b, sizeof b, &n2, nullptr) && n2) got.append(b, n2);
                CloseHandle(h);
            }
        });
    } else if (how == 1) {
        auto no = std::make_shared<int>(0);
        g->onPipeCreate = [&, no](const ustr &n) {
            if (preDone || (*no)++ != which) return;
            preDone = true; victim = u8(n);
            // the squatter is a process of its own: create in its name
            ustr m = n; Process *me = g->cur->proc; g->cur->proc = x; pre = CreateNamedPipeW(P(m), PIPE_ACCESS_DUPLEX | FILE_FLAG_OVERLAPPED, 0, 255, 4096, 4096, 0, nullptr); g->cur->proc = me;
        };
    } else { g->client->faultArmed = true; g->client->failAt = -1; g->client->failName = "GetNamedPipeClientProcessId"; static const DWORD es[] = {ERROR_ACCESS_DENIED, ERROR_NOT_ENOUGH_MEMORY, ERROR_NOT_FOUND, ERROR_INVALID_HANDLE, ERROR_PIPE_NOT_CONNECTED, ERROR_INVALID_PARAMETER}; g->client->failError = es[r.below(6)]; }
    loadLibwinpty();
    Session s; SessionOpts o; o.flags = (r.chance(0.4) ? 1 : 0) | (r.chance(0.3) && !desktop ? 8 : 0); o.timeout = 5000; o.connect = false;
    bool ok = s.open(o);
    if (how == 2) { if (ok) violation("peer-not-verified", "winpty_open succeeded although the peer's process could not be determined"); stat("unverifiable"); }
    else if (how == 1) { if (preDone) { stat("names.taken"); if (ok) violation("name-taken", "winpty_open succeeded although %s already existed", victim.c_str()); } else if (!ok) violation("open-failed", "winpty_open failed: %s", s.openErr.msg.c_str()); }
    else if (in) {
        stat("squatted");
        if (ok) violation("peer-not-verified", "winpty_open succeeded although another process is connected to %s", victim.c_str());
        if (!got.empty()) violation("peer-not-verified", "the library sent %zu bytes to another process", got.size());
    } else if (!ok) violation("open-failed", "winpty_open failed: %s", s.openErr.msg.c_str());
    stop = true;
    if (ok) s.close();
    if (it) joinThread(it);
    if (!waitFor([] { return agentCount(true) == 0; }, 60000)) violation("agent-orphan", "an agent is still running");
}

// Names. The whole scenario runs twice with nothing but the random source's output changed.
namespace {
std::vector<std::string> namesOnce(uint64_t seed, uint64_t salt, bool random, bool &bad, unsigned char flip = 0) {
    Rng r(seed * 13 + 9); pickSchedule(r); g->cfg.pStall = 0; pickOs(r); g->cfg.noRtlGenRandom = false; g->cfg.rndSalt = salt; g->cfg.rndXor = flip;
    int src = r.below(4);            // which sources work
    if (random) { if (src == 1) g->cfg.noRtlGenRandom = true; if (src == 2) g->cfg.noCrypt = true; }
    else { g->cfg.noRtlGenRandom = r.chance(0.5); if (g->cfg.noRtlGenRandom) { if (src == 0) g->cfg.noCrypt = true; else { g->client->faultArmed = true; g->client->failName = "CryptGenRandom"; } } else { g->client->faultArmed = true; g->client->failName = "RtlGenRandom"; }
        if (src == 3) { g->client->faultArmed = false; g->cfg.weakRandom = true; } }
    g->client->failAt = -1;
    auto agent = realAgent(); bool fa = g->client->faultArmed; std::string fn = g->client->failName;
    if (fa) g->programs[u"winpty-agent.exe"] = [=](Process &p) -> int { p.faultArmed = true; p.failAt = -1; p.failName = fn; return agent(p); };
    loadLibwinpty();
    int nt = random ? 1 + (r.below(2)) : r.range(2, 5), each = nt > 2 ? 1 : r.range(1, 2); UINT64 fl = r.below(2);
    std::vector<Thread*> ts;
    for (int t = 0; t < nt; t++) ts.push_back(spawnThread(g->client, "t", [=, &bad] {
        for (int k = 0; k < each; k++) { Cfg c; c.flags = fl; Outcome o; winpty_t *wp = doOpen(c, true, o); if (!wp) { violation("open-failed", "winpty_open failed: %s", o.e.msg.c_str()); bad = true; return; } if (k % 2) sleepMs(5); api.free(wp); }
    }));
    for (auto t : ts) joinThread(t);
    checkAgentsGone("end");
    std::vector<std::string> v; for (auto &n : g->pipeNamesCreated) v.push_back(u8(lower(n)));
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (v[i] == v[j]) violation("name-collision", "two pipes were called %s (%zu names)", v[i].c_str(), v.size());
    stat("names", v.size());
    return v;
}
}
SCENARIO(names) {
    bool bad = false; uint64_t seed = params.num("seed", 1);
    int fd[2]; if (::pipe(fd)) finish(2);
    unsigned char flip = seed % 2 ? 0 : (unsigned char)(1 << (seed / 2 % 8));      // other random bytes, or the same with one bit of each turned over
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { auto v = namesOnce(seed, flip ? 0 : 1, true, bad, flip); std::string s; for (auto &n : v) s += n + "\n"; (void)!::write(fd[1], s.data(), s.size()); fflush(stdout); _exit(0); }
    ::close(fd[1]); std::string s; char b[4096]; ssize_t n; while ((n = ::read(fd[0], b, sizeof b)) > 0) s.append(b, n); ::close(fd[0]); int st; waitpid(pid, &st, 0);
    auto v = namesOnce(seed, 0, true, bad);
    std::vector<std::string> w; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); w.push_back(s.substr(p, e - p)); p = e + 1; }
    if (bad || violations) return;
    if (w.size() != v.size()) { if (st) { note("HARNESS the twin failed"); finish(2); } violation("names", "%zu and %zu names", v.size(), w.size()); return; }
    // the order of creation does not depend on the random bytes, so the i-th names belong to the same object
    for (size_t i = 0; i < v.size(); i++) {
        size_t diff = 0, len = std::max(v[i].size(), w[i].size());
        for (size_t k = 0; k < len; k++) if (k >= v[i].size() || k >= w[i].size() || v[i][k] != w[i][k]) diff++;
        if (flip && !diff) violation("predictable-name", "the name %s does not depend on bit %#x of the random bytes", v[i].c_str(), flip);
        if (!flip && diff < 10) violation("predictable-name", "only %zu characters of the name %s depend on the random source (other run: %s)", diff, v[i].c_str(), w[i].c_str());
        stat("names.compared"); if (!flip) statMax("random.chars", diff); else stat("names.flipped");
    }
}
SCENARIO(namesnorandom) { bool bad = false; namesOnce(params.num("seed", 1) + 77777, 0, false, bad); }

// Desktops.
SCENARIO(desktop) {
    Rng r(params.num("seed", 1) * 17 + 1); pickSchedule(r); g->cfg.pStall = 0; pickOs(r);
    if (r.chance(0.4)) { bool xp = r.chance(0.5); g->cfg.osMajor = xp ? 5 : 6; g->cfg.osMinor = xp ? 1 : 0; g->cfg.newConsole = false; }
    static const char *dbg[] = {"", "", "", "force_desktop", "force_desktop_spawn", "force_desktop_curproc", "no_desktop", "force_desktop,no_desktop", "force_sw_hide", "no_sw_hide", "show_console", "trace,force_desktop", "force_desktop_curproc,trace", "trace"};
    std::string d = dbg[r.below(14)]; if (!d.empty()) g->client->env["WINPTY_DEBUG"] = d;
    // where the caller lives
    initDesktop(g->client); std::string home = "WinSta0\\Default";
    std::shared_ptr<WinSta> ws = g->client->winsta; std::shared_ptr<Desktop> dt = g->client->desktop; HANDLE hold = nullptr; (void)hold;
    if (r.chance(0.4)) { if (r.chance(0.5)) ws = makeWinSta(); dt = makeDesktop(ws, r.chance(0.5) ? u"Work" : u"My Desktop 2"); g->client->winsta = ws; g->client->desktop = dt; }
    home = u8(ws->name) + "\\" + u8(dt->name);
    loadLibwinpty();
    { Puppet pp; g->programs[u"child.exe"] = pp.program(); Session s; SessionOpts o; if (s.open(o)) { pp.quit = true; s.close(); } waitFor([] { return agentCount(true) == 0; }, 40000); }   // one-off caches
    Baseline b = baseline();
    static const char *apis[] = {"GetProcessWindowStation", "CreateWindowStationW", "SetProcessWindowStation", "CreateDesktopW", "GetUserObjectInformationW", "GetThreadDesktop", "CreateProcessW"};
    int rounds = r.range(1, 3);
    for (int k = 0; k < rounds && !violations; k++) {
        Puppet pp; g->programs[u"child.exe"] = pp.program();
        bool agentSide = false; std::string fail; auto agent = realAgent();
        if (r.chance(0.5)) { fail = apis[r.below(7)]; agentSide = r.chance(0.5); if (agentSide) g->programs[u"winpty-agent.exe"] = [=](Process &p) -> int { p.mayThrow = true; p.faultArmed = true; p.failAt = -1; p.failName = fail; p.failError = ERROR_ACCESS_DENIED; return agent(p); }; else { g->client->faultArmed = true; g->client->failAt = -1; g->client->failName = fail; g->client->failError = ERROR_ACCESS_DENIED; } }
        size_t n0 = g->createLog.size(), p0 = g->procs.size();
        Session s; SessionOpts o; o.flags = (r.chance(0.5) ? 8 : 0) | (r.chance(0.2) ? 1 : 0); o.timeout = 6000;
        bool ok = s.open(o);
        g->client->faultArmed = false; g->client->failName.clear(); bool childFault = agentSide && ok && fail == "CreateProcessW"; g->programs[u"winpty-agent.exe"] = agent;
        if (!ok && fail.empty()) violation("open-failed", "winpty_open failed: %s", s.openErr.msg.c_str());
        if (g->client->winsta != ws || g->client->desktop != dt) violation("desktop", "winpty_open (%s, failing: %s) left the caller on %s\\%s; it was on %s", ok ? "ok" : "failed", fail.c_str(), u8(g->client->winsta->name).c_str(), u8(g->client->desktop->name).c_str(), home.c_str());
        stat("opens.checked"); if (!ok) stat("opens.failed"); if (!fail.empty()) stat("faulted.opens");
        // nothing of the background desktop stays open in the caller
        for (auto &kv : g->client->handles) if ((kv.second.obj->type == OT::WinSta && kv.second.obj != ws) || (kv.second.obj->type == OT::Desktop && kv.second.obj != dt)) violation("desktop", "the caller still holds %s from %s", kv.second.obj->type == OT::WinSta ? "a window station" : "a desktop", kv.second.origin);
        bool bg = false; for (size_t i = p0; i < g->procs.size(); i++) { auto q = g->procs[i]; if (q->desktop && q->desktop != dt) bg = true; }
        if (bg) stat("background");
        if (ok) {
            if (!waitFor([] { return agentCount(true) == 1; }, 20000)) violation("desktop", "%d agents are running for one session", agentCount(true));
            if (r.chance(0.8)) {
                SpawnArgs a; auto q = doSpawn(s.wp, a);
                if (!q.ok && !childFault) violation("spawn-failed", "winpty_spawn failed: %s", q.e.msg.c_str());
                if (q.ok) {
                    waitFor([&] { return pp.started || agentCount(true) == 0; }, 20000);
                    if (!pp.started) violation("child-desktop", "the program could not start");
                    else { auto cd = pp.p->desktop; std::string at = cd ? u8(cd->wsName) + "\\" + u8(cd->name) : "?"; if (cd != dt) violation("child-desktop", "the program was started on %s; the caller is on %s", at.c_str(), home.c_str()); stat("children.checked"); }
                }
            }
            pp.quit = true; s.close();
        }
        (void)n0; pp.quit = true;
        if (!waitFor([] { return agentCount(true) == 0; }, 60000)) violation("agent-orphan", "an agent is still running 60 s after the end of the session");
        for (auto q : g->procs) if (q != g->client && !q->exited) { waitFor([q] { return q->exited; }, 5000); if (!q->exited) killProcess(q, 0, "end"); }
        checkBaseline(b, "after the session", false);
    }
}
