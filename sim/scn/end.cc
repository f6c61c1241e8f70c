// How sessions end: programs that exit, clients that close or die, readers that are slow, late or gone.
#include "common.h"
using namespace sim;

namespace {
// A program that prints numbered lines; every reader must see all of them, once, in order, whenever it reads.
struct Printer { int o = 0, e = 0; HANDLE ho = nullptr, he = nullptr;
    void print(Rng &r, int n, bool conerr, int pad) {
        ho = hOut(); he = hErr();
        for (int i = 0; i < n; i++) { bool toErr = conerr && r.chance(0.4); int &k = toErr ? e : o; char b[40]; snprintf(b, sizeof b, "%c%d", toErr ? 'e' : 'o', k++); ustr s = A(b) + ustr(r.below((uint32_t)pad + 1), u'-') + u"\r\n"; childWrite(toErr ? he : ho, s); if (r.chance(0.03)) sleepMs(r.range(1, 40)); if ((o + e) % 400 == 399) sleepMs(80); }
    }
};
void checkLines(Vt &vt, char tag, int n, const char *when) {
    if (vt.nErr) { violation("stream", "%s: %s", when, vt.errors.c_str()); return; }
    int want = 0;
    for (auto &kv : vt.lines) { std::string t = vt.rowText(kv.first); if (t.empty()) continue; int k = -1; char c = 0; if (sscanf(t.c_str(), "%c%d", &c, &k) != 2 || c != tag || k != want) { violation("lost-output", "%s: the terminal shows [%s] where line %c%d belongs (of %d)", when, t.c_str(), tag, want, n); return; } want++; }
    if (want != n) violation("lost-output", "%s: the output ended after %d of the %d lines the program had written", when, want, n);
    else stat("complete.streams");
}
bool alive(Process *p) { return p && !p->exited; }
}

// The program exits: everything it wrote arrives, then the pipes end.
SCENARIO(shutdown) {
    Rng r(params.num("seed", 1) * 61 + 3); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; o.cols = r.range(12, 120); o.rows = r.range(3, 50);
        bool conerr = r.chance(0.35), late = r.chance(0.3); if (conerr) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.25)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; o.connect = !late;
        UINT64 sf = r.below(4); bool autoShut = sf & WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN, exitAfter = sf & WINPTY_SPAWN_FLAG_EXIT_AFTER_SHUTDOWN;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Printer pr; int n = r.chance(0.3) ? r.range(200, 1500) : r.chance(0.2) ? 0 : r.range(0, 60), code = r.range(0, 5); uint64_t seed = r.next(); auto exitedAt = std::make_shared<uint64_t>(0);
        int pauseMode = r.below(4); // 0 prompt reader, 1 slow reader, 2 paused until after the exit, 3 paused and resumed repeatedly
        auto setup = [&](Reader &q) { q.chunkMax = r.chance(0.5) ? 4096 : r.range(1, 200); if (pauseMode == 1) { q.pSlow = n > 200 ? 0.02 : 0.3; q.slowMs = 20; q.chunkMax = std::max(q.chunkMax, 40); } if (pauseMode >= 2) q.paused = true; };
        setup(s.out); setup(s.errOut);
        bool grand = r.chance(0.2); Puppet gp;                     // another program left behind in the console
        if (grand) g->programs[u"grand.exe"] = gp.program();
        Program prog = [&, seed](Process &p) -> int {
            Rng q(seed); (void)p;
            if (grand) { STARTUPINFOW si = {}; si.cb = sizeof si; PROCESS_INFORMATION pi = {}; ustr cmd = u"C:\\bin\\grand.exe"; if (CreateProcessW(nullptr, (LPWSTR)&cmd[0], nullptr, nullptr, FALSE, 0, nullptr, nullptr, &si, &pi)) { CloseHandle(pi.hProcess); CloseHandle(pi.hThread); } }
            if (q.chance(0.3)) sleepMs(q.range(1, 200));
            pr.print(q, n, conerr, o.cols - 8);
            if (q.chance(0.3)) sleepMs(q.range(1, 60));
            *exitedAt = g->nowUs; return code;
        };
        if (!s.spawn(prog, sf, true)) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        if (!waitFor([&] { if (pauseMode == 3 && g->rng.chance(0.01)) { s.out.paused = !s.out.paused; s.errOut.paused = !s.errOut.paused; } return *exitedAt != 0; }, 600000)) violation("child-stuck", "the program could not finish writing");
        DWORD got = 0; WaitForSingleObject(s.childProc, 10000); GetExitCodeProcess(s.childProc, &got); if ((int)got != code) violation("exit-code", "the process handle reports exit code %u instead of %d", (unsigned)got, code);
        if (r.chance(0.5)) sleepMs(r.range(1, 3000));
        bool agentWasAlive = alive(s.agent);
        if (exitAfter && autoShut && pauseMode >= 2 && !agentWasAlive && n * 10 > 30000) violation("exit-early", "the agent has exited before its output was read");
        if (late) { if (autoShut && !agentWasAlive) violation("exit-early", "the agent exited before the output pipe was ever connected"); else s.connectPipes(); }
        s.out.paused = s.errOut.paused = false;
        if (autoShut) {
            uint64_t t0 = g->nowUs;
            if (!waitFor([&] { return s.out.closed && (!conerr || s.errOut.closed); }, 120000)) violation("pipe-never-closed", "the output pipes are still open %d s after the program exited", 120);
            else if (pauseMode != 1 && g->nowUs - t0 > 60000000) violation("pipe-late", "the output pipes took %llu ms to end after the program had exited", (unsigned long long)((g->nowUs - t0) / 1000));
            if (!s.out.eof) violation("pipe-end", "the output pipe ended with error %u instead of an ordinary end", (unsigned)s.out.err);
            s.feed(); checkLines(s.vt, 'o', pr.o, "at the end of conout"); if (conerr) checkLines(s.vtErr, 'e', pr.e, "at the end of conerr");
            stat("ended"); if (late) stat("late.connect"); if (pauseMode >= 2) stat("paused");
            if (exitAfter) {
                if (!waitFor([&] { return !alive(s.agent); }, 60000)) violation("agent-stays", "the agent is still running 60 s after the output ended although exit-after-shutdown was given");
                stat("exited.agents");
            } else {
                sleepMs(r.range(500, 5000));
                if (!alive(s.agent)) violation("agent-left", "the agent exited by itself after auto-shutdown");
                else { if (!s.resize(o.cols, o.rows)) violation("rpc-after-shutdown", "winpty_set_size failed after auto-shutdown"); int v[64]; winpty_error_ptr_t e = nullptr; int c = api.get_console_process_list(s.wp, v, 64, &e); if (c < 1) violation("rpc-after-shutdown", "winpty_get_console_process_list failed after auto-shutdown: %s", takeErr(e).msg.c_str()); }
            }
        } else {
            s.quiesce(); sleepMs(r.range(1000, 20000)); s.feed();
            checkLines(s.vt, 'o', pr.o, "after the program exited"); if (conerr) checkLines(s.vtErr, 'e', pr.e, "after the program exited");
            if (s.out.closed || (conerr && s.errOut.closed)) violation("pipe-closed", "an output pipe ended although auto-shutdown was not given");
            if (!alive(s.agent)) violation("agent-left", "the agent exited by itself although auto-shutdown was not given");
            else if (!s.resize(o.cols + 1, o.rows)) violation("rpc-after-exit", "winpty_set_size failed after the program had exited");
            if (grand) { gp.run([] { childWrite(hOut(), u"\r\nlast words\r\n"); }); s.quiesce(); bool f = false; for (auto &kv : s.vt.lines) if (s.vt.rowText(kv.first).find("last words") != std::string::npos) f = true; if (!f) violation("lost-output", "the output of a second program in the console was lost"); }
            stat("kept.open");
        }
        if (violations && params.has("dump")) fprintf(stderr, "conout: %s\n", esc(s.out.data, 1000000).c_str());
        if (!s.out.data.empty()) stat("nontrivial");
        gp.quit = true;
        s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

// The client goes away at any moment, with or without saying so.
SCENARIO(clientgone) {
    Rng r(params.num("seed", 1) * 67 + 5); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    if (r.chance(0.15)) g->client->env["WINPTY_DEBUG"] = "trace,show_input";
    loadLibwinpty(); Baseline bl = baseline(); std::set<uintptr_t> had; for (auto &kv : g->client->handles) had.insert(kv.first);
    {
        Session s; SessionOpts o; o.cols = r.range(2, 120); o.rows = r.range(2, 50); if (r.chance(0.25)) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.2)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; o.connect = r.chance(0.8);
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        int paused = r.below(3); if (paused == 2) s.out.paused = s.errOut.paused = true;
        // several programs in the console, some of which ignore the close event
        Puppet pp[3]; int programs = r.below(4); std::vector<std::u16string> names; std::vector<Process*> ps;
        if (programs) { if (!s.spawn(pp[0].program(), r.below(4))) violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); else { waitFor([&] { return pp[0].started; }, 10000); ps.push_back(pp[0].p); } }
        for (int i = 1; i < programs; i++) { char b[20]; snprintf(b, sizeof b, "other%d.exe", i); g->programs[A(b)] = pp[i].program(); ustr cmd = u"C:\\bin\\" + A(b);
            pp[0].run([&] { STARTUPINFOW si = {}; si.cb = sizeof si; PROCESS_INFORMATION pi = {}; if (CreateProcessW(nullptr, (LPWSTR)&cmd[0], nullptr, nullptr, FALSE, 0, nullptr, nullptr, &si, &pi)) { CloseHandle(pi.hProcess); CloseHandle(pi.hThread); } });
            waitFor([&] { return pp[i].started; }, 10000); if (pp[i].p) ps.push_back(pp[i].p); }
        uint64_t seed = r.next(); auto stop = std::make_shared<bool>(false);
        // what is going on when it happens
        int busy = r.below(6);
        if (programs && busy == 0) pp[0].post([seed, stop] { Rng q(seed); for (int i = 0; i < 3000 && !*stop; i++) { childWrite(hOut(), u"a line of output that nobody may ever read\r\n"); if (q.chance(0.1)) sleepMs(q.range(1, 20)); } });
        if (programs && busy == 1) pp[0].post([] { SMALL_RECT w = {0, 0, 9, 4}; (void)w; CONSOLE_CURSOR_INFO ci = {25, FALSE}; HANDLE h = CreateConsoleScreenBuffer(GENERIC_READ | GENERIC_WRITE, 3, nullptr, CONSOLE_TEXTMODE_BUFFER, nullptr); SetConsoleCursorInfo(h, &ci); SetConsoleActiveScreenBuffer(h); childWrite(h, u"full screen"); });
        bool die = r.chance(0.6); Thread *rpc = nullptr; auto rpcDone = std::make_shared<bool>(true);
        if (die && busy == 2) {                                   // an RPC is in progress in another thread
            *rpcDone = false; winpty_t *wp = s.wp;
            rpc = spawnThread(g->client, "rpc", [=] { Rng q(seed); for (int i = 0; i < 50; i++) { winpty_error_ptr_t e = nullptr; bool ok = api.set_size(wp, q.range(2, 200), q.range(2, 80), &e) != 0; takeErr(e); if (!ok) break; } ApiScope sc("done"); *rpcDone = true; });
        }
        if (busy == 3 && s.conin && s.conin != INVALID_HANDLE_VALUE) { std::string b; for (int i = 0; i < 3000; i++) b += (char)r.range(0x20, 0x7e); s.write(b); }
        if (busy == 4) { if (!s.resize(r.range(2, 200), r.range(2, 100))) violation("resize", "winpty_set_size failed"); }
        if (busy == 5 && s.conin && s.conin != INVALID_HANDLE_VALUE) s.write("\x1b[1;");
        long at = r.range(0, 3000); Process *agent = s.agent; at += agent->apiCalls;
        if (r.chance(0.7)) waitFor([&] { return agent->apiCalls >= at || agent->exited; }, 2000); else sleepMs(r.range(0, 200));
        int before = s.con->closeMsgs; bool autoDone = agent->exited; (void)autoDone; (void)before;
        if (die) {                                                // every handle of the client disappears
            if (s.agentHandle) {}
            g->client->strictHandles = false;
            { ApiScope sc("die"); std::vector<uintptr_t> v; for (auto &kv : g->client->handles) if (!had.count(kv.first)) v.push_back(kv.first); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((uint32_t)i)]);
              for (auto h : v) { auto ob = g->client->handles[h].obj; if (ob->type == OT::Pipe || ob->type == OT::Process || ob->type == OT::Thread || ob->type == OT::Desktop || ob->type == OT::WinSta) g->client->close((HANDLE)h); } }
            stat("died");
        } else { if (paused == 2) after(5000000, [&s] { s.out.paused = s.errOut.paused = false; }); s.close(); stat("closed"); }
        uint64_t t0 = g->nowUs;
        if (!waitFor([&] { return agent->exited; }, 40000)) violation("agent-orphan", "the agent is still running 40 s after its client had %s", die ? "died" : "closed the session");
        statMax("max.agent_exit_ms", (g->nowUs - t0) / 1000);
        if (agent->exited && !strcmp(agent->exitWhy, "abort")) violation("agent-abort", "the agent stopped at a failed assertion");
        *stop = true;
        for (auto p : ps) { if (!waitFor([&] { return p->exited; }, 60000)) violation("child-orphan", "a program is still running in the console of a session that is gone"); else stat("programs.ended"); }
        if (s.con->alive && !waitFor([&] { return !s.con->alive; }, 5000)) violation("console-orphan", "the console of a session that is gone still exists");
        stat("nontrivial");
        if (rpc) { if (!waitFor([&] { return *rpcDone; }, 60000)) violation("blocked", "a call is still blocked after the agent has gone"); else joinThread(rpc); }
        if (die) { stat("sessions"); return; }                    // (the client is dead: nothing more to check in it)
        checkBaseline(bl, "end");
    }
}

// Nothing but the client ends a session.
SCENARIO(longlife) {
    Rng r(params.num("seed", 1) * 71 + 7); pickSchedule(r); pickOs(r); g->cfg.pStall = 0; g->cfg.pSwitch = std::min(g->cfg.pSwitch, 0.15);
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; o.cols = r.range(2, 120); o.rows = r.range(2, 50); bool conerr = r.chance(0.25); if (conerr) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.2)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        o.timeout = r.chance(0.5) ? 0 : r.range(1000, 10000);
        o.connect = r.chance(0.85);
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; bool spawned = r.chance(0.8), exits = r.chance(0.5); UINT64 sf = r.below(4); bool autoShut = sf & 1, exitAfter = sf & 2;
        if (!o.connect) exitAfter = false, sf &= 1;
        auto idle = [&](int ms) { sleepMs(ms); };
        if (r.chance(0.4)) idle(r.range(1000, 60000));
        if (spawned && !s.spawn(pp.program(), sf)) violation("spawn", "winpty_spawn failed after the session had been idle: %s", s.spawnErr.msg.c_str());
        if (spawned) pp.run([] { childWrite(hOut(), u"hello\r\n"); });
        // the client drops some of its pipes
        int drop = r.below(5); bool outGone = false;
        if (o.connect) {
            if (drop == 1 || drop == 3) { CloseHandle(s.conin); s.conin = nullptr; stat("conin.dropped"); }
            if (drop == 2 || drop == 3) { sleepMs(50); s.out.paused = true; sleepMs(50); { ApiScope sc("drop"); g->client->close(s.out.h); } s.out.paused = false; outGone = true; stat("conout.dropped"); if (conerr) { ApiScope sc("drop"); g->client->close(s.errOut.h); } }
        }
        int rounds = r.range(2, 5);
        for (int i = 0; i < rounds && !violations; i++) {
            idle(r.chance(0.2) ? r.range(60000, 400000) : r.range(100, 20000));
            if (i == 1 && spawned && exits) { pp.quit = true; waitFor([&] { return pp.p->exited; }, 10000); sleepMs(500); }
            bool mayExit = spawned && exits && i >= 1 && autoShut && exitAfter;
            if (s.agent->exited && !mayExit) { violation("agent-left", "the agent exited by itself (%s, code %#x)%s%s", s.agent->exitWhy, (unsigned)s.agent->exitCode, s.conin ? "" : "; conin is closed", outGone ? "; conout is closed" : ""); break; }
            if (s.agent->exited) break;
            if (!mayExit) {
                if (!s.resize(r.range(2, 150), r.range(2, 60))) violation("rpc-failed", "winpty_set_size failed on a long-lived session");
                if (spawned && !(exits && i >= 1)) { int k = r.below(1000); char b[40]; snprintf(b, sizeof b, "n%d\r\n", k); pp.run([&] { childWrite(hOut(), A(b)); });
                    if (o.connect && !outGone) { s.quiesce(); snprintf(b, sizeof b, "n%d", k); bool f = false; for (auto &kv : s.vt.lines) if (s.vt.rowText(kv.first).find(std::string(b).substr(0, 1)) != std::string::npos) f = true; if (!f) violation("lost-output", "nothing arrived"); } }
                stat("kept.alive"); stat("nontrivial");
            }
        }
        pp.quit = true; if (outGone) { s.out.closed = true; }
        // a dropped output pipe has no reader left to join
        if (outGone) { waitFor([] { return false; }, 10); }
        if (s.wp) api.free(s.wp); s.wp = nullptr;
        if (s.conin && s.conin != INVALID_HANDLE_VALUE) CloseHandle(s.conin); s.conin = nullptr;
        for (auto q : {&s.out, &s.errOut}) if (q->t) { joinThread(q->t); if (!outGone) CloseHandle(q->h); q->t = nullptr; }
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
