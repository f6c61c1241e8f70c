// The library's API: arguments, outputs and error objects, against the real agent and against agents that misbehave.
#include "apih.h"

// Agents with arbitrary replies.
SCENARIO(apireply) {
    Rng r(params.num("seed", 1)); pickSchedule(r); g->cfg.pStall = 0;
    bool old = r.chance(0.15); if (old) { g->cfg.osMajor = r.chance(0.5) ? 6 : 5; g->cfg.osMinor = g->cfg.osMajor == 6 ? 0 : 1; g->cfg.newConsole = false; }
    bool tracing = r.chance(0.1); if (tracing) g->client->env["WINPTY_DEBUG"] = "trace";
    const bool prompt = r.chance(0.35); if (prompt) { g->cfg.pPendingIo = 0; g->cfg.ioLatencyUs = 0; }   // a transfer is complete as soon as the data is there: a whole reply counts even if the agent then exits at once
    loadLibwinpty(); miscNull();
    Baseline b = baseline();
    int sessions = r.range(1, 4);
    for (int k = 0; k < sessions; k++) {
        auto f = std::make_shared<Fake>(r.next()); auto d = std::make_shared<Fake>(r.next());
        f->fragment = r.chance(0.3); f->gap = f->fragment && r.chance(0.5) ? 3 : 0; d->fragment = f->fragment;
        Cfg c; c.flags = anyFlags(r); if (r.chance(0.5)) c.flags &= ~8ull; c.timeout = r.range(500, 4000); c.cols = r.range(1, 400); c.rows = r.range(1, 200); c.mouse = r.below(3);
        bool conerr = c.flags & 1;
        bool useDesk = old && !(c.flags & 8);
        d->plan.push_back(Wire().str(u"").packet()); if (r.chance(0.3)) d->plan[0] = mutate(r, d->plan[0]); d->then.push_back(r.chance(0.1) ? Exit : Stay);
        ustr n1 = u"\\\\.\\pipe\\" + anyText(r, r.range(1, 60)), n2 = u"\\\\.\\pipe\\" + anyText(r, r.range(1, 60)), n3 = u"\\\\.\\pipe\\" + anyText(r, r.range(1, 60));
        if (r.chance(0.1)) n1.clear(); if (r.chance(0.1)) n2.clear();
        double bad = r.chance(0.4) ? 0 : 0.3;
        std::string op = validOpen(n1, n2, conerr, n3); if (r.chance(bad)) op = mutate(r, op);
        f->plan.push_back(op); f->then.push_back(r.chance(bad / 3) ? Exit : Stay);
        int calls = r.range(0, 6);
        struct Call { int kind; std::vector<int> pids; bool wantP, wantT; int c, rr, cap; }; std::vector<Call> cs; bool spawned = false;
        for (int i = 0; i < calls; i++) {
            Call x; x.kind = r.below(3); if (x.kind == 0 && spawned) x.kind = 1; x.wantP = r.chance(0.5); x.wantT = r.chance(0.5); x.c = r.range(1, 30000); x.rr = r.range(1, 30000); x.cap = r.below(2) ? r.below(4) : r.below(120);
            std::string rep;
            if (x.kind == 0) { spawned = true; rep = r.chance(0.4) ? Wire().i32(0).i32(r.chance(0.9) ? (int)r.range(1, 70000) : 0x80004005).packet() : "H"; }   // H: made by the agent, it needs its own handles
            else if (x.kind == 1) rep = Wire().packet();
            else { Wire w; int n = r.below(3) ? r.range(1, 6) : r.range(1, 150); int say = r.chance(0.1) ? (int)r.range(-5, 300) : n; w.i32(say); for (int j = 0; j < n; j++) w.i32(r.range(4, 100000)); rep = w.packet(); }
            if (rep != "H" && r.chance(bad)) rep = mutate(r, rep);
            cs.push_back(x); f->plan.push_back(rep); f->then.push_back(r.chance(bad / 3) ? Exit : Stay);
        }
        bool cutShort = r.chance(0.15) && f->plan.size() > 1; if (cutShort) { f->plan.resize(1 + r.below((uint32_t)f->plan.size())); f->then.resize(f->plan.size()); }
        int mutH = r.below(6);
        g->programs[u"winpty-agent.exe"] = [f, d, mutH](Process &p) -> int {
            p.name = "agent-fake"; p.strictHandles = false;
            auto argv = parseCommandLine(p.cmdline);
            if (argv.size() > 2 && argv[2] == u"--create-desktop") { serve(*d, true); return 0; }
            f->proc = &p;
            for (size_t i = 0; i < f->plan.size(); i++) if (f->plan[i] == "H") {
                // the program the agent would have started: any process object will do
                auto kid = createProcess("kid", &p); kid->prog = [](Process&) { return 0; };
                int64_t hp = (int64_t)(intptr_t)p.add(kid->obj, PROCESS_ALL_ACCESS, "fake process"), ht = (int64_t)(intptr_t)p.add(std::make_shared<ThreadObj>(kid), THREAD_ALL_ACCESS, "fake thread");
                kid->exited = true;
                f->handleValues = {hp, ht};
                if (mutH == 1) ht = 0; if (mutH == 2) ht = 0x7FFF0; if (mutH == 3) hp = 0x123450; if (mutH == 4) hp = ht = 0;
                f->plan[i] = Wire().i32(1).i64(hp).i64(ht).packet(); f->handleValues = {hp, ht};
            }
            serve(*f, false);
            return 0;
        };
        Outcome o; bool we = r.chance(0.8);
        winpty_t *wp = doOpen(c, we, o); stat("api.calls");
        uint64_t slackUs = 400000;
        // ---- expected result of the open
        auto late = [&](const char *what, Outcome &oo, Fake &ff) {
            uint64_t from = std::max(oo.t0, ff.lastActive);
            if (oo.t1 > from + (uint64_t)c.timeout * 1000 + slackUs) violation("late", "%s returned %llu ms after the agent's last activity; the timeout is %u ms", what, (unsigned long long)((oo.t1 - from) / 1000), (unsigned)c.timeout);
        };
        auto judgeFail = [&](const char *what, Outcome &oo, int why, Fake &ff) {
            if (oo.hadErr) {
                if (why == 1 && oo.e.code != WINPTY_ERROR_UNSPECIFIED && oo.e.code != WINPTY_ERROR_OUT_OF_MEMORY && !(ff.gone)) violation("error-code", "%s: malformed reply reported as code %u (%s)", what, (unsigned)oo.e.code, oo.e.msg.c_str());
                if (why == 2 && !ff.gone && !(oo.e.msg.find("ConnectNamedPipe") != std::string::npos) && oo.e.code != WINPTY_ERROR_AGENT_TIMEOUT) violation("error-code", "%s: a silent agent was reported as code %u (%s)", what, (unsigned)oo.e.code, oo.e.msg.c_str());
                bool noConn = oo.e.msg.find("ConnectNamedPipe") != std::string::npos;   // it came and went before the library looked
                if (why == 2 && noConn && (ff.gone || ff.then[0] == Exit)) {} else
                if (why == 2 && ff.gone && oo.e.code != WINPTY_ERROR_AGENT_DIED && oo.e.code != WINPTY_ERROR_LOST_CONNECTION && oo.e.code != WINPTY_ERROR_AGENT_TIMEOUT) violation("error-code", "%s: a dead agent was reported as code %u (%s)", what, (unsigned)oo.e.code, oo.e.msg.c_str());
                if (oo.e.code == WINPTY_ERROR_AGENT_TIMEOUT && oo.t1 - oo.t0 + 20000 < (uint64_t)c.timeout * 1000) violation("early", "%s reported a timeout after %llu ms; the timeout is %u ms", what, (unsigned long long)((oo.t1 - oo.t0) / 1000), (unsigned)c.timeout);
            }
            if (ff.gone && why == 2 && oo.t1 > std::max(ff.goneAt, oo.t0) + slackUs) violation("late", "%s returned %llu ms after the agent had exited", what, (unsigned long long)((oo.t1 - ff.goneAt) / 1000));
            late(what, oo, ff);
            stat("bad.replies");
        };
        bool openOk = true; int why = 0; std::string pl;
        if (useDesk) {
            why = takePacket(d->stream, pl); if (!why) { Unwire u(pl); ustr nm = u.str(); if (!u.end()) why = 1; else if (!nm.empty()) why = 3; }
            if (why) { openOk = false; if (wp) violation("bad-reply-accepted", "winpty_open succeeded although the desktop agent's reply was malformed or short"); else if (why != 3) judgeFail("winpty_open (desktop agent)", o, why, *d); }
        }
        if (useDesk && openOk && !wp && d->then[0] == Exit) openOk = false;   // the desktop agent's death was noticed first
        if (openOk) {
            why = takePacket(f->stream, pl); ustr a1, a2, a3;
            if (!why) { Unwire u(pl); a1 = u.str(); a2 = u.str(); if (conerr) a3 = u.str(); if (!u.end()) why = 1; }
            bool died = f->then[0] == Exit;
            if (why) { openOk = false; if (wp) violation("bad-reply-accepted", "winpty_open succeeded although the agent's reply was %s", why == 1 ? "malformed" : "incomplete"); else judgeFail("winpty_open", o, why, *f); }
            else if (!wp && !died) { openOk = false; violation("good-reply-refused", "winpty_open failed (code %u, %s) although the agent's reply was in order", (unsigned)o.e.code, o.e.msg.c_str()); }
            else if (!wp) openOk = false;
            else {
                if (W(api.conin_name(wp)) != a1 || W(api.conout_name(wp)) != a2) violation("api-contract", "the pipe names are not the ones the agent sent");
                LPCWSTR en = api.conerr_name(wp);
                if (conerr && !a3.empty() ? !en || W(en) != a3 : en != nullptr) violation("api-contract", "winpty_conerr_name is wrong");
                ObjP ap = g->client->get(api.agent_process(wp)); if (!f->proc || ap != f->proc->obj) violation("api-contract", "winpty_agent_process is not the agent's process");
                stat("good.opens");
            }
        }
        if (wp && openOk) {
            bool broken = false; size_t nReq = f->reqs.size();
            for (size_t i = 0; i < cs.size() && openOk; i++) {
                auto &x = cs[i]; Outcome q; const char *nm; bool wErr = r.chance(0.85);
                bool wasGone = f->gone || (f->then.size() > i && f->then[i] == Exit);
                if (x.kind == 0) { SpawnArgs a; a.flags = r.below(4); a.wantP = x.wantP; a.wantT = x.wantT; a.wantCp = r.chance(0.8); a.wantErr = wErr; a.hasApp = r.chance(0.7); a.app = anyText(r, r.range(0, 40)); a.hasCmd = r.chance(0.7); a.cmd = anyText(r, r.chance(0.1) ? 8000 : r.range(0, 60));
                    a.hasCwd = r.chance(0.5); a.cwd = anyText(r, r.range(0, 20)); a.hasEnv = r.chance(0.5); a.env.clear(); if (a.hasEnv) { int ne = r.below(4); for (int z = 0; z < ne; z++) { ustr one = anyText(r, r.range(1, 20)); a.env += one; a.env.push_back(0); } if (ne == 0) a.env.push_back(0); a.env.push_back(0); }
                    nm = "winpty_spawn"; q = doSpawn(wp, a);
                    if (f->reqs.size() > nReq) { auto &rq = f->reqs.back(); if (rq.type != 0 || rq.flags != a.flags || (rq.wantP != 0) != a.wantP || (rq.wantT != 0) != a.wantT || rq.app != (a.hasApp ? a.app : ustr()) || rq.cmd != (a.hasCmd ? a.cmd : ustr()) || rq.cwd != (a.hasCwd ? a.cwd : ustr()) || rq.env != (a.hasEnv ? a.env : ustr())) violation("request-content", "the spawn request does not carry the caller's arguments"); else stat("requests.checked"); }
                } else if (x.kind == 1) { nm = "winpty_set_size"; q = doSize(wp, x.c, x.rr, wErr); if (f->reqs.size() > nReq) { auto &rq = f->reqs.back(); if (rq.type != 1 || rq.cols != x.c || rq.rows != x.rr) violation("request-content", "the resize request does not carry the caller's size"); else stat("requests.checked"); } }
                else { nm = "winpty_get_console_process_list"; q = doList(wp, x.cap, wErr); if (f->reqs.size() > nReq && f->reqs.back().type != 2) violation("request-content", "the process list request is not one"); }
                if (f->reqs.size() > nReq + 1) violation("request-count", "%s sent %zu requests", nm, f->reqs.size() - nReq);
                if (broken) {
                    if (q.ok) violation("stale-reply", "%s succeeded although an earlier request on this session had failed part-way", nm);
                    if (q.t1 > q.t0 + slackUs) violation("late", "%s on a broken session took %llu ms", nm, (unsigned long long)((q.t1 - q.t0) / 1000));
                    if (f->reqs.size() != nReq) violation("stale-reply", "%s was sent although an earlier request on this session had failed part-way", nm);
                    stat("broken.calls"); continue;
                }
                nReq = f->reqs.size();
                std::string p2; int w2 = i + 1 < f->plan.size() && !wasGone ? takePacket(f->stream, p2) : 2;
                DWORD cpErr = 0; int cnt = 0; std::vector<int> pids; bool cpFail = false; bool badHandle = false;
                if (!w2) { Unwire u(p2);
                    if (x.kind == 0) { int res = u.i32(); if (!u.ok) w2 = 1; else if (res == 0) { cpErr = (DWORD)u.i32(); cpFail = true; if (!u.end()) w2 = 1; } else if (res == 1) { int64_t hp = u.i64(), ht = u.i64(); if (!u.end()) w2 = 1; else if (f->gone) badHandle = hp || ht; else badHandle = false; (void)hp; (void)ht; } else w2 = 1; }
                    else if (x.kind == 1) { if (!u.end()) w2 = 1; }
                    else { cnt = u.i32(); if (u.ok && cnt >= 0) for (int j = 0; j < cnt && u.ok; j++) pids.push_back(u.i32()); if (cnt < 0 || !u.end()) w2 = 1; } }
                bool exits = !prompt && f->then.size() > i + 1 && f->then[i + 1] == Exit;   // (its death may be noticed before its last reply)
                bool handlesBad = x.kind == 0 && !w2 && !cpFail && (mutH == 2 || mutH == 3 || (f->then.size() > i + 1 && f->then[i + 1] == Exit));
                bool randomHandles = x.kind == 0 && !w2 && !cpFail && f->plan[i + 1] != Wire().i32(1).i64(f->handleValues.size() ? f->handleValues[0] : -7).i64(f->handleValues.size() > 1 ? f->handleValues[1] : -7).packet();
                if (w2) {
                    if (q.ok) violation("bad-reply-accepted", "%s succeeded although the reply was %s", nm, w2 == 1 ? "malformed" : "missing or incomplete"); else judgeFail(nm, q, w2, *f);
                    broken = true;
                } else if (cpFail) {
                    if (q.ok) violation("bad-reply-accepted", "winpty_spawn succeeded although the agent could not start the program");
                    else if (exits && (!q.hadErr || q.e.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED)) broken = true;
                    else if (q.hadErr && q.e.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) violation("error-code", "winpty_spawn: CreateProcess failure reported as code %u (%s)", (unsigned)q.e.code, q.e.msg.c_str());
                    if (q.cp && q.cp != cpErr) violation("error-code", "winpty_spawn: create_process_error is %u instead of %u", (unsigned)q.cp, (unsigned)cpErr);
                    stat("spawn.failures");
                } else if (handlesBad || randomHandles) { if (!q.ok) broken = true; if (mutH == 2 || mutH == 3) if (q.ok && !randomHandles) violation("bad-reply-accepted", "winpty_spawn succeeded although a handle in the reply is not valid"); }
                else if (!q.ok && wErr && !exits) { violation("good-reply-refused", "%s failed (code %u, %s) although the reply was in order", nm, (unsigned)q.e.code, q.e.msg.c_str()); broken = true; }
                else if (!q.ok) broken = !(x.kind == 2 && !wErr && cnt == 0 && false);
                if (!q.ok && x.kind == 2 && !wErr && !w2 && cnt == 0) broken = false;
                if (q.ok && !w2) {
                    stat("good.replies"); if (prompt && f->then.size() > i + 1 && f->then[i + 1] == Exit) stat("last.words");
                    if (x.kind == 2) { if (q.n != cnt) violation("process-list", "returned %d but the agent said %d", q.n, cnt); if (cnt <= x.cap && q.list != pids) violation("process-list", "the identifiers are not the ones the agent sent"); }
                    if (x.kind == 0 && !randomHandles && !cpFail) {
                        auto one = [&](HANDLE h, bool asked, int64_t remote, OT t, const char *w) {
                            if (!asked || (remote == 0 && !h)) return;
                            ObjP ob = g->client->get(h); if (!ob || ob->type != t) violation("spawn-handle", "the %s handle returned is not a valid %s handle", w, w);
                        };
                        one(q.p, x.wantP, f->handleValues[0], OT::Process, "process"); one(q.t, x.wantT, f->handleValues[1], OT::Thread, "thread");
                    }
                }
                // handles in the reply have been taken over: nothing may be left in the agent
                if (x.kind == 0 && q.ok && f->proc && !f->proc->exited) for (int64_t hv : f->handleValues) if (hv && !randomHandles && f->proc->get((HANDLE)(intptr_t)hv) && f->proc->handles[(uintptr_t)hv].origin[0] == 'f') violation("spawn-handle", "a handle is still open in the agent after it was handed over");
                if (q.p && q.p != kJunkH && g->client->get(q.p)) CloseHandle(q.p);
                if (q.t && q.t != kJunkH && g->client->get(q.t)) CloseHandle(q.t);
            }
        }
        if (wp) api.free(wp);
        waitFor([f] { return !f->proc || f->proc->exited; }, 20000);
        if (f->proc && !f->proc->exited) violation("control-pipe-left-open", "the agent's control pipe is still open after winpty_free (or a failed winpty_open)");
        checkBaseline(b, "after winpty_free");
        stat("sessions");
    }
    // the process is left usable
    g->programs[u"winpty-agent.exe"] = realAgent();
    g->cfg.osMajor = 10; g->cfg.osMinor = 0; g->cfg.newConsole = true;
    { Session s; Puppet pp; if (!s.open(SessionOpts())) violation("unusable-afterwards", "a new session failed: %s", s.openErr.msg.c_str()); else { if (s.spawn(pp.program())) { pp.run([] { childWrite(hOut(), u"fresh"); }); s.quiesce(); if (s.vt.rowText(0) != "fresh") violation("unusable-afterwards", "a new session shows [%s]", s.vt.rowText(0).c_str()); pp.quit = true; } else violation("unusable-afterwards", "spawn in a new session failed: %s", s.spawnErr.msg.c_str()); s.close(); } }
    waitFor([] { return agentCount(true) == 0; }, 40000); checkBaseline(b, "at the end");
}

// The real agent, every kind of argument, with the started program's view checked.
SCENARIO(apireal) {
    Rng r(params.num("seed", 1)); pickSchedule(r); pickOs(r); g->cfg.pStall = 0; conDefaults.minPx = r.chance(0.3) ? 60 : 0;
    if (r.chance(0.1)) g->client->env["WINPTY_DEBUG"] = "trace";
    loadLibwinpty(); miscNull();
    Baseline b = baseline();
    int sessions = r.range(1, 2);
    for (int k = 0; k < sessions; k++) {
        Cfg c; c.flags = anyFlags(r); c.cols = r.chance(0.2) ? r.range(1, 6000) : r.range(1, 200); c.rows = r.chance(0.2) ? r.range(1, 3000) : r.range(1, 100); c.mouse = r.below(3); c.setSize = r.chance(0.8);
        if (r.chance(0.06)) { static const int huge[] = {2501, 3000, 3001, 32767, 32768, 40000, 65535, 65536, 70000, 0x7fffffff}; (r.chance(0.5) ? c.cols : c.rows) = huge[r.below(10)]; stat("huge.initial"); }
        bool conerr = c.flags & 1, wantErr = r.chance(0.7);
        bool xp = !(g->cfg.osMajor > 6 || (g->cfg.osMajor == 6 && g->cfg.osMinor >= 1));
        Outcome o; size_t np0 = g->procs.size(), cl0 = g->createLog.size();
        winpty_t *wp = doOpen(c, wantErr, o); stat("api.calls");
        if (!wp) { violation("open", "winpty_open failed: code %u %s", (unsigned)o.e.code, o.e.msg.c_str()); return; }
        Process *agent = nullptr; for (size_t i = np0; i < g->procs.size(); i++) if (g->client->get(api.agent_process(wp)) == g->procs[i]->obj) agent = g->procs[i];
        if (!agent) { violation("api-contract", "winpty_agent_process is not the agent's process handle"); return; }
        if (agent->exited) violation("agent", "the agent has exited");
        // how the agent was started
        size_t nSpawns = g->createLog.size() - cl0; bool indirect = xp && !(c.flags & 8);
        if (nSpawns != (indirect ? 2u : 1u)) violation("agent-count", "winpty_open started %zu processes", nSpawns);
        auto &ar = g->createLog.back();
        if (!(ar.flags & CREATE_NEW_CONSOLE)) violation("agent-start", "the agent was not given a console of its own");
        if (!(ar.siFlags & STARTF_USESHOWWINDOW) || ar.show != SW_HIDE) violation("agent-start", "the agent's console window is not hidden");
        if (ar.inherit) violation("agent-start", "the agent inherits the caller's handles");
        for (auto h : {api.conin_name(wp), api.conout_name(wp)}) if (!h || !*h) violation("api-contract", "a data pipe has no name");
        if (api.conin_name(wp) != api.conin_name(wp) || W(api.conin_name(wp)) == W(api.conout_name(wp))) violation("api-contract", "the data pipe names are not distinct and stable");
        if (conerr != (api.conerr_name(wp) != nullptr)) violation("api-contract", "winpty_conerr_name is %s", conerr ? "NULL" : "not NULL");
        HANDLE ci = connectPipe(api.conin_name(wp), GENERIC_WRITE), co = connectPipe(api.conout_name(wp), GENERIC_READ), ce = conerr ? connectPipe(api.conerr_name(wp), GENERIC_READ) : nullptr;
        if (ci == INVALID_HANDLE_VALUE || co == INVALID_HANDLE_VALUE || ce == INVALID_HANDLE_VALUE) violation("data-pipe", "a data pipe cannot be opened");
        Reader ro, re; ro.start(co, "conout"); if (conerr) re.start(ce, "conerr");
        auto con = agent->console;
        bool spawned = false; Process *child = nullptr; HANDLE hp = nullptr, ht = nullptr; int lastC = 0, lastR = 0; std::vector<Process*> extra; bool mustExit = false;
        int n = r.range(3, 12);
        Puppet pp; int code = r.range(0, 255);
        for (int i = 0; i < n; i++) {
            wantErr = r.chance(0.8);
            switch (r.below(4)) {
            case 0: {
                int cc = r.chance(0.2) ? r.range(1, 5000) : r.range(1, 250), rr = r.chance(0.2) ? r.range(1, 5000) : r.range(1, 120); if (r.chance(0.03)) { cc = 0x7fffffff; rr = 0x7fffffff; }
                Outcome q = doSize(wp, cc, rr, wantErr); if (!q.ok) violation("resize", "winpty_set_size(%d,%d) failed: %s", cc, rr, q.e.msg.c_str()); lastC = cc; lastR = rr; stat("sizes"); break; }
            case 1: {
                int live = (int)con->procs.size(); int cap = r.below(3) == 0 ? r.range(1, 3) : r.chance(0.5) ? live : r.range(0, live * 2);
                std::set<int> want; for (auto p : con->procs) want.insert(p->pid);
                Outcome q = doList(wp, cap, wantErr);
                std::set<int> now; for (auto p : con->procs) now.insert(p->pid);
                if (now != want) break;                       // changed meanwhile
                if (!q.ok || q.n != (int)want.size()) violation("process-list", "winpty_get_console_process_list(capacity %d) = %d but %zu processes are attached; %s", cap, q.n, want.size(), q.e.msg.c_str());
                else if (q.n <= cap) { std::set<int> got(q.list.begin(), q.list.end()); if (got != want) violation("process-list", "the identifiers are not those of the attached processes"); stat("lists.full"); }
                else stat("lists.short");
                break; }
            default: {
                if (spawned) { if (r.chance(0.5) && child && !child->exited && !mustExit) {    // more programs on the console
                        int m = r.chance(0.2) ? 80 : r.range(1, 5); for (int z = 0; z < m; z++) { auto p = createProcess("grandchild", child); p->prog = [](Process&) { return 0; }; con->attach(p); extra.push_back(p); } }
                    break; }
                SpawnArgs a; a.flags = r.below(4); a.wantErr = wantErr; a.wantP = r.chance(0.5); a.wantT = r.chance(0.5); a.wantCp = r.chance(0.7);
                a.hasApp = r.chance(0.6); a.hasCmd = !a.hasApp || r.chance(0.6); a.hasCwd = r.chance(0.5); a.hasEnv = r.chance(0.6);
                bool spaces = r.chance(0.3); a.app = spaces ? u"C:\\Program Files\\a b\\child.exe" : u"C:\\bin\\child.exe";
                a.cmd = (spaces ? u"\"" + a.app + u"\"" : a.app) + u" " + anyText(r, r.chance(0.05) ? 30000 : r.range(0, 80)); if (r.chance(0.3) && a.hasApp) a.cmd = anyText(r, r.range(1, 50));
                a.cwd = u"D:\\" + anyText(r, r.range(0, 60)); if (a.hasEnv) { int ne = r.below(6); for (int z = 0; z < ne; z++) { a.env += anyText(r, r.range(1, 10)) + u"=" + anyText(r, r.below(r.chance(0.05) ? 9000 : r.chance(0.02) ? 60000 : 50)); a.env.push_back(0); } if (!ne) a.env.push_back(0); a.env.push_back(0); }
                bool fail = r.chance(0.35); DWORD fe = 0; static const DWORD errs[] = {2, 3, 5, 8, 14, 193, 267, 740, 1314, 1455, 0xC0000017};
                size_t before = g->createLog.size(), procs0 = g->procs.size(), hAgent = procHandles(agent), hClient = g->client->handles.size();
                if (fail) { fe = errs[r.below(11)]; g->createProcessHook = [fe, before](const ustr &, DWORD &e) { e = fe; return true; }; }
                g->programs[u"child.exe"] = pp.program();
                Outcome q = doSpawn(wp, a); g->createProcessHook = nullptr;
                if (g->createLog.size() != before + 1) { violation("spawn-count", "winpty_spawn made %zu attempts to start a program", g->createLog.size() - before); break; }
                auto &rec = g->createLog.back();
                bool same = rec.hasApp == (a.hasApp) && rec.hasCmd == a.hasCmd && rec.hasCwd == a.hasCwd && rec.hasEnv == a.hasEnv;
                ustr env = a.hasEnv ? a.env.substr(0, a.env.size() - 1) : ustr();
                if (!same || (a.hasApp && rec.app != a.app) || (a.hasCmd && rec.cmd != a.cmd) || (a.hasCwd && rec.cwd != a.cwd) || (a.hasEnv && rec.env != env))
                    violation("spawn-args", "the program was started with other arguments: app [%s] cmd [%s] cwd [%s] env [%s] instead of app [%s] cmd [%s] cwd [%s] env [%s]", u8(rec.app).c_str(), u8(rec.cmd).substr(0, 200).c_str(), u8(rec.cwd).c_str(), u8(rec.env).substr(0, 200).c_str(), u8(a.app).c_str(), u8(a.cmd).substr(0, 200).c_str(), u8(a.cwd).c_str(), u8(env).substr(0, 200).c_str());
                if (rec.parentPid != agent->pid) violation("spawn-args", "the program was not started by the agent");
                if (rec.flags & (CREATE_NEW_CONSOLE | DETACHED_PROCESS)) violation("spawn-args", "the program was not started on the session's console");
                if (rec.hasDesktop ? lower(rec.desktop) != u"winsta0\\default" : (xp && !true)) violation("spawn-desktop", "the program was started on desktop [%s]", u8(rec.desktop).c_str());
                if (xp && !rec.hasDesktop) violation("spawn-desktop", "the program was not put back on the caller's desktop");
                if (!conerr && (rec.inherit || rec.stdHandles)) violation("spawn-args", "the program inherits the agent's handles");
                if (conerr && (!rec.stdHandles || !rec.errh || !rec.out || rec.errh == rec.out)) violation("spawn-args", "with WINPTY_FLAG_CONERR the program has no separate standard error");
                stat("spawns.checked");
                if (fail) {
                    if (q.ok) violation("spawn", "winpty_spawn succeeded although CreateProcess failed");
                    if (a.wantErr && q.e.code != WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED) violation("spawn", "CreateProcess failure reported as code %u", (unsigned)q.e.code);
                    if (a.wantCp && q.cp != fe) violation("spawn", "create_process_error is %u; CreateProcess failed with %u", (unsigned)q.cp, (unsigned)fe);
                    if (g->procs.size() != procs0) violation("spawn", "a process was created although the spawn failed");
                    if (procHandles(agent) != hAgent) violation("spawn", "a failed spawn changed the number of process handles in the agent from %zu to %zu", hAgent, procHandles(agent));
                    if (g->client->handles.size() != hClient) violation("spawn", "a failed spawn changed the caller's handles");
                    stat("spawn.failures");
                    break;
                }
                if (!q.ok) { violation("spawn", "winpty_spawn failed: code %u %s", (unsigned)q.e.code, q.e.msg.c_str()); break; }
                spawned = true; mustExit = false;
                if (g->procs.size() != procs0 + 1) { violation("spawn", "winpty_spawn created %zu processes", g->procs.size() - procs0); break; }
                child = g->procs.back(); hp = q.p; ht = q.t;
                if (child->console != con) violation("spawn", "the program is not attached to the session's console");
                if (a.wantP) { auto ob = g->client->get(hp); if (!ob || ob != child->obj) violation("spawn-handle", "the process handle does not identify the program"); if (GetProcessId(hp) != (DWORD)child->pid) violation("spawn-handle", "GetProcessId on the process handle gives another process"); }
                if (a.wantT) { auto ob = g->client->get(ht); if (!ob || ob->type != OT::Thread || static_cast<ThreadObj*>(ob.get())->p != child) violation("spawn-handle", "the thread handle does not identify the program's thread"); }
                if (g->client->handles.size() != hClient + a.wantP + a.wantT) violation("spawn-handle", "the caller received %zd handles", (ssize_t)(g->client->handles.size() - hClient));
                long inAgent = 0; for (auto &kv : agent->handles) { auto ob = kv.second.obj; if (ob == child->obj || (ob->type == OT::Thread && static_cast<ThreadObj*>(ob.get())->p == child)) inAgent++; }
                if (inAgent != 1) violation("spawn-handle", "after a spawn the agent holds %ld handles of the program (it needs one)", inAgent);
                stat("spawns"); break; }
            }
            if (r.chance(0.3)) sleepMs(r.range(1, 200));
        }
        if (child) { pp.code = code; bool ended = false;
            if (r.chance(0.5)) { pp.quit = true; waitFor([child] { return child->exited; }, 10000); ended = true; if (hp) { DWORD ec = 0; if (WaitForSingleObject(hp, 10000) != WAIT_OBJECT_0 || !GetExitCodeProcess(hp, &ec) || (int)ec != code) violation("spawn-handle", "the process handle does not report the program's exit code (%u instead of %d)", (unsigned)ec, code); } }
            (void)ended; }
        if (agent->exited && !(child && child->exited)) violation("agent", "the agent exited during the session (%s)", agent->exitWhy);
        api.free(wp);
        if (ci != INVALID_HANDLE_VALUE) CloseHandle(ci);
        for (auto p : {&ro, &re}) if (p->t) { if (!waitFor([p] { return p->closed; }, 120000)) violation("pipe-never-closed", "an output pipe was still open 120 s after winpty_free"); joinThread(p->t); CloseHandle(p->h); }
        if (hp) CloseHandle(hp); if (ht) CloseHandle(ht);
        for (auto p : extra) if (!p->exited) { killProcess(p, 0, "end"); }
        checkAgentsGone("after winpty_free");
        stat("sessions");
    }
    checkBaseline(b, "at the end");
}
