// Several threads on one session, and several sessions at once.
#include "apih.h"

namespace {
struct CallRec { int kind; int c = 0, r = 0; Outcome o; int thread; bool used = false; };
struct Txn { Request q; uint64_t at = 0, repliedAt = 0; std::string reply; bool replied = false; };
struct Tap { Packets req, rep; std::vector<Txn> tx; std::vector<uint64_t> repAt;
    void data(bool toAgent, const std::string &d) {
        Packets &p = toAgent ? req : rep; size_t n = p.all.size(); p.add(d);
        if (p.bad) violation("stream", "a packet with an impossible size on the control pipe");
        for (size_t i = n; i < p.all.size(); i++) if (toAgent) { Txn t; t.q = parseRequest(p.all[i]); t.at = g->nowUs; if (!t.q.ok) violation("request-format", "a request on the control pipe does not parse"); tx.push_back(t); } else repAt.push_back(g->nowUs);
    }
    void finish() { for (size_t i = 0; i < tx.size() && i + 1 < rep.all.size(); i++) { tx[i].replied = true; tx[i].reply = rep.all[i + 1]; tx[i].repliedAt = repAt[i + 1]; } }   // the first packet names the data pipes
};
struct Tracker { std::map<ustr, Tap> taps; };
Tracker *gTrack;
void startTap() {
    gTrack = new Tracker;
    pipeTap = [](const ustr &name, bool s2c, std::string &d) { if (lower(name).find(u"winpty-control") != ustr::npos) gTrack->taps[name].data(s2c, d); };
}
void oneSession(winpty_t *wp, Tap &tap, std::shared_ptr<Console> con, Rng &r, int nThreads, int perThread, bool spawnToo) {
    auto calls = std::make_shared<std::vector<CallRec>>(); int running = nThreads; int serial = 0; Puppet pp; g->programs[u"child.exe"] = pp.program();
    std::vector<Thread*> ts; int spawner = spawnToo ? (int)r.below(nThreads) : -1;
    for (int i = 0; i < nThreads; i++) {
        uint64_t seed = r.next();
        ts.push_back(spawnThread(g->client, "caller", [&, i, seed] {
            Rng q(seed); int spawnAt = i == spawner ? (int)q.below(perThread) : -1;
            for (int j = 0; j < perThread; j++) {
                if (q.chance(0.2)) sleepMs(q.range(0, 30));
                CallRec c; c.thread = i;
                if (j == spawnAt) { c.kind = 0; SpawnArgs a; a.wantP = q.chance(0.5); a.wantT = q.chance(0.5); a.flags = 0; c.o = doSpawn(wp, a); if (c.o.p) CloseHandle(c.o.p); if (c.o.t) CloseHandle(c.o.t); }
                else if (q.chance(0.6)) { c.kind = 1; int n; { ApiScope s("serial"); n = serial++; } c.c = 20 + n % 60; c.r = 5 + n / 60 % 40; c.o = doSize(wp, c.c, c.r, q.chance(0.8)); }
                else { c.kind = 2; c.o = doList(wp, 64, true); }
                if (!c.o.ok) violation("call-failed", "%s failed in a thread: code %u %s", c.kind == 0 ? "winpty_spawn" : c.kind == 1 ? "winpty_set_size" : "winpty_get_console_process_list", (unsigned)c.o.e.code, c.o.e.msg.c_str());
                ApiScope s("record"); calls->push_back(c);
            }
            ApiScope s("done"); running--;
        }));
    }
    if (!waitFor([&] { return running == 0; }, 600000)) violation("blocked", "calls from several threads have not finished after 600 s");
    for (auto t : ts) joinThread(t);
    ApiScope sc("judge");
    Tap snapshot = tap; snapshot.finish();
    if (snapshot.tx.size() != calls->size()) violation("request-count", "%zu calls made %zu requests", calls->size(), snapshot.tx.size());
    // A witness order: the order of the requests.  It has to respect every call's own interval and explain every result.
    int lastC = -1, lastR = -1; uint64_t overlaps = 0;
    for (auto &a : *calls) for (auto &b : *calls) if (a.thread < b.thread && a.o.t0 < b.o.t1 && b.o.t0 < a.o.t1) overlaps++;
    for (auto &t : snapshot.tx) {
        if (!t.replied) { violation("unanswered", "a request was never answered but all calls have returned"); break; }
        CallRec *m = nullptr;
        for (auto &c : *calls) if (!c.used && c.kind == t.q.type && (c.kind != 1 || (c.c == t.q.cols && c.r == t.q.rows)) && c.o.t0 <= t.at && t.at <= c.o.t1) {
            if (c.kind == 2) { Unwire u(t.reply); std::vector<int> v; int n = u.i32(); for (int i = 0; i < n; i++) v.push_back(u.i32()); if (v != c.o.list || t.repliedAt > c.o.t1) continue; }
            if (!m || c.o.t1 < m->o.t1) m = &c; }
        if (!m) { violation("not-linearizable", "a request of kind %d (%d,%d) matches no call by its time and result: a call returned the reply of another", t.q.type, t.q.cols, t.q.rows); break; }
        m->used = true;
        if (t.repliedAt > m->o.t1) violation("not-linearizable", "a call of kind %d returned before the agent had answered its request", t.q.type);
        if (t.q.type == 1) { lastC = t.q.cols; lastR = t.q.rows; }
    }
    stat("overlaps", overlaps); stat("calls", calls->size());
    if (lastC > 0) { auto b = con->active; if (b->win.Right - b->win.Left + 1 != lastC || b->win.Bottom - b->win.Top + 1 != lastR) violation("final-size", "the console window is %dx%d but the last of the requests in order asked for %dx%d", b->win.Right - b->win.Left + 1, b->win.Bottom - b->win.Top + 1, lastC, lastR); else stat("final.size"); }
    pp.quit = true;
}
}

SCENARIO(threads) {
    Rng r(params.num("seed", 1)); pickSchedule(r); g->cfg.pStall = 0; pickOs(r);
    if (r.chance(0.2)) g->client->env["WINPTY_DEBUG"] = r.chance(0.5) ? "trace" : "trace,show_input,input";
    if (params.has("tsan")) g->cfg.pSwitch = std::max(g->cfg.pSwitch, 0.15);
    loadLibwinpty(); startTap();
    Baseline b = baseline();
    Session s; SessionOpts o; o.flags = 8 | (r.chance(0.3) ? 1 : 0); o.cols = r.range(20, 100); o.rows = r.range(5, 50); o.timeout = 300000;
    if (!s.open(o)) { violation("open", "open failed: %s", s.openErr.msg.c_str()); return; }
    Tap *tap = nullptr; for (auto &kv : gTrack->taps) tap = &kv.second;
    oneSession(s.wp, *tap, s.con, r, r.range(2, 5), r.range(4, 14), r.chance(0.7));
    s.close();
    checkAgentsGone("after winpty_free");
    checkBaseline(b, "at the end");
}

SCENARIO(sessions) {
    Rng r(params.num("seed", 1)); pickSchedule(r); g->cfg.pStall = 0; pickOs(r, r.chance(0.5));
    if (r.chance(0.3)) g->client->env["WINPTY_DEBUG"] = "trace";
    loadLibwinpty(); startTap();
    Baseline b = baseline();
    int n = r.range(2, 3), running = n; std::vector<Thread*> ts; bool allowDesk = g->cfg.osMajor >= 10 || g->cfg.osMinor >= 1;
    uint64_t flags = allowDesk ? 0 : 0;
    for (int i = 0; i < n; i++) {
        uint64_t seed = r.next();
        ts.push_back(spawnThread(g->client, "user", [&, i, seed] {
            Rng q(seed); Session s; SessionOpts o; o.flags = flags; o.cols = q.range(20, 100); o.rows = q.range(5, 40); o.timeout = 300000;
            if (q.chance(0.5)) sleepMs(q.range(0, 20));
            if (!s.open(o)) violation("open", "open failed: %s", s.openErr.msg.c_str());
            else {
                auto mine = s.agent; Puppet pp; char name[20]; snprintf(name, sizeof name, "child%d.exe", i);
                { ApiScope sc("program"); g->programs[A(name)] = pp.program(); }
                winpty_error_ptr_t e = nullptr; auto sc = api.spawn_config_new(1, P(u"C:\\bin\\" + A(name)), nullptr, nullptr, nullptr, &e);
                HANDLE hp = nullptr; if (!api.spawn(s.wp, sc, &hp, nullptr, nullptr, &e)) violation("spawn", "spawn failed: %s", takeErr(e).msg.c_str());
                api.spawn_config_free(sc);
                ustr text = u"session " + A(std::to_string(i).c_str()) + u" speaking";
                int rc = q.range(20, 90), rr = q.range(5, 40); bool rs = q.chance(0.5); if (rs && !s.resize(rc, rr)) violation("resize", "resize failed");
                auto ob = g->client->get(hp); Process *cp = ob && ob->type == OT::Process ? static_cast<ProcessObj*>(ob.get())->p : nullptr;
                if (!cp || cp->console != s.con) violation("mixed-up", "the process handle belongs to another session");
                pp.run([&] { childWrite(hOut(), text); });
                s.quiesce();
                if (s.vt.rowText(0) != u8(text)) violation("mixed-up", "session %d shows [%s]", i, s.vt.rowText(0).c_str());
                s.write("x"); sleepMs(100); bool gotX = false; for (auto &k : s.con->inputLog) if (k.EventType == KEY_EVENT && k.Event.KeyEvent.bKeyDown && k.Event.KeyEvent.uChar.UnicodeChar == u'x') gotX = true; if (!gotX) violation("mixed-up", "input did not reach the console of its session");
                int list[64]; int cnt = api.get_console_process_list(s.wp, list, 64, &e); if (cnt != 2) violation("process-list", "%d processes instead of 2", cnt);
                if (mine->exited) violation("agent", "the agent has exited");
                if (q.chance(0.5)) { pp.quit = true; if (!waitFor([&] { return s.out.closed; }, 30000)) violation("pipe-never-closed", "the output pipe was not closed after the program had exited"); }
                pp.quit = true; if (hp) CloseHandle(hp);
                s.close(); stat("sessions");
            }
            ApiScope scope("done"); running--;
        }));
    }
    if (!waitFor([&] { return running == 0; }, 900000)) violation("blocked", "sessions in several threads have not finished");
    for (auto t : ts) joinThread(t);
    checkAgentsGone("after winpty_free");
    checkBaseline(b, "at the end");
    std::set<ustr> names; for (auto &x : g->pipeNamesCreated) if (!names.insert(lower(x)).second) violation("name-collision", "the pipe name %s was generated twice", u8(x).c_str());
}
