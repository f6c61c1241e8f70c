// Effects on the console that are not its contents: title, Ctrl-C, freezing.
#include "apih.h"
#include <cstring>

namespace {
ustr anyTitle(Rng &r, bool controls) {
    static const int lens[] = {0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 34, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 3000};
    int n = r.chance(0.6) ? lens[r.below(29)] : r.range(0, 60); ustr s;
    int style = r.below(4);
    while ((int)s.size() < n) {
        if (controls && r.chance(0.08)) { static const char16_t c[] = {7, 27, 10, 13, 9, 8, 1, 31, 0x7f, 0x80, 0x9b, 0x9c, 0x9d, 0x9f}; s.push_back(c[r.below(14)]); continue; }
        if (controls && r.chance(0.02)) { s += u"\a\x1b[31mred\x1b]0;x"; continue; }
        if (style == 0 || r.chance(0.6)) s.push_back((char16_t)r.range(0x20, 0x7e));
        else if (style == 1) s.push_back((char16_t)r.range(0xA0, 0x7FF));
        else if (style == 2) s.push_back((char16_t)r.range(0x800, 0xD7FF));
        else { uint32_t v = r.below(0x100000); s.push_back((char16_t)(0xD800 + (v >> 10))); s.push_back((char16_t)(0xDC00 + (v & 0x3FF))); }
    }
    return s;
}
// What the terminal may be told: control characters cannot be part of a title.
std::string shown(const ustr &t) { ustr s; for (char16_t c : t) s.push_back(c < 0x20 || (c >= 0x7f && c <= 0x9f) ? u' ' : c); return u8(s); }
}

SCENARIO(title) {
    Rng r(params.num("seed", 1) * 101 + 5); pickSchedule(r); pickOs(r);
    if (r.chance(0.1)) g->client->env["WINPTY_DEBUG"] = "trace";
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; bool plain = r.chance(0.2), conerr = r.chance(0.2);
        if (plain) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; if (r.chance(0.2)) o.flags |= WINPTY_FLAG_COLOR_ESCAPES; if (conerr) o.flags |= WINPTY_FLAG_CONERR;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; std::vector<ustr> hist; auto con = s.con; ustr own = con->title;
        // every title the console ever had, in order
        g->onApi = [&](const char *) { if (hist.empty() || hist.back() != con->title) hist.push_back(con->title); };
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed"); return; }
        auto check = [&](const char *when, const ustr &now) {
            for (Vt *v : {&s.vt, &s.vtErr}) if (v->nErr) { violation("stream", "%s: %s", when, v->errors.c_str()); return; }
            if (!s.vtErr.titles.empty()) violation("title", "%s: a title was sent on the error pipe", when);
            if (plain) { if (!s.vt.titles.empty()) violation("title", "%s: a title was sent in plain mode", when); stat("plain.checked"); return; }
            std::string last = s.vt.titles.empty() ? "" : s.vt.titles.back();
            if (s.vt.titles.empty() && now == hist[0]) { stat("own.title"); return; }      // winpty's own title, never replaced when winpty looked
            if (last != shown(now)) violation("title", "%s: the console title is [%s] (%zu characters) but the terminal was told [%s] (%zu bytes)", when, esc(u8(now), 100).c_str(), now.size(), esc(last, 100).c_str(), last.size());
            // what was sent is a subsequence of what the title was
            size_t k = 0; for (auto &t : s.vt.titles) { while (k < hist.size() && shown(hist[k]) != t) k++; if (k == hist.size()) { violation("title", "%s: the terminal was told the title [%s], which the console did not have (then)", when, esc(t, 100).c_str()); break; } }
            stat("titles.checked"); stat("titles.sent", s.vt.titles.size()); statMax("title.length", now.size());
        };
        int rounds = r.range(2, 8);
        for (int k = 0; k < rounds && !violations; k++) {
            int n = r.range(1, r.chance(0.2) ? 40 : 4);
            pp.run([&] { for (int i = 0; i < n; i++) {
                ustr t = r.chance(0.15) ? ustr() : r.chance(0.15) && hist.size() > 1 ? hist[hist.size() - 2] : anyTitle(r, r.chance(0.3)); SetConsoleTitleW(P(t)); stat("titles.set");
                if (r.chance(0.5)) sleepMs(r.range(0, 60)); if (r.chance(0.2)) childWrite(hOut(), u"some text\r\n");
            } });
            if (r.chance(0.2)) s.resize(r.range(20, 100), r.range(5, 40));
            s.quiesce(300); char when[40]; snprintf(when, sizeof when, "round %d", k); check(when, con->title);
            if (r.chance(0.2)) { size_t c0 = s.vt.titles.size(); sleepMs(500); s.quiesce(100); if (s.vt.titles.size() != c0) violation("title", "the title was sent again although it did not change"); }
        }
        // the last title before the program exits
        ustr lastT;
        bool lastWord = r.chance(0.7);
        if (lastWord) { lastT = anyTitle(r, false); pp.run([&] { SetConsoleTitleW(P(lastT)); pp.quit = true; }); } else pp.quit = true;
        waitFor([&] { return s.out.closed; }, 60000); s.quiesce(50);
        check("after the program exited", con->title); stat("nontrivial");
        g->onApi = nullptr;
        s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

namespace {
struct CtrlSeen { Process *p; uint64_t t; };
std::vector<CtrlSeen> gCtrl;
BOOL WINAPI countAndHandle(DWORD t) { Quiet q; if (t == CTRL_C_EVENT) { gCtrl.push_back({g->cur->proc, g->nowUs}); return TRUE; } return FALSE; }
}

// Programs join and leave the console while the list of processes is being read.
SCENARIO(proclist) {
    Rng r(params.num("seed", 1) * 107 + 3); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; if (r.chance(0.3)) o.flags |= WINPTY_FLAG_CONERR;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; if (!s.spawn(pp.program(), 0)) { violation("spawn", "winpty_spawn failed"); return; }
        waitFor([&] { return pp.started; }, 10000);
        auto con = s.con; std::vector<Process*> extra;
        auto join = [&](int n) { for (; n > 0; n--) { auto p = createProcess("grandchild", s.agent); p->prog = [](Process&) { return 0; }; con->attach(p); extra.push_back(p); } };
        auto leave = [&](int n) { while (n-- > 0 && !extra.empty()) { size_t i = r.below((uint32_t)extra.size()); killProcess(extra[i], 0, "left"); extra.erase(extra.begin() + i); } };
        std::vector<std::set<int>> shots; double pChange = r.below(3) * 0.4; int reads = 0;
        auto shot = [&] { std::set<int> v; for (auto p : con->procs) v.insert(p->pid); shots.push_back(v); };
        g->onApi = [&](const char *n) {
            if (g->cur->proc != s.agent || strcmp(n, "GetConsoleProcessList")) return;
            if (reads++ && reads < 8 && r.chance(pChange)) { if (r.chance(0.75)) join(r.chance(0.4) ? 1 : r.chance(0.5) ? r.range(1, 20) : r.range(20, 300)); else leave(r.range(1, 60)); stat("changed.meanwhile"); }
            shot();
        };
        for (int round = 0; round < 12 && !violations; round++) {
            int live = (int)con->procs.size(), want = r.chance(0.5) ? r.range(55, 75) : r.chance(0.5) ? r.range(120, 300) : r.range(2, 1000);
            if (want > live) join(want - live); else leave(live - want);
            shots.clear(); reads = 0;
            int cap = r.chance(0.6) ? 4000 : r.range(1, 300); uint64_t t0 = g->nowUs;
            Outcome q = doList(s.wp, cap, true);
            if (!q.ok) { violation("process-list", "winpty_get_console_process_list failed: %s", q.e.msg.c_str()); break; }
            bool size = false, same = q.n > cap; std::set<int> got(q.list.begin(), q.list.end());
            for (auto &v : shots) { if ((int)v.size() == q.n) size = true; if (q.n <= cap && v == got && (int)q.list.size() == q.n) same = true; }
            if (!size || !same) violation("process-list", "%d processes were reported (%zu different ones listed), but the console never had exactly these processes (%zu at the end)", q.n, got.size(), con->procs.size());
            if (g->nowUs - t0 > 5000000) violation("process-list", "reading the list took %llu ms", (unsigned long long)(g->nowUs - t0) / 1000);
            stat("lists"); if (shots.size() > 1) stat("reads.repeated"); stat("nontrivial");
        }
        g->onApi = nullptr; leave(100000);
        pp.quit = true; waitFor([&] { return s.out.closed; }, 5000); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
SCENARIO(ctrlc) {
    Rng r(params.num("seed", 1) * 103 + 7); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    bool inherited = r.chance(0.4);      // the caller was itself started with Ctrl-C ignored
    g->client->ignoreCtrlC = inherited; gCtrl.clear();
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; o.mouseMode = r.below(3); if (r.chance(0.2)) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.2)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; if (!s.spawn(pp.program(), 0)) { violation("spawn", "winpty_spawn failed"); return; }
        waitFor([&] { return pp.started; }, 10000);
        pp.run([] { SetConsoleCtrlHandler(countAndHandle, TRUE); });
        // further programs on the console: one kind handles Ctrl-C, one has no handler, one ignores it
        struct Prog { Process *p = nullptr; int kind; bool up = false, quit = false; }; std::vector<std::shared_ptr<Prog>> progs;
        auto start = [&](int kind) {
            auto q = std::make_shared<Prog>(); q->kind = kind; progs.push_back(q);
            g->programs[u"more.exe"] = [q](Process &p) -> int { q->p = &p; if (q->kind == 0) SetConsoleCtrlHandler(countAndHandle, TRUE); else if (q->kind == 2) SetConsoleCtrlHandler(nullptr, TRUE); q->up = true; waitFor([q] { return q->quit; }, 100000000); return 0; };
            pp.run([&] { STARTUPINFOW si = {}; si.cb = sizeof si; PROCESS_INFORMATION pi = {}; WCHAR cmd[] = {'m', 'o', 'r', 'e', '.', 'e', 'x', 'e', 0}; if (CreateProcessW(nullptr, cmd, nullptr, nullptr, FALSE, 0, nullptr, nullptr, &si, &pi)) { CloseHandle(pi.hProcess); CloseHandle(pi.hThread); } });
            if (!waitFor([&] { return q->up; }, 20000)) { note("HARNESS a further program did not start"); finish(2); }
        };
        for (int k = r.below(4); k > 0; k--) start(r.below(3));
        bool processed = true; uint64_t snapshots = 0; std::vector<size_t> keysAtEvent; auto con = s.con;
        auto keys = [&] { std::string v; for (auto &q : con->inputLog) if (q.EventType == KEY_EVENT && q.Event.KeyEvent.bKeyDown && q.Event.KeyEvent.uChar.UnicodeChar) v += (char)q.Event.KeyEvent.uChar.UnicodeChar; return v; };
        int seenC = con->ctrlC;
        g->onApi = [&](const char *n) { if (g->cur->proc == s.agent && !strcmp(n, "GenerateConsoleCtrlEvent")) { keysAtEvent.push_back(keys().size()); snapshots++; } };
        std::set<Process*> dead;
        for (int round = 0; round < 5 && !violations; round++) {
            processed = r.chance(0.65); bool line = r.chance(0.5), echo = r.chance(0.5);
            pp.run([&] { SetConsoleMode(hIn(), (con->inMode & ~7u) | (processed ? 1 : 0) | (line ? 2 : 0) | (echo ? 4 : 0)); });
            sleepMs(80); con->inputLog.clear(); con->inputLogTime.clear(); keysAtEvent.clear(); gCtrl.clear(); seenC = con->ctrlC;
            size_t liveBefore = con->procs.size(); (void)liveBefore;
            std::vector<Process*> handlers, victims, bystanders; handlers.push_back(pp.p);
            for (auto &q : progs) if (!q->p->exited) (q->kind == 0 ? handlers : q->kind == 1 ? victims : bystanders).push_back(q->p);
            std::string want; std::vector<size_t> wantAt; int cc = 0; std::string bytes;
            for (int i = r.range(1, 30); i > 0; i--) { if (r.chance(0.2)) { bytes += '\x03'; if (processed) { cc++; wantAt.push_back(want.size()); } else want += '\x03'; } else { char c = (char)r.range('a', 'z'); bytes += c; want += c; } }
            double pCut = r.below(3) * 0.4; int gap = r.chance(0.5) ? 2 : 70;
            for (size_t i = 0; i < bytes.size();) { size_t n = 1; while (i + n < bytes.size() && !r.chance(pCut)) n++; s.write(bytes.substr(i, n)); i += n; if (r.chance(0.5)) sleepMs(r.range(0, gap)); }
            sleepMs(400);
            if (con->ctrlC - seenC != cc) violation("ctrl-c", "%d Ctrl-C characters were typed in %s mode and %d events were raised", cc, processed ? "processed" : "unprocessed", con->ctrlC - seenC);
            if (keys() != want) violation("ctrl-c", "typed [%s] in %s mode; the keys that arrived are [%s]", esc(bytes).c_str(), processed ? "processed" : "unprocessed", esc(keys()).c_str());
            if (!violations && keysAtEvent != wantAt) violation("ctrl-c", "typed [%s]: an event was raised out of order with the keys around it", esc(bytes).c_str());
            for (auto p : handlers) { int n = 0; for (auto &x : gCtrl) if (x.p == p) n++; if (n != cc) violation("ctrl-c", "%s received %d Ctrl-C events of %d%s", p->name.c_str(), n, cc, inherited ? " (the caller of winpty ignores Ctrl-C)" : ""); stat("handlers.checked"); }
            for (auto p : victims) { if (p->exited != (cc > 0)) violation("ctrl-c", "a program without a handler %s after %d Ctrl-C events%s", p->exited ? "ended" : "is still running", cc, inherited ? " (the caller of winpty ignores Ctrl-C)" : ""); if (cc) stat("victims"); }
            for (auto p : bystanders) if (p->exited) violation("ctrl-c", "a program that ignores Ctrl-C was ended");
            if (s.agent->exited) { violation("ctrl-c", "Ctrl-C ended the agent (%s)", s.agent->exitWhy); break; }
            if (pp.p->exited) { violation("ctrl-c", "a program that handles Ctrl-C was ended"); break; }
            stat("ctrlc.events", cc); if (cc) stat("nontrivial"); if (!processed) stat("plain.keys");
            if (r.chance(0.5)) { Outcome x = doList(s.wp, 64, true); if (!x.ok || x.n != (int)con->procs.size()) violation("process-list", "%d processes were reported; %zu are attached", x.n, con->procs.size()); stat("lists"); }
            if (r.chance(0.4)) start(r.below(3));
        }
        g->onApi = nullptr;
        for (auto &q : progs) q->quit = true;
        // Ctrl-C with nobody but the agent left
        pp.quit = true; waitFor([&] { return con->procs.size() <= 1; }, 20000);
        int c0 = con->ctrlC; pp.p = nullptr; bool proc = con->inMode & 1; s.write("\x03"); sleepMs(300);
        if (s.agent->exited) violation("ctrl-c", "Ctrl-C ended the agent (%s)", s.agent->exitWhy); else if (con->ctrlC - c0 != (proc ? 1 : 0)) violation("ctrl-c", "no event was raised");
        else { Outcome x = doList(s.wp, 8, true); if (!x.ok) violation("process-list", "winpty_get_console_process_list failed after Ctrl-C: %s", x.e.msg.c_str()); }
        for (auto &q : progs) { waitFor([&] { return q->p->exited; }, 5000); }
        s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

SCENARIO(freeze) {
    Rng r(params.num("seed", 1) * 107 + 9); pickSchedule(r); pickOs(r); g->cfg.pStall = 0; if (r.chance(0.7)) g->cfg.pSwitch = std::max(g->cfg.pSwitch, 0.4);
    static const int sx[] = {1920, 1280, 3840, 1024}, sy[] = {1080, 800, 2160, 768}; int sk = r.below(4); conDefaults.screenX = sx[sk]; conDefaults.screenY = sy[sk];
    static const UINT cps[] = {437, 437, 1252, 932}; conDefaults.cp = cps[r.below(4)];
    bool faulty = r.chance(0.35), fired = false; bool startFault = faulty && r.chance(0.2);
    std::shared_ptr<Console> con; Process *agent = nullptr; uint64_t calls = 0; bool was = false; uint64_t freezes = 0, maxCalls = 0, maxUs = 0; bool programs = false;
    auto real = realAgent();
    auto watch = [&](const char *n) {
        Process *p = g->cur->proc; if (p->name.find("agent") == std::string::npos) return;
        auto c = p->console; if (!c || violations) return;
        con = c; agent = p;
        if (c->selecting) {
            if (!was) { was = true; calls = 0; freezes++; }
            calls++; maxCalls = std::max(maxCalls, calls); maxUs = std::max(maxUs, g->nowUs - c->selectSince);
            if (!c->closing && (!strcmp(n, "WaitForMultipleObjects") || !strcmp(n, "WaitForMultipleObjectsEx") || !strcmp(n, "Sleep") || !strcmp(n, "ConnectNamedPipe") || !strcmp(n, "CreateProcessW")))
                violation("frozen", "the agent calls %s while the console is frozen", n);
            if (calls > 3000) violation("frozen", "the agent has made %llu calls since it froze the console", (unsigned long long)calls);
            if (g->nowUs - c->selectSince > 3000000) violation("frozen", "the console has been frozen for %llu ms", (unsigned long long)((g->nowUs - c->selectSince) / 1000));
        } else was = false;
    };
    loadLibwinpty(); Baseline bl = baseline();
    g->programs[u"winpty-agent.exe"] = real; (void)startFault;
    g->onApi = watch;
    {
        Session s; SessionOpts o; o.cols = r.range(20, 120); o.rows = r.range(10, 50); if (r.chance(0.25)) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.15)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        programs = true; (void)programs;
        Puppet pp; if (!s.spawn(pp.program(), r.chance(0.5) ? WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN : 0)) { violation("spawn", "winpty_spawn failed"); return; }
        HANDLE alt = nullptr; std::vector<HANDLE> alts;
        auto cur = [&] { return alt ? alt : hOut(); };
        static const char *apis[] = {"SetConsoleScreenBufferSize", "SetConsoleWindowInfo", "ReadConsoleOutputW", "WriteConsoleOutputW", "FillConsoleOutputCharacterW", "SetConsoleTextAttribute", "SetConsoleCursorPosition", "GetConsoleScreenBufferInfo"};
        int rounds = r.range(4, 10); bool dead = false; bool cursorOk = true;
        for (int k = 0; k < rounds && !violations && !dead; k++) {
            if (faulty && r.chance(0.5) && s.agent && !s.agent->exited) { Process *a = s.agent; a->mayThrow = true; a->failAt = -1; a->failName = apis[r.below(r.chance(0.2) ? 8 : 7)]; a->failError = ERROR_INVALID_PARAMETER; a->faultArmed = true; }
            bool resizes = r.chance(0.6);
            bool pinned = !resizes && !faulty && r.chance(0.6);    // the cursor stays where the program put it, at every moment
            int work = r.range(1, 12); uint64_t seed = r.next();
            pp.post([&, work, seed, pinned] {
                Rng q(seed);
                for (int i = 0; i < work; i++) {
                    if (!pinned) {
                        int act = q.below(10);
                        if (act == 0 && !alt) { alt = CreateConsoleScreenBuffer(GENERIC_READ | GENERIC_WRITE, 3, nullptr, CONSOLE_TEXTMODE_BUFFER, nullptr); alts.push_back(alt); SetConsoleActiveScreenBuffer(alt); }
                        else if (act == 1 && alt) { SetConsoleActiveScreenBuffer(hOut()); CloseHandle(alt); alts.clear(); alt = nullptr; }
                        else { ustr t; for (int j = q.range(1, q.chance(0.1) ? 200 : 10); j > 0; j--) t += ustr(q.range(0, 30), u'x') + u"\r\n"; childWrite(cur(), t); }
                    } else {
                        CONSOLE_SCREEN_BUFFER_INFO bi; if (!GetConsoleScreenBufferInfo(cur(), &bi)) break;
                        COORD c = {(SHORT)q.range(bi.srWindow.Left, bi.srWindow.Right), (SHORT)q.range(bi.srWindow.Top, bi.srWindow.Bottom)};
                        SetConsoleCursorPosition(cur(), c);
                        for (int j = q.range(4, 40); j > 0; j--) {
                            if (j % 4 == 0) { if (q.chance(0.3)) sleepMs(q.range(0, 15)); else waitFor([&] { return s.con->selecting; }, 60); }
                            yieldPoint(); if (!GetConsoleScreenBufferInfo(cur(), &bi)) break;
                            stat("cursor.reads"); if (s.con->selecting) stat("cursor.reads.frozen");
                            if (bi.dwCursorPosition.X != c.X || bi.dwCursorPosition.Y != c.Y) { if (cursorOk) violation("cursor-moved", "the program put the cursor at (%d,%d) and finds it at (%d,%d)%s", c.X, c.Y, bi.dwCursorPosition.X, bi.dwCursorPosition.Y, s.con->selecting ? " while the console is frozen" : ""); cursorOk = false; break; }
                        }
                    }
                    if (q.chance(0.4)) sleepMs(q.range(0, 50));
                }
            });
            if (resizes) for (int j = r.range(1, 5); j > 0 && !dead; j--) { if (!s.resize(r.range(20, 150), r.range(10, 60)) && s.agent->exited) dead = true; if (r.chance(0.5)) sleepMs(r.range(0, 60)); }
            else sleepMs(r.range(20, 300));
            // whatever happened, the program gets its output through
            if (!waitFor([&] { return pp.idle() || s.agent->exited || s.con->closing; }, 120000)) violation("frozen", "the program cannot write: console %s, agent %s", s.con->selecting ? "frozen" : "not frozen", s.agent->exited ? "gone" : "running");
            fired = fired || s.agent->faultFired; if (s.agent->faultFired) stat("faults.fired"); s.agent->faultFired = false;
            s.agent->faultArmed = false; s.agent->failName.clear();
            if (s.agent->exited || s.con->closing) { dead = true; if (!fired) violation("agent-left", "the agent ended"); }
            if (!dead) { sleepMs(100); bool sel = s.con->selecting; if (sel && !waitFor([&] { return !s.con->selecting; }, 3000)) violation("frozen", "the console stays frozen"); stat("rounds"); }
        }
        if (dead) { stat("agent.failed"); waitFor([&] { return s.agent->exited; }, 60000); if (!s.agent->exited) violation("agent-orphan", "the agent failed but is still there after 60 s"); }
        pp.quit = true;
        if (s.agent->exited) { for (auto p : g->procs) if (p != g->client && !p->exited) killProcess(p, 0, "end"); }
        s.close();
        bool aborted = fired; if (!aborted) checkNoAgentAbort();
    }
    g->onApi = nullptr;
    stat("freezes", freezes); statMax("max.calls.frozen", maxCalls); statMax("max.us.frozen", maxUs); if (freezes > 2) stat("nontrivial");
    if (!fired) { checkAgentsGone("end"); checkBaseline(bl, "end"); }
}
