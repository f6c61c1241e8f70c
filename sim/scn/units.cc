// Monitors of single helpers (unit/), run as the client process.
#include "apih.h"
#include <dlfcn.h>
struct UnitHost { void (*viol)(const char *, const char *); void (*stat)(const char *, uint64_t); };
static void runUnit(const char *what) {
    Thread *t = g->cur; t->noYield++; void *h = dlopen((gDir + "/unit.so").c_str(), RTLD_NOW | RTLD_LOCAL); t->noYield--;
    if (!h) { note("HARNESS dlopen: %s", dlerror()); finish(2); }
    typedef int (*Run)(const UnitHost *, const char *, uint64_t); Run f = (Run)dlsym(h, "unit_run"); if (!f) { note("HARNESS no unit_run"); finish(2); }
    static UnitHost uh = {[](const char *k, const char *x) { violation(k, "%s", x); }, [](const char *k, uint64_t n) { stat(k, n); }};
    if (!f(&uh, what, params.num("seed", 1))) { note("HARNESS unknown unit"); finish(2); }
    typedef uint64_t (*Dig)(); Dig d = (Dig)dlsym(h, "unit_digest"); if (d) g->st.schedHash = g->st.schedHash * 31 + d();   // no schedule here: the inputs make the case
    stat("nontrivial");
}
SCENARIO(unicode) { runUnit("unicode"); }
SCENARIO(packets) { runUnit("packets"); }
SCENARIO(strings) { runUnit("strings"); }

// Cells with every UTF-16 unit, paired and unpaired, reach the terminal as well-formed UTF-8 of the right characters.
SCENARIO(cells) {
    uint64_t seed = params.num("seed", 1); Rng r(seed * 139 + 1); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    conDefaults.cp = r.chance(0.5) ? 437 : 1252;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; Puppet pp; SessionOpts o; o.cols = r.range(60, 120); o.rows = r.range(5, 40); o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        std::string want; uint32_t next = (uint32_t)(seed % 64) * 1024; uint64_t units = 0, lone = 0;
        auto ctrl = [](uint32_t u) { return u < 0x20 || (u >= 0x7f && u < 0xa0); };
        for (int round = 0; round < 4; round++) {
            pp.run([&] {
                for (int line = 0; line < 10; line++) {
                    std::vector<CHAR_INFO> cells; auto put = [&](uint32_t u, WORD a) { CHAR_INFO c = {}; c.Char.UnicodeChar = (WCHAR)u; c.Attributes = a; cells.push_back(c); };
                    put('A', 7);
                    for (int k = 0; k < 26; k++) {     // this seed's share of the 16-bit units, some of them as double-width cells, pairs and broken pairs in between
                        uint32_t u = next % 0x10000; next++; if (ctrl(u)) u = '#'; units++;
                        if (r.chance(0.1) && u != ' ') { put(u, 7 | 0x100); put(u, 7 | 0x200); } else put(u, 7);
                        int x = r.below(24); auto hi = [&] { return 0xD800 + r.below(0x400); }; auto lo = [&] { return 0xDC00 + r.below(0x400); };
                        if (x == 0) { put(hi(), 7); put(lo(), 7); } else if (x == 1) put(hi(), 7), lone++; else if (x == 2) put(lo(), 7), lone++; else if (x == 3) { uint32_t h = hi(), l = lo(); put(h, 7 | 0x100); put(h, 7 | 0x200); put(l, 7 | 0x100); put(l, 7 | 0x200); }
                        else if (x == 4) put(0xFFFF, 7); else if (x == 5) put(u, 7 | 0x100); else if (x == 6) put(u, 7 | 0x200); else if (x == 7) { put(hi(), 7); put(u, 7); } else if (x == 8) put(r.range(1, 6), 7); else if (x == 9) put(0x1b, 7);
                        if ((int)cells.size() > o.cols - 6) break;
                    }
                    if (r.chance(0.5)) put(0xD800 + r.below(0x800), 7); else put('B', 7);
                    CONSOLE_SCREEN_BUFFER_INFO bi; GetConsoleScreenBufferInfo(hOut(), &bi); SMALL_RECT rc = {0, bi.dwCursorPosition.Y, (SHORT)(cells.size() - 1), bi.dwCursorPosition.Y};
                    WriteConsoleOutputW(hOut(), cells.data(), COORD{(SHORT)cells.size(), 1}, COORD{0, 0}, &rc);
                    { auto &sb = *s.con->active; want += cellsText(&sb.at(0, bi.dwCursorPosition.Y), sb.w) + "\r\n"; }     // as the console stores it
                    childWrite(hOut(), u"\r\n");
                }
            });
            if (!s.quiesce()) { violation("livelock", "output never settles"); break; }
            if (s.vt.nErr) { violation("utf8", "round %d: %s", round, s.vt.errors.c_str()); break; }
            if (s.vt.text != want) { size_t i = 0; auto &h = s.vt.text; while (i < h.size() && i < want.size() && h[i] == want[i]) i++; violation("cells", "round %d: text differs at byte %zu of %zu: received [%s], expected [%s]", round, i, want.size(), esc(h.substr(i > 10 ? i - 10 : 0, 40)).c_str(), esc(want.substr(i > 10 ? i - 10 : 0, 40)).c_str()); break; }
        }
        stat("units", units); stat("unpaired", lone); stat("nontrivial");
        pp.quit = true; s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

// A client that sends rubbish harms its own agent only.
SCENARIO(badclient) {
    Rng r(params.num("seed", 1) * 149 + 1); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session a, b; Puppet pa, pb; SessionOpts o; o.cols = 80; o.rows = 25; o.timeout = 3000;
        if (!a.open(o) || !b.open(o)) { violation("open", "winpty_open failed"); return; }
        if (!b.spawn(pb.program())) { violation("spawn", "winpty_spawn failed"); return; }
        bool spawned = r.chance(0.6); if (spawned && !a.spawn(pa.program())) { violation("spawn", "winpty_spawn failed"); return; }
        // the control pipe of session a is the one its agent is the client of
        ustr ctl; for (auto &p : allPipes()) if (p->clientPid == a.agent->pid && p->name.find(u"control") != ustr::npos) ctl = p->name;
        if (ctl.empty()) { violation("harness", "no control pipe found"); return; }
        bool hit = false; Rng q(r.next());
        pipeTap = [&](const ustr &name, bool s2c, std::string &d) {
            if (name != ctl || !s2c || d.empty()) return; hit = true; std::string m = d;
            auto size = [&](uint64_t n) { for (int k = 0; k < 8 && k < (int)m.size(); k++) m[k] = (char)(n >> (8 * k)); };
            switch (q.below(9)) {
            case 0: for (int k = q.range(1, 4); k--;) m[q.below((uint32_t)m.size())] = (char)q.next(); break;
            case 1: { static const uint64_t v[] = {0, 1, 7, 8, 9, 0x10000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull}; size(v[q.below(11)]); break; }
            case 2: if (m.size() > 9) { m.resize(q.range(9, (int)m.size())); size(m.size()); } break;
            case 3: m += std::string(q.range(1, 200), (char)q.below(4)); size(m.size()); break;
            case 4: { m = std::string(8 + q.range(0, 60), 0); for (auto &c : m) c = (char)(q.chance(0.6) ? q.below(4) : q.next()); size(m.size()); break; }
            case 5: if (m.size() > 13) { static const int32_t v[] = {-1, 0, 3, 4, 100, INT32_MAX, INT32_MIN}; int32_t x = v[q.below(7)]; memcpy(&m[9], &x, 4); } break;       // unknown request
            case 6: for (size_t k = 9; k < m.size(); k++) if (q.chance(0.05)) m[k] = (char)(q.chance(0.5) ? 0xff : q.next()); break;
            case 7: m = std::string(q.range(1, 5000), (char)q.next()); break;
            default: m += d; m += d; if (q.chance(0.5)) m.resize(m.size() - q.range(1, 8)); }
            d = m;
        };
        int n = r.range(1, 5);
        for (int k = 0; k < n; k++) {
            uint64_t t0 = g->nowUs; winpty_error_ptr_t e = nullptr;
            switch (r.below(3)) {
            case 0: api.set_size(a.wp, r.range(1, 300), r.range(1, 300), &e); break;
            case 1: { int pids[8]; api.get_console_process_list(a.wp, pids, 8, &e); break; }
            default: if (!spawned) { spawned = true; SpawnArgs sa; (void)sa; a.spawn(pa.program()); } else api.set_size(a.wp, 100, 50, &e); }
            if (e) { stat("reported"); api.error_free(e); } if (g->nowUs - t0 > 3000000 + 2500000) violation("hang", "a call took %llu ms with a timeout of 3000 ms", (unsigned long long)(g->nowUs - t0) / 1000);
            stat("bad.packets", hit);
            // the other session never notices
            if (r.chance(0.5)) { int w = r.range(20, 150), h = r.range(5, 50); winpty_error_ptr_t e2 = nullptr; if (!api.set_size(b.wp, w, h, &e2)) violation("other-session", "a request of another session fails: %s", takeErr(e2).msg.c_str()); else { auto &cb = *b.con->active; if (cb.win.Right - cb.win.Left + 1 != w || cb.win.Bottom - cb.win.Top + 1 != h) violation("other-session", "another session has the wrong size"); stat("others.checked"); } }
            if (r.chance(0.4)) { int pids[8]; winpty_error_ptr_t e2 = nullptr; if (api.get_console_process_list(b.wp, pids, 8, &e2) != 2) violation("other-session", "another session has the wrong processes"); takeErr(e2); stat("others.checked"); }
        }
        pipeTap = nullptr;
        pb.run([&] { childWrite(hOut(), u"still here\r\n"); }); b.quiesce(); if (b.out.data.find("still here") == std::string::npos) violation("other-session", "output of another session is missing");
        if (hit) stat("nontrivial");
        auto ag = a.agent; bool was = ag->exited; if (was) stat("own.agent.gone");
        pa.quit = true; a.close(); if (!waitFor([&] { return ag->exited; }, 60000)) violation("agent-orphan", "an agent that received malformed packets is still running 60 s after winpty_free");
        int code = 0; (void)code; pb.quit = true; if (!waitFor([&] { return b.out.closed; }, 60000)) violation("other-session", "another session does not end with its program");
        auto bg = b.agent; b.close(); waitFor([&] { return bg->exited; }, 60000); if (bg->exited && !strcmp(bg->exitWhy, "abort")) violation("other-session", "another session's agent stopped at a failed assertion");
        for (auto p : g->procs) if (p != g->client && !p->exited) waitFor([p] { return p->exited; }, 20000);
    }
    checkBaseline(bl, "end");
}
