// Data through the pipes in bulk, slow and absent peers; steady resources over a long life.
#include "apih.h"

namespace {
int liveBlocks(Process *p) { return (int)p->heap.size(); }
size_t liveBytes(Process *p) { size_t n = 0; for (auto &kv : p->heap) n += kv.second; return n; }
std::string handleSummary(Process *p) { std::map<int, int> m; for (auto &kv : p->handles) m[(int)kv.second.obj->type]++; std::string s; char b[40]; for (auto &kv : m) { snprintf(b, sizeof b, "%d:%d ", kv.first, kv.second); s += b; } return s; }
void sinkConsole(const std::shared_ptr<Console> &c) { ApiScope sc("sink"); c->inputLog.clear(); c->inputLogTime.clear(); c->input.clear(); }
}

// Bulk output with a reader that stops for long, RPCs and input at the same time; large control packets.
SCENARIO(bulk) {
    Rng r(params.num("seed", 1) * 73 + 9); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    g->cfg.pPendingIo = r.below(3) * 0.5; g->cfg.pFragment = r.below(3) * 0.45; g->cfg.ioLatencyUs = r.chance(0.3) ? 0 : r.range(1, 20000);
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; o.cols = r.range(30, 120); o.rows = r.range(3, 50); bool conerr = r.chance(0.3); if (conerr) o.flags |= WINPTY_FLAG_CONERR; bool plain = r.chance(0.3); if (plain) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; int wrote = 0, wroteE = 0;
        // a spawn request of up to some hundreds of kilobytes
        ustr env; int want = r.chance(0.5) ? r.range(10, 200) : r.range(1000, 400000); for (int i = 0; (int)env.size() < want; i++) { char b[30]; snprintf(b, sizeof b, "VAR%d=", i); env += A(b) + anyText(r, r.range(0, 3000)); env.push_back(0); } env.push_back(0);
        ustr cmd = u"child.exe " + anyText(r, r.chance(0.5) ? r.range(0, 100) : r.range(1000, 32000));
        g->programs[u"child.exe"] = pp.program();
        { ustr app = u"C:\\bin\\child.exe"; winpty_error_ptr_t e = nullptr; auto sc = api.spawn_config_new(1, P(app), P(cmd), nullptr, P(env), &e); size_t n0 = g->createLog.size();
          if (!api.spawn(s.wp, sc, nullptr, nullptr, nullptr, &e)) violation("spawn", "winpty_spawn with %zu characters of environment failed: %s", env.size(), takeErr(e).msg.c_str());
          api.spawn_config_free(sc);
          bool ok = false; for (size_t i = n0; i < g->createLog.size(); i++) if (g->createLog[i].ok) { ok = true; if (g->createLog[i].cmd != cmd) violation("control-data", "the command line arrived changed (%zu characters instead of %zu)", g->createLog[i].cmd.size(), cmd.size()); ustr ev = g->createLog[i].env; ustr a = env; while (!a.empty() && !a.back()) a.pop_back(); while (!ev.empty() && !ev.back()) ev.pop_back(); if (ev != a) violation("control-data", "the environment arrived changed (%zu characters instead of %zu)", ev.size(), a.size()); stat("spawn.chars", env.size() + cmd.size()); }
          if (!ok) { violation("spawn", "no process was created"); return; } }
        s.out.chunkMax = r.chance(0.5) ? 65536 : r.range(100, 5000); s.errOut.chunkMax = s.out.chunkMax;
        auto print = [&](int n, bool toErr) { int &k = toErr ? wroteE : wrote; for (int i = 0; i < n; i++) { char b[30]; snprintf(b, sizeof b, "%c%d", toErr ? 'e' : 'o', k++); childWrite(toErr ? hErr() : hOut(), A(b) + ustr(r.below(o.cols - 12), u'=') + u"\r\n"); if (k % 300 == 299) sleepMs(90); } };
        int rounds = r.range(2, 4);
        for (int k = 0; k < rounds && !violations; k++) {
            bool pause = r.chance(0.6); if (pause) { s.out.paused = true; if (conerr) s.errOut.paused = true; stat("reader.paused"); }
            int many = pause && r.chance(0.35) ? r.range(1500, 3500) : r.range(1, 1200); pp.post([&, many] { print(many, conerr && r.chance(0.5)); });
            std::string typed; int calls = 0;
            sinkConsole(s.con);
            for (int j = 0; j < r.range(2, 12); j++) {
                sleepMs(r.range(0, 200));
                uint64_t t0 = g->nowUs;
                if (r.chance(0.5)) { if (!s.resize(o.cols, o.rows)) violation("rpc", "winpty_set_size failed while output was in flight"); } else { Outcome x = doList(s.wp, 64, true); if (!x.ok || x.n != 2) violation("rpc", "process list failed while output was in flight: %d %s", x.n, x.e.msg.c_str()); }
                if (g->nowUs - t0 > 2000000) violation("event-loop-blocked", "a request took %llu ms while %s", (unsigned long long)((g->nowUs - t0) / 1000), pause ? "nobody was reading the output pipe" : "output was in flight"); calls++;
                std::string b; for (int i = r.range(0, r.chance(0.2) ? 3000 : 20); i > 0; i--) b += (char)r.range('a', 'z'); typed += b; if (!b.empty()) s.write(b);
            }
            stat("rpcs", calls);
            if (!waitFor([&] { return pp.idle(); }, 600000)) violation("event-loop-blocked", "the program could not finish writing");
            if (pause) { sleepMs(r.range(0, 20000)); }
            auto keys = [&] { std::string have; for (auto &q : s.con->inputLog) if (q.EventType == KEY_EVENT && q.Event.KeyEvent.bKeyDown && q.Event.KeyEvent.uChar.UnicodeChar) have += (char)q.Event.KeyEvent.uChar.UnicodeChar; return have; };
            waitFor([&] { return keys().size() >= typed.size(); }, 20000);
            if (keys() != typed) violation("input-data", "%zu characters were typed, %zu arrived, or they differ", typed.size(), keys().size());
            stat("typed", typed.size());
            s.out.paused = s.errOut.paused = false;
            s.quiesce();
            if (s.vt.nErr) violation("stream", "%s", s.vt.errors.c_str());
            for (int which = 0; which < (conerr ? 2 : 1); which++) { Vt &vt = which ? s.vtErr : s.vt; int n = 0, total = which ? wroteE : wrote; for (auto &kv : vt.lines) { std::string t = vt.rowText(kv.first); if (t.empty()) continue; int q = -1; char c; if (sscanf(t.c_str(), "%c%d", &c, &q) != 2 || q != n) { violation("output-data", "the terminal shows [%s] where line %d belongs", t.c_str(), n); break; } n++; } if (n != total && !violations) violation("output-data", "%d lines arrived of %d", n, total); stat("lines.checked", n); }
        }
        stat("nontrivial"); stat("out.bytes", s.out.data.size());
        pp.quit = true; if (!waitFor([&] { return s.out.closed; }, 60000)) violation("pipe-never-closed", "the output pipe did not end");
        s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
// A client that writes input much faster than it can be handled: everything arrives, and the agent holds only a
// bounded part of it at any moment.
SCENARIO(inflood) {
    Rng r(params.num("seed", 1) * 83 + 5); pickSchedule(r); pickOs(r); g->cfg.pStall = 0; g->cfg.pSwitch = 0.02;
    bool prompt = r.chance(0.6); if (prompt) { g->cfg.pPendingIo = 0; g->cfg.pFragment = 0; g->cfg.ioLatencyUs = 0; }
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; o.cols = 40; o.rows = 10; if (r.chance(0.5)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; o.mouseMode = r.below(3);
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; if (!s.spawn(pp.program())) { violation("spawn", "winpty_spawn failed"); return; }
        sleepMs(300);
        size_t before = s.agent->heapNow, total = (size_t)r.range(1000000, 1600000), done = 0, piece = (size_t)(r.chance(0.5) ? 1 << 22 : r.range(20000, 400000)); s.agent->heapPeak = before;
        uint64_t h = 0; size_t n = 0; std::string all(total, 0);
        for (auto &c : all) { uint8_t k = (uint8_t)r.below(20); c = k == 0 ? '\r' : (char)('a' + k); }
        Thread *w = spawnThread(g->client, "typist", [&] { while (done < total) { size_t k = std::min(piece, total - done); s.write(all.substr(done, k)); done += k; } });
        auto drain = [&] { ApiScope sc("drain"); for (auto &q : s.con->inputLog) if (q.EventType == KEY_EVENT && q.Event.KeyEvent.bKeyDown && q.Event.KeyEvent.uChar.UnicodeChar) { if (n < total && (char)q.Event.KeyEvent.uChar.UnicodeChar != all[n] && !h) h = n + 1; n++; } s.con->inputLog.clear(); s.con->inputLogTime.clear(); s.con->input.clear(); };
        if (!waitFor([&] { drain(); return n >= total; }, 600000)) violation("input-data", "%zu of %zu characters arrived", n, total);
        joinThread(w); sleepMs(200); drain();
        if (h || n != total) violation("input-data", "of %zu characters typed %zu arrived; the first difference is at %llu", total, n, (unsigned long long)h);
        size_t used = s.agent->heapPeak - before; statMax("max.input.held", used);
        if (used > 12000000) violation("unbounded", "the agent held up to %zu bytes for %zu bytes of input", used, total);
        if (!s.resize(o.cols + 1, o.rows)) violation("rpc", "winpty_set_size failed after a flood of input");
        stat("flooded", total); stat("nontrivial");
        pp.quit = true; waitFor([&] { return s.out.closed; }, 100000); s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

// The reader of an output pipe has gone: nothing may pile up for it.
SCENARIO(gonereader) {
    Rng r(params.num("seed", 1) * 79 + 1); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; o.cols = r.range(20, 120); o.rows = r.range(3, 50); bool conerr = r.chance(0.5); if (conerr) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.3)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT;
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; if (!s.spawn(pp.program(), 0)) { violation("spawn", "winpty_spawn failed"); return; }
        int which = conerr ? r.below(3) : 0;      // 0 out, 1 err, 2 both
        auto churn = [&](int n) { pp.run([&] { for (int i = 0; i < n; i++) { char b[40]; snprintf(b, sizeof b, "line %d", i); childWrite(conerr && i % 2 ? hErr() : hOut(), A(b) + ustr(i % (o.cols - 12), u'x') + u"\r\n"); if (i % 100 == 99) sleepMs(70); if (i % 100 == 50) { ustr t = u"title " + A(b); SetConsoleTitleW(P(t)); } } }); sleepMs(300); };
        for (int i = 0; i < 9; i++) churn(conerr ? 800 : 400);      // every line of the console's 3000 has been in use
        s.quiesce();
        auto drop = [&](Reader &q) { ApiScope sc("drop"); g->client->strictHandles = false; q.paused = true; g->client->close(q.h); q.paused = false; };
        if (which == 0 || which == 2) drop(s.out); if (which == 1 || which == 2) drop(s.errOut);
        if (r.chance(0.5)) s.write("abc\x1b");
        churn(400); churn(400); size_t b0 = liveBytes(s.agent); int n0 = liveBlocks(s.agent); std::string h0 = handleSummary(s.agent);
        int more = r.range(3, 8);
        for (int k = 0; k < more; k++) { churn(400); if (which != 1) s.write(k % 2 ? "\x1b" : "q"); if (r.chance(0.5)) s.resize(o.cols, o.rows); }
        sleepMs(1500);
        size_t b1 = liveBytes(s.agent);
        if (b1 > b0 + 4096) violation("unbounded", "the agent holds %zu bytes more after %d lines of output on a pipe whose reader has gone", b1 - b0, more * 400);
        if (liveBlocks(s.agent) > n0 + 16) violation("unbounded", "the agent holds %d more memory blocks", liveBlocks(s.agent) - n0);
        if (s.agent->exited) violation("agent-left", "the agent exited by itself (%s)", s.agent->exitWhy); else if (!s.resize(o.cols, o.rows + 1)) violation("rpc", "winpty_set_size failed");
        if (which == 1) { s.quiesce(); if (s.vt.nErr) violation("stream", "%s", s.vt.errors.c_str()); }
        statMax("max.growth", b1 > b0 ? b1 - b0 : 0); stat("gone.readers"); stat("nontrivial");
        pp.quit = true; api.free(s.wp); s.wp = nullptr; CloseHandle(s.conin); s.conin = nullptr;
        waitFor([&] { return s.out.closed && (!conerr || s.errOut.closed); }, 60000);
        for (auto q : {&s.out, &s.errOut}) if (q->t) { joinThread(q->t); if (g->client->get(q->h)) CloseHandle(q->h); q->t = nullptr; }
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}

// The same round of activity again and again: handles, memory and work per round stay level.
SCENARIO(steady) {
    Rng r(params.num("seed", 1) * 83 + 4); pickSchedule(r); pickOs(r); g->cfg.pStall = 0; g->cfg.pSwitch = std::min(g->cfg.pSwitch, 0.15);
    if (r.chance(0.15)) g->client->env["WINPTY_DEBUG"] = "trace";
    loadLibwinpty(); Baseline bl = baseline();
    {
        Session s; SessionOpts o; o.cols = r.range(20, 120); o.rows = r.range(3, 50); bool conerr = r.chance(0.25); if (conerr) o.flags |= WINPTY_FLAG_CONERR; if (r.chance(0.2)) o.flags |= WINPTY_FLAG_PLAIN_OUTPUT; o.mouseMode = r.below(3);
        if (!s.open(o)) { violation("open", "winpty_open failed: %s", s.openErr.msg.c_str()); return; }
        Puppet pp; if (!s.spawn(pp.program(), 0)) { violation("spawn", "winpty_spawn failed"); return; }
        uint64_t roundSeed = r.next(); HANDLE extra = nullptr;
        auto round = [&] {
            Rng q(roundSeed); int ops = 25;
            for (int i = 0; i < ops; i++) switch (q.below(10)) {
            case 0: { int n = q.range(1, 250); bool e = conerr && q.chance(0.5); pp.run([=] { for (int j = 0; j < n; j++) childWrite(e ? hErr() : hOut(), ustr(j % 17, u'a') + u"\r\n"); sleepMs(60); }); break; }
            case 1: { int c = q.range(20, 150), rr = q.range(3, 60); if (!s.resize(c, rr)) violation("rpc", "winpty_set_size failed"); break; }
            case 2: { int n = q.range(0, 300); pp.run([=] { ustr t(n, u't'); SetConsoleTitleW(P(t)); }); break; }
            case 3: { std::string b; int n = q.range(1, 200); for (int j = 0; j < n; j++) b += (char)q.range(0x20, 0x7e); s.write(b); break; }
            case 4: s.write(q.chance(0.5) ? "\x1b[A\x1b[1;5D\x1bOP" : "\x1b[<0;5;5M\x1b[<0;5;5m"); break;
            case 5: { Outcome x = doList(s.wp, 1 + q.below(4), true); (void)x; break; }
            case 6: pp.run([&] { if (!extra) { extra = CreateConsoleScreenBuffer(GENERIC_READ | GENERIC_WRITE, 3, nullptr, CONSOLE_TEXTMODE_BUFFER, nullptr); SetConsoleActiveScreenBuffer(extra); childWrite(extra, u"other buffer"); sleepMs(60); } SetConsoleActiveScreenBuffer(hOut()); CloseHandle(extra); extra = nullptr; }); break;
            case 7: pp.run([&] { COORD z = {0, 0}; DWORD n; auto &b = *s.con->active; FillConsoleOutputCharacterW(hOut(), L' ', b.w * b.h, z, &n); FillConsoleOutputAttribute(hOut(), 7, b.w * b.h, z, &n); SetConsoleCursorPosition(hOut(), z); sleepMs(60); }); break;
            case 8: { int m = q.below(8); pp.run([=] { SetConsoleMode(hIn(), 0x80 | (m & 1 ? 0x10 : 0) | (m & 2 ? 0x40 : 0) | (m & 4 ? 1 : 0)); sleepMs(60); }); break; }
            case 9: sleepMs(q.range(1, 200)); break;
            }
            s.resize(o.cols, o.rows); pp.run([&] { SetConsoleTitleW((LPCWSTR)u"t"); SetConsoleMode(hIn(), 0x1E7); COORD z = {0, 0}; SetConsoleCursorPosition(hOut(), z); });
            sleepMs(2500); s.feed(); s.vt.lines.clear(); s.vtErr.lines.clear(); sinkConsole(s.con);
        };
        s.resize(150, 60);
        pp.run([&] { for (int j = 0; j < 3300; j++) { SetConsoleTextAttribute(hOut(), 0x1F); childWrite(hOut(), ustr(149, u'w') + u"\r\n"); if (conerr) { SetConsoleTextAttribute(hErr(), 0x1F); childWrite(hErr(), ustr(149, u'w') + u"\r\n"); } if (j % 50 == 49) sleepMs(60); } SetConsoleTextAttribute(hOut(), 7); if (conerr) SetConsoleTextAttribute(hErr(), 7); });
        int warm = 3, rounds = r.range(6, 12); std::vector<int> blocks; std::vector<size_t> bytes; std::vector<std::string> hs; std::vector<long> clientBlocks;
        for (int k = 0; k < warm + rounds && !violations; k++) { round(); if (k >= warm - 1) { blocks.push_back(liveBlocks(s.agent)); bytes.push_back(liveBytes(s.agent)); hs.push_back(handleSummary(s.agent)); clientBlocks.push_back((long)g->client->heap.size()); } stat("rounds"); }
        int n = (int)blocks.size() - 1;
        if (!violations && n > 3) {
            int lo = *std::min_element(blocks.begin(), blocks.begin() + 3);
            int hi = *std::max_element(blocks.end() - 3, blocks.end()), mn = *std::min_element(blocks.end() - 3, blocks.end());
            if (mn > *std::max_element(blocks.begin(), blocks.begin() + 2) + 2 && mn > lo + 2) violation("memory-grows", "live memory blocks of the agent per round: %d, %d, ... %d, %d, %d", blocks[0], blocks[1], blocks[n - 2], blocks[n - 1], blocks[n]);
            (void)hi;
            size_t b0 = *std::max_element(bytes.begin(), bytes.begin() + 3), b1 = *std::min_element(bytes.end() - 3, bytes.end());
            int ups = 0; for (int k = 0; k < n; k++) ups += bytes[k + 1] > bytes[k];      // (a one-off step is a buffer that met a larger burst)
            if (b1 > b0 + 2048 && ups * 2 > n) violation("memory-grows", "live memory of the agent per round: %zu, %zu, ... %zu, %zu, %zu bytes", bytes[0], bytes[1], bytes[n - 2], bytes[n - 1], bytes[n]);
            std::set<std::string> first(hs.begin(), hs.begin() + 3); if (!first.count(hs[n]) && !first.count(hs[n - 1])) violation("handles-grow", "handles of the agent by type: at first %s, at last %s", hs[0].c_str(), hs[n].c_str());
            if (clientBlocks[n] > clientBlocks[0] && clientBlocks[n - 1] > clientBlocks[0]) violation("memory-grows", "live memory blocks of the client: %ld, at last %ld", clientBlocks[0], clientBlocks[n]);
            stat("nontrivial"); statMax("max.blocks", hi);
        }
        // idle: bounded work, no growth
        sleepMs(3000); long a0 = s.agent->apiCalls; uint64_t i0 = s.out.data.size(); size_t m0 = liveBytes(s.agent); std::string hh = handleSummary(s.agent);
        int secs = r.range(10, 60); sleepMs(secs * 1000); long perSec = (s.agent->apiCalls - a0) / secs;
        statMax("max.idle_calls_per_s", perSec); stat("idle.seconds", secs);
        if (perSec > 25000) violation("busy-idle", "an idle agent makes %ld system calls per second", perSec);
        if (s.out.data.size() != i0) violation("idle-output", "an idle session sent %zu bytes: %s", s.out.data.size() - (size_t)i0, esc(s.out.data.substr(i0), 200).c_str());
        long a1 = s.agent->apiCalls; sleepMs(secs * 1000); long later = (s.agent->apiCalls - a1) / secs; if (later > perSec + perSec / 5 + 20) violation("busy-idle", "the work of an idle agent grew from %ld to %ld system calls per second", perSec, later);
        if (liveBytes(s.agent) > m0 + 512) violation("memory-grows", "an idle agent gained %zu bytes in %d s", liveBytes(s.agent) - m0, secs * 2);
        if (handleSummary(s.agent) != hh && r.chance(2)) { sleepMs(13); if (handleSummary(s.agent) != hh) { sleepMs(17); if (handleSummary(s.agent) != hh) violation("handles-grow", "handles of an idle agent went from %s to %s", hh.c_str(), handleSummary(s.agent).c_str()); } }
        pp.quit = true; s.close();
    }
    checkAgentsGone("end"); checkBaseline(bl, "end");
}
