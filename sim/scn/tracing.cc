// Tracing: what is sent to the debug server, and that nothing else notices.
#include "apih.h"
#include <dlfcn.h>
#include <array>

namespace {
typedef void (*TraceFn)(const char *, ...); typedef bool (*FlagFn)(const char *);
void *libSym(const char *n) { return libHandle ? dlsym(libHandle, n) : nullptr; }
std::string body(const std::string &m) { size_t p = m.find("]: "); return p == std::string::npos ? m : m.substr(p + 3); }
}

SCENARIO(tracecalls) {
    Rng r(params.num("seed", 1) * 109 + 3); pickSchedule(r); pickOs(r); g->cfg.pStall = 0;
    static const char *dbg[] = {"trace", "1", "x,trace", "trace,y", "a,1,b", "", "tracex", "atrace", "trace ", "2", "11", ",,trace,,"}; int di = r.below(4) ? r.below(5) : r.below(12);
    std::string conf = dbg[di]; if (r.chance(0.1)) conf += "," + std::string(r.range(1, 600), 'z');
    if (r.chance(0.95)) g->client->env["WINPTY_DEBUG"] = conf; else conf = "";
    bool known = conf.size() < 255; std::string cc = "," + conf + ","; bool on = known && (cc.find(",trace,") != std::string::npos || cc.find(",1,") != std::string::npos);
    int how = r.below(4); startDebugServer(how, r.next());
    loadLibwinpty();
    TraceFn tr = (TraceFn)libSym("_Z5tracePKcz"); FlagFn hf = (FlagFn)libSym("_Z12hasDebugFlagPKc"); typedef bool (*En)(); En en = (En)libSym("_Z16isTracingEnabledv");
    if (!tr || !hf || !en) { stat("symbols.missing"); return; }
    if (known) { stat("flags.checked"); if (en() != on) violation("debug-flag", "tracing is %s with WINPTY_DEBUG=[%s]", en() ? "on" : "off", conf.c_str());
        for (const char *f : {"trace", "1", "x", "y", "z", "a", "show_console", "trac"}) { bool want = cc.find("," + std::string(f) + ",") != std::string::npos && !conf.empty(); if (hf(f) != want) violation("debug-flag", "the flag %s is %s with WINPTY_DEBUG=[%s]", f, hf(f) ? "set" : "not set", conf.c_str()); } }
    tr("warm-up"); if (known && on && how == 1) waitFor([] { return g->debugMessages.size() >= 1; }, 10000);
    size_t m0 = g->debugMessages.size(), h0 = g->client->handles.size();
    int threads = r.chance(0.4) ? r.range(2, 4) : 1; std::vector<std::vector<std::string>> sent(threads); std::vector<std::vector<std::array<int, 3>>> when(threads);
    auto nowMs = [] { Quiet qq; FILETIME f; GetSystemTimeAsFileTime(&f); long long ms = (((long long)f.dwHighDateTime << 32) + f.dwLowDateTime) / 10000 - 134774LL * 24 * 3600 * 1000; return (int)(ms % 100000000); }; std::vector<Thread*> ts; uint64_t seed = r.next();
    auto work = [&](int id) {
        Rng q(seed + id); int n = q.range(5, 30);
        for (int i = 0; i < n; i++) {
            static const int lens[] = {0, 1, 500, 900, 960, 970, 980, 990, 1000, 1010, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1100, 2047, 2048, 2049, 4096, 5000, 70000};
            char head[40]; snprintf(head, sizeof head, "T%d.%d:", id, i); std::string t = q.chance(0.5) ? std::string(lens[q.below(24)], (char)('a' + q.below(26))) : std::string(q.range(0, 1300), 'q'); if (q.chance(0.1)) for (auto &c : t) c = (char)q.range(1, 255);
            DWORD e = q.chance(0.2) ? 0 : q.below(100000); int t0 = nowMs(); SetLastError(e);
            switch (q.below(4)) { case 0: tr("%s%s", head, t.c_str()); break; case 1: { char num[40]; snprintf(num, sizeof num, "%d %lld %u", -i, (long long)i << 40, i); t = num; tr("%s%d %lld %u", head, -i, (long long)i << 40, i); break; } case 2: t = "plain text, no parameters"; tr((std::string(head) + t).c_str()); break; default: tr("%s%s", head, t.c_str()); }
            if (GetLastError() != e) violation("last-error", "tracing a message of %zu characters changed the last error from %u to %u (debug server %d)", t.size(), (unsigned)e, (unsigned)GetLastError(), how);
            sent[id].push_back(head + t); when[id].push_back({t0, nowMs(), (int)GetCurrentThreadId()}); stat("messages.sent"); if (on && known) stat("messages.on");
            if (q.chance(0.2)) { SetLastError(e); bool b = hf(q.chance(0.5) ? "trace" : "nothing"); (void)b; if (GetLastError() != e) violation("last-error", "asking for a debug flag changed the last error from %u to %u", (unsigned)e, (unsigned)GetLastError()); }
        }
    };
    for (int i = 1; i < threads; i++) ts.push_back(spawnThread(g->client, "tracer", [&, i] { work(i); }));
    work(0); for (auto t : ts) joinThread(t);
    if (g->client->handles.size() != h0) violation("client-leak", "tracing left %zd handles open", (ssize_t)g->client->handles.size() - (ssize_t)h0);
    sleepMs(50);
    if (known && !on && g->debugMessages.size() != m0) violation("trace", "messages were sent although tracing is off");
    for (auto &m : g->debugMessages) { if (m.size() >= 1024) violation("trace", "a message of %zu bytes", m.size()); if (m.empty() || m[0] != '[') violation("trace", "a malformed message [%s]", esc(m, 100).c_str()); }
    if (known && on && how && how != 3) {       // each once, in order per thread, cut at most
        std::vector<size_t> next(threads);
        for (size_t i = m0; i < g->debugMessages.size(); i++) {
            std::string b = body(g->debugMessages[i]); int id = -1, k = -1; if (sscanf(b.c_str(), "T%d.%d:", &id, &k) != 2 || id < 0 || id >= threads) { violation("trace", "the server received [%s]", esc(b, 80).c_str()); break; }
            if (k != (int)next[id]) { violation("trace", "message %d of thread %d arrived as number %zu", k, id, next[id]); break; } next[id]++;
            const std::string &want = sent[id][k];
            if (want.compare(0, b.size(), b) != 0 || (b.size() < want.size() && g->debugMessages[i].size() < 1000)) { violation("trace", "message [%s] (%zu) arrived as [%s] (%zu)", esc(want, 60).c_str(), want.size(), esc(b, 60).c_str(), b.size()); break; }
            int sec = -1, ms = -1, pid = -1, tid = -1; char name[1025]; const auto &w = when[id][k]; size_t close = g->debugMessages[i].find("]: ");     // who and when
            if (sscanf(g->debugMessages[i].c_str(), "[%d.%3d %1000[^,],p%d,t%d]: ", &sec, &ms, name, &pid, &tid) != 5 || close == std::string::npos || g->debugMessages[i].find('.') != 6) { violation("trace", "the server received the malformed message [%s]", esc(g->debugMessages[i], 80).c_str()); break; }
            if (w[1] >= w[0] && (sec * 1000 + ms < w[0] || sec * 1000 + ms > w[1])) { violation("trace-head", "a message sent between %d and %d ms is stamped [%s]", w[0], w[1], esc(g->debugMessages[i], 40).c_str()); break; }
            if (pid != (int)g->client->pid || tid != w[2]) { violation("trace-head", "a message of process %d, thread %d names [%s]", (int)g->client->pid, w[2], esc(g->debugMessages[i], 60).c_str()); break; }
            stat("messages.checked");
        }
        for (int i = 0; i < threads; i++) if (next[i] != sent[i].size() && !violations) violation("trace", "%zu messages of thread %d arrived; %zu were traced", next[i], i, sent[i].size());
    }
}
