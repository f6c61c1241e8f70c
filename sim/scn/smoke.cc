#include "../harness.h"
using namespace sim;
SCENARIO(smoke) {
    loadLibwinpty();
    Baseline b = baseline();
    {
        Session s; Puppet pp;
        if (!s.open(SessionOpts())) { violation("open", "open failed: %s", s.openErr.msg.c_str()); return; }
        if (!s.spawn(pp.program())) { violation("spawn", "spawn failed: %s", s.spawnErr.msg.c_str()); return; }
        pp.run([] { childWrite(hOut(), u"hello world\r\nsecond line\r\nthird"); });
        s.quiesce();
        s.write("abc\r");
        s.quiesce();
        note("OUT %s", esc(s.out.data).c_str());
        for (auto &kv : s.vt.lines) note("ROW %lld %s", (long long)kv.first, s.vt.rowText(kv.first).c_str());
        note("ERR %s", s.vt.errors.c_str());
        note("INPUT %zu", s.con->inputLog.size());
        pp.quit = true;
        waitFor([&s] { return s.out.closed; }, 100000);
        note("eof %d err %u", s.out.eof, (unsigned)s.out.err);
        s.close();
    }
    checkAgentsGone("end");
    checkBaseline(b, "end");
}
