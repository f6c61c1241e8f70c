From dc701efb7e49e6c617d4c66b8dc9a234f375d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:46 +0000
Subject: [PATCH 01/19] fix: use the scraped buffer's own cursor visibility

The cursor's visibility is a property of each screen buffer.  The scraper
asked the agent's standard output buffer, so a program drawing in its own
active buffer had its cursor shown when hidden, and hidden when shown.
---
 src/agent/Scraper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 21f9c67..62c4e02 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -336,7 +336,7 @@ void Scraper::syncConsoleContentAndSize(
     const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
-    if (!GetConsoleCursorInfo(GetStdHandle(STD_OUTPUT_HANDLE), &cursorInfo)) {
+    if (!GetConsoleCursorInfo(m_consoleBuffer->conout(), &cursorInfo)) {
         trace("GetConsoleCursorInfo failed");
     } else {
         cursorVisible = cursorInfo.bVisible != 0;
-- 
2.43.0


From fa64a6370344d7b049f8631be1de4e9373c58282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 02/19] fix: scrape the resized window, not the previous one,
 in direct mode

After a resize in direct mode the old window rectangle was read.  If it no
longer fits in the buffer, the read fails, and before Windows 10 an
out-of-range read crashes the caller.
---
 src/agent/Scraper.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 62c4e02..9474ad5 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -365,7 +365,10 @@ void Scraper::syncConsoleContentAndSize(
         if (forceResize) {
             resizeImpl(info);
         }
-        directScrapeOutput(info, cursorVisible);
+        // Resizing can move and shrink the window and the buffer, so `info`
+        // is stale afterwards.
+        directScrapeOutput(
+            forceResize ? m_consoleBuffer->bufferInfo() : info, cursorVisible);
     } else {
         if (!m_console.frozen()) {
             if (!scrollingScrapeOutput(info, cursorVisible, true)) {
-- 
2.43.0


From d12692b39e0e4be61eebb2bd0dba6e81b0275e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 03/19] fix: keep track of a hidden terminal cursor across a
 terminal reset

Clearing the terminal does not make its cursor visible again, so forgetting
that it was hidden could leave it hidden for good, e.g. when a program shows
its cursor again in the same moment as it clears the screen.
---
 src/agent/Terminal.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..a8dbc44 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -311,7 +311,6 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-    m_cursorHidden = false;
     m_remoteColor = -1;
 }
 
-- 
2.43.0


From ea8ae3a963e2298af26537971f08dd9a53cb0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 04/19] fix: output a surrogate pair whose halves arrive
 separately

---
 src/agent/Terminal.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a8dbc44..a4d92c4 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -337,7 +337,15 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
             } else {
                 okWidth = static_cast<size_t>(width) > m_lineData.size();
             }
-            if (!okWidth ||
+            // If a leading surrogate was the last thing output (as a
+            // replacement character), and its trailing surrogate has now
+            // shown up, then the pair must be output as one character.
+            const bool splitPair =
+                okWidth &&
+                static_cast<size_t>(width) > m_lineData.size() &&
+                (m_lineData.back().Char.UnicodeChar & 0xFC00) == 0xD800 &&
+                (lineData[m_lineData.size()].Char.UnicodeChar & 0xFC00) == 0xDC00;
+            if (!okWidth || splitPair ||
                     memcmp(m_lineData.data(), lineData,
                            sizeof(CHAR_INFO) * m_lineData.size()) != 0) {
                 m_lineDataValid = false;
-- 
2.43.0


From ffd37f38db3fc0ab47a4c1208429010b64c9f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:49 +0000
Subject: [PATCH 05/19] fix: scrape a frozen console with its current cursor
 and window

When a tentative scrape fails, the console is frozen and scraped again.
The position data from before the freeze is stale by then, and moving the
terminal to a stale cursor line inserts blank lines in plain mode.
---
 src/agent/Scraper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 9474ad5..7c0a936 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -333,7 +333,7 @@ void Scraper::syncConsoleContentAndSize(
         m_console.setFrozen(true);
     }
 
-    const ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
+    ConsoleScreenBufferInfo info = m_consoleBuffer->bufferInfo();
     bool cursorVisible = true;
     CONSOLE_CURSOR_INFO cursorInfo = {};
     if (!GetConsoleCursorInfo(m_consoleBuffer->conout(), &cursorInfo)) {
@@ -373,6 +373,8 @@ void Scraper::syncConsoleContentAndSize(
         if (!m_console.frozen()) {
             if (!scrollingScrapeOutput(info, cursorVisible, true)) {
                 m_console.setFrozen(true);
+                // The console was still changing until it was frozen.
+                info = m_consoleBuffer->bufferInfo();
             }
         }
         if (m_console.frozen()) {
-- 
2.43.0


From cb8cdf1a14c8d1752e002610f7dd9f9b96b896ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 06/19] fix: don't mistake ESC followed by a DSR reply for
 Alt-F3

When ESC is pressed while a DSR query is outstanding, the input buffer holds
ESC followed by the terminal's reply, ESC [ row ; col R.  For row 1 and
columns 2 to 8 that is also the encoding of Alt-F3 with modifiers, so the
program received Alt-F3 instead of Escape.
---
 src/agent/ConsoleInput.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 192cac2..1caed53 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -422,6 +422,15 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
         }
     }
 
+    // An ESC keypress that is still waiting for the terminal's answer to our DSR
+    // query is followed by that answer.  Don't let the pair be mistaken for an
+    // Alt-prefixed key: ESC ESC [ 1 ; <mod> R is also an encoding of Alt-F3.
+    if (m_dsrSent && inputSize >= 2 && input[0] == '\x1B' &&
+            matchDsr(&input[1], inputSize - 1) > 0) {
+        appendUtf8Char(records, &input[0], 1, false);
+        return 1;
+    }
+
     // Search the input map.
     InputMap::Key match;
     bool incomplete;
-- 
2.43.0


From d089ecc50509d5e1a4ea190d3c147e111cb6a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 07/19] fix: malformed UTF-8 input must not swallow the bytes
 after it

A UTF-8 lead byte consumed as many bytes as its length called for, whatever
they were, so a truncated sequence removed valid characters or the start of an
escape sequence.  Discard only the bytes that aren't part of a valid
character.
---
 src/agent/ConsoleInput.cc | 48 ++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 1caed53..e398f44 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -186,6 +186,27 @@ static int matchMouseRecord(const char *input, int inputSize, MouseRecord &out)
     return 0;
 }
 
+// Match a UTF-8 encoded character.
+// 0   no match
+// >0  match, returns length of match
+// -1  incomplete match
+static int matchUtf8Char(const char *input, int inputSize)
+{
+    const int len = utf8CharLength(input[0]);
+    for (int i = 1; i < len; ++i) {
+        if (i == inputSize) {
+            return -1;
+        }
+        if ((input[i] & 0xC0) != 0x80) {
+            return 0;
+        }
+    }
+    if (len == 0 || decodeUtf8(input) == static_cast<uint32_t>(-1)) {
+        return 0;
+    }
+    return len;
+}
+
 #undef CHECK
 #undef ADVANCE
 #undef SCAN_INT
@@ -463,21 +484,27 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
     // than the DSR flushing mechanism or use a decrepit terminal.  The user
     // might be on a slow network connection.)
     if (input[0] == '\x1B' && inputSize >= 2 && input[1] != '\x1B') {
-        const int len = utf8CharLength(input[1]);
+        const int len = matchUtf8Char(&input[1], inputSize - 1);
         if (len > 0) {
-            if (1 + len > inputSize) {
-                // Incomplete character.
-                trace("Incomplete UTF-8 character in Alt-<Char>");
-                return -1;
-            }
             appendUtf8Char(records, &input[1], len, true);
             return 1 + len;
+        } else if (!isEof && len == -1) {
+            // Incomplete character.
+            trace("Incomplete UTF-8 character in Alt-<Char>");
+            return -1;
         }
     }
 
     // A UTF-8 character.
-    const int len = utf8CharLength(input[0]);
-    if (len == 0) {
+    const int len = matchUtf8Char(input, inputSize);
+    if (!isEof && len == -1) {
+        // Incomplete character.
+        trace("Incomplete UTF-8 character");
+        return -1;
+    }
+    if (len <= 0) {
+        // Discard only the one byte, because the bytes after it might be
+        // valid.
         static bool debugInput = isTracingEnabled() && hasDebugFlag("input");
         if (debugInput) {
             trace("Discarding invalid input byte: %02X",
@@ -485,11 +512,6 @@ int ConsoleInput::scanInput(std::vector<INPUT_RECORD> &records,
         }
         return 1;
     }
-    if (len > inputSize) {
-        // Incomplete character.
-        trace("Incomplete UTF-8 character");
-        return -1;
-    }
     appendUtf8Char(records, &input[0], len, false);
     return len;
 }
-- 
2.43.0


From 47e6efb1c453f1c21dfd1703879478b976ed6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 08/19] fix: console process list with a too small array broke
 the session

The reply's PIDs were not decoded when the caller's array was too small, so the
check for trailing data failed, 0 was returned instead of the required size,
and the control pipe was closed.  Also reject a negative count.
---
 src/libwinpty/winpty.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..b88dbb8 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -948,11 +948,17 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
         writePacket(*wp, packet);
         auto reply = readPacket(*wp);
 
-        auto actualProcessCount = reply.getInt32();
+        const auto actualProcessCount = reply.getInt32();
+        if (actualProcessCount < 0) {
+            throwWinptyException(L"Agent RPC error: invalid process count");
+        }
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        // Always decode every PID.  If the caller's array is too small, then
+        // return the required size without storing anything.
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const auto pid = reply.getInt32();
+            if (actualProcessCount <= processCount) {
+                processList[i] = pid;
             }
         }
 
-- 
2.43.0


From 8e6d929c8924b52336584015769917feb23b5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 09/19] fix: data races on the cached debug configuration

Two threads opening sessions at the same time read and wrote the cached
WINPTY_DEBUG string and the tracing flags without synchronisation.
---
 src/shared/DebugClient.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/DebugClient.cc b/src/shared/DebugClient.cc
index bafe0c8..2443eb7 100644
--- a/src/shared/DebugClient.cc
+++ b/src/shared/DebugClient.cc
@@ -26,13 +26,14 @@
 #include <string.h>
 
 #include <algorithm>
+#include <atomic>
 #include <string>
 
 #include "winpty_snprintf.h"
 
 const wchar_t *const kPipeName = L"\\\\.\\pipe\\DebugServer";
 
-void *volatile g_debugConfig;
+std::atomic<char*> g_debugConfig;
 
 namespace {
 
@@ -109,18 +110,17 @@ static const char *getDebugConfig()
         const size_t len = strlen(buf) + 1;
         char *newConfig = new char[len];
         std::copy(buf, buf + len, newConfig);
-        void *oldValue = InterlockedCompareExchangePointer(
-            &g_debugConfig, newConfig, NULL);
-        if (oldValue != NULL) {
+        char *oldValue = NULL;
+        if (!g_debugConfig.compare_exchange_strong(oldValue, newConfig)) {
             delete [] newConfig;
         }
     }
-    return static_cast<const char*>(g_debugConfig);
+    return g_debugConfig;
 }
 
 bool isTracingEnabled()
 {
-    static bool disabled, enabled;
+    static std::atomic<bool> disabled, enabled;
     if (disabled) {
         return false;
     } else if (enabled) {
-- 
2.43.0


From ee53248809e76dbd5e8fdc3f4e87fdbf93144479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 10/19] fix: don't queue output for a pipe whose reader has
 gone

Output written after the client had closed CONOUT or CONERR was appended
to a queue that is never sent, so the agent grew for as long as the
session lived.
---
 src/agent/NamedPipe.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/agent/NamedPipe.cc b/src/agent/NamedPipe.cc
index 64044e6..266e53e 100644
--- a/src/agent/NamedPipe.cc
+++ b/src/agent/NamedPipe.cc
@@ -295,6 +295,10 @@ size_t NamedPipe::bytesToSend()
 void NamedPipe::write(const void *data, size_t size)
 {
     ASSERT(m_openMode & OpenMode::Writing);
+    if (isClosed()) {
+        // The data can never be sent; queueing it would use ever more memory.
+        return;
+    }
     m_outQueue.append(reinterpret_cast<const char*>(data), size);
 }
 
-- 
2.43.0


From bf70ec95c25898c65a14fb4093eafaafd7885dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 11/19] fix: security items leaked when memory ran out while
 wrapping them

---
 src/shared/WindowsSecurity.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/shared/WindowsSecurity.cc b/src/shared/WindowsSecurity.cc
index 711a863..03f665d 100644
--- a/src/shared/WindowsSecurity.cc
+++ b/src/shared/WindowsSecurity.cc
@@ -42,6 +42,14 @@ struct LocalFreer {
 
 typedef std::unique_ptr<void, LocalFreer> PointerLocal;
 
+struct SidFreer {
+    void operator()(void *ptr) {
+        if (ptr != nullptr) {
+            FreeSid(ptr);
+        }
+    }
+};
+
 template <typename T>
 SecurityItem<T> localItem(typename T::type v) {
     typedef typename T::type P;
@@ -52,7 +60,10 @@ SecurityItem<T> localItem(typename T::type v) {
             LocalFree(reinterpret_cast<HLOCAL>(m_v));
         }
     };
-    return SecurityItem<T>(v, std::unique_ptr<Impl>(new Impl { v }));
+    PointerLocal freer(v);
+    std::unique_ptr<Impl> impl(new Impl { v });
+    freer.release();
+    return SecurityItem<T>(v, std::move(impl));
 }
 
 Sid allocatedSid(PSID v) {
@@ -65,7 +76,10 @@ Sid allocatedSid(PSID v) {
             }
         }
     };
-    return Sid(v, std::unique_ptr<Impl>(new Impl { v }));
+    std::unique_ptr<void, SidFreer> freer(v);
+    std::unique_ptr<Impl> impl(new Impl { v });
+    freer.release();
+    return Sid(v, std::move(impl));
 }
 
 } // anonymous namespace
-- 
2.43.0


From d6a884ed7a68b4ff8f0981461b4a1858972fe500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 12/19] fix: don't let the error trace throw out of the API

---
 src/libwinpty/winpty.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index b88dbb8..8e24421 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -130,9 +130,13 @@ static void translateException(winpty_error_ptr_t *&err) {
     } catch (...) {
         ret = const_cast<winpty_error_ptr_t>(&kUncaughtException);
     }
-    trace("libwinpty error: code=%u msg='%s'",
-        static_cast<unsigned>(ret->code),
-        utf8FromWide(winpty_error_msg(ret)).c_str());
+    try {
+        trace("libwinpty error: code=%u msg='%s'",
+            static_cast<unsigned>(ret->code),
+            utf8FromWide(winpty_error_msg(ret)).c_str());
+    } catch (...) {
+        // The message could not be converted.  Only the trace is lost.
+    }
     if (err != nullptr) {
         *err = ret;
     } else {
-- 
2.43.0


From 7c3d61745092b211ad6580b41fbd134cb23f3972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 13/19] fix: agent process handle leaked when its trace ran out
 of memory

---
 src/libwinpty/winpty.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 8e24421..4208a86 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -517,11 +517,12 @@ static OwnedHandle startAgentProcess(
             WINPTY_ERROR_AGENT_CREATION_FAILED, errStr.c_str());
     }
     CloseHandle(pi.hThread);
+    OwnedHandle agentProcess(pi.hProcess);
     TRACE("Created agent successfully, pid=%u, cmdline=%s",
           static_cast<unsigned int>(pi.dwProcessId),
           utf8FromWide(cmdline).c_str());
     agentPid = pi.dwProcessId;
-    return OwnedHandle(pi.hProcess);
+    return agentProcess;
 }
 
 static void verifyPipeClientPid(HANDLE serverPipe, DWORD agentPid) {
-- 
2.43.0


From ac7600b06bc55dec143f48a2533f71dba355ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 14/19] fix: keep control characters in console titles out of
 the terminal's escape sequence

---
 src/agent/Agent.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/agent/Agent.cc b/src/agent/Agent.cc
index 986edea..b9e2608 100644
--- a/src/agent/Agent.cc
+++ b/src/agent/Agent.cc
@@ -603,8 +603,16 @@ void Agent::syncConsoleTitle()
     std::wstring newTitle = m_console.title();
     if (newTitle != m_currentTitle) {
         if (!m_plainMode && !m_conoutPipe->isClosed()) {
+            // A control character would end the escape sequence early, and the
+            // rest of the title would be interpreted by the terminal.
+            std::wstring printable = newTitle;
+            for (auto &ch : printable) {
+                if (ch < 0x20 || (ch >= 0x7f && ch <= 0x9f)) {
+                    ch = L' ';
+                }
+            }
             std::string command = std::string("\x1b]0;") +
-                    utf8FromWide(newTitle) + "\x07";
+                    utf8FromWide(printable) + "\x07";
             m_conoutPipe->write(command.c_str());
         }
         m_currentTitle = newTitle;
-- 
2.43.0


From c854ed9640fcdc93571d959d24f8709bca03e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 15/19] fix: debug server exited when a client connected before
 ConnectNamedPipe

---
 src/debugserver/DebugServer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/debugserver/DebugServer.cc b/src/debugserver/DebugServer.cc
index 353d31c..8d295da 100644
--- a/src/debugserver/DebugServer.cc
+++ b/src/debugserver/DebugServer.cc
@@ -94,7 +94,9 @@ int main(int argc, char *argv[]) {
     char msgBuffer[MSG_SIZE + 1];
 
     while (true) {
-        if (!ConnectNamedPipe(serverPipe, nullptr)) {
+        // A client may connect between creating the pipe and this call.
+        if (!ConnectNamedPipe(serverPipe, nullptr) &&
+                GetLastError() != ERROR_PIPE_CONNECTED) {
             fprintf(stderr, "error: ConnectNamedPipe failed\n");
             fflush(stderr);
             exit(1);
-- 
2.43.0


From 3ae20561c7f93f5af32852b8f63787418c19f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 16/19] fix: reject an impossible string length in a control
 packet before allocating for it

---
 src/shared/Buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/Buffer.cc b/src/shared/Buffer.cc
index 158a629..7b029a4 100644
--- a/src/shared/Buffer.cc
+++ b/src/shared/Buffer.cc
@@ -86,7 +86,7 @@ int64_t ReadBuffer::getInt64() {
 std::wstring ReadBuffer::getWString() {
     READ_BUFFER_CHECK(getRawValue<Piece>() == Piece::WString);
     const uint64_t charLen = getRawValue<uint64_t>();
-    READ_BUFFER_CHECK(charLen <= SIZE_MAX / sizeof(wchar_t));
+    READ_BUFFER_CHECK(charLen <= (m_buf.size() - m_off) / sizeof(wchar_t));
     // To be strictly conforming, we can't use the convenient wstring
     // constructor, because the string in m_buf mightn't be aligned.
     std::wstring ret;
-- 
2.43.0


From 5e4d7506cdc6b35baa5e882101776a7fb333468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 17/19] fix: Unix adapter used a terminal size it had not
 obtained

When stdin is not a terminal, the main loop compared and used an
uninitialised winsize.  A terminal that reports 0x0 made the adapter pass a
zero size to winpty_config_set_initial_size/winpty_set_size, which only
accept positive sizes.
---
 src/unix-adapter/main.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 992cb70..8a1c492 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -198,6 +198,15 @@ static void registerResizeSignalHandler()
     sigaction(SIGWINCH, &resizeSigAct, NULL);
 }
 
+// Returns false if stdin isn't a terminal or if the terminal doesn't know its
+// size.  (The libwinpty functions only accept positive sizes.)
+static bool getTerminalSize(winsize &sz)
+{
+    memset(&sz, 0, sizeof(sz));
+    return ioctl(STDIN_FILENO, TIOCGWINSZ, &sz) == 0 &&
+        sz.ws_col > 0 && sz.ws_row > 0;
+}
+
 // Convert the path to a Win32 path if it is a POSIX path, and convert slashes
 // to backslashes.
 static std::string convertPosixPathToWin(const std::string &path)
@@ -589,10 +598,12 @@ int main(int argc, char *argv[])
 
     setupWin32Environment();
 
-    winsize sz = { 0 };
-    sz.ws_col = 80;
-    sz.ws_row = 25;
-    ioctl(STDIN_FILENO, TIOCGWINSZ, &sz);
+    winsize sz;
+    if (!getTerminalSize(sz)) {
+        memset(&sz, 0, sizeof(sz));
+        sz.ws_col = 80;
+        sz.ws_row = 25;
+    }
 
     DWORD agentFlags = WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
     if (args.testConerr)        { agentFlags |= WINPTY_FLAG_CONERR; }
@@ -687,8 +698,7 @@ int main(int argc, char *argv[])
         // Check for terminal resize.
         {
             winsize sz2;
-            ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
-            if (memcmp(&sz, &sz2, sizeof(sz)) != 0) {
+            if (getTerminalSize(sz2) && memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
             }
-- 
2.43.0


From 1d05e6a1d608a066ac4e072cca6a05556235501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 18/19] fix: Unix adapter lost a terminal resize during startup

The SIGWINCH handler was installed after the session was started with the
size read earlier, so a resize in between was not noticed until the next
one.  Install the handler before reading the initial size.
---
 src/unix-adapter/main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 8a1c492..629822e 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -598,6 +598,10 @@ int main(int argc, char *argv[])
 
     setupWin32Environment();
 
+    // Register the handler before reading the size, so that a resize during
+    // startup is noticed by the main loop.
+    registerResizeSignalHandler();
+
     winsize sz;
     if (!getTerminalSize(sz)) {
         memset(&sz, 0, sizeof(sz));
@@ -677,7 +681,6 @@ int main(int argc, char *argv[])
         delete [] cmdLineW;
     }
 
-    registerResizeSignalHandler();
     SavedTermiosMode mode =
         setRawTerminalMode(args.testAllowNonTtys, true, args.testConerr);
 
-- 
2.43.0


From 1f80facda926fc31c49b052feb21d12107217b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:27 +0000
Subject: [PATCH 19/19] fix: start a new line when plain output is reset

In plain mode Terminal::reset cannot clear the screen, and it did not move to
a new line either, so the first line after a switch of screen buffers or a CLS
was appended to the end of the last line sent before it.
---
 src/agent/Terminal.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index a4d92c4..c35e310 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -308,6 +308,11 @@ void Terminal::reset(SendClearFlag sendClearFirst, int64_t newLine)
         // 2J   ==> clear the entire screen
         m_output.write(CSI "0m" CSI "1;1H" CSI "2J");
     }
+    if (sendClearFirst == SendClear && m_plainMode && m_remoteColumn > 0) {
+        // We can't clear the screen, but the new content must not be glued to
+        // the line output so far.
+        m_output.write("\r\n");
+    }
     m_remoteLine = newLine;
     m_remoteColumn = 0;
     m_lineData.clear();
-- 
2.43.0

