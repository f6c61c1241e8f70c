import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
NT="The stable tests cover StringBuilder, the UTF-8 encoder and one trivial program under Wine; "
p("P01","The terminal converges to what the console shows",
"Whenever a console program stops drawing, the bytes that winpty has sent, interpreted by a terminal of the configured size, show exactly the characters, colours and attributes of the console's visible window, with the cursor in the same place and visible exactly when the console's cursor is. The stream never writes past the right margin, never moves above the top of the screen and contains only valid UTF-8 and known control sequences. Reading the console never alters what the program put there.",
["inputs","schedules","configurations"],
"Every sequence of console writes, fills, rectangle writes, attribute and cursor changes, code page, window size, Windows version, and every interleaving of the program with the agent's polling.",
NT+"none compares terminal output with console contents, and the outcome depends on which intermediate state each 25 ms poll happens to see.",
["src/agent/Scraper.cc","src/agent/Terminal.cc","src/agent/ConsoleLine.cc","src/agent/LargeConsoleRead.cc","src/agent/UnicodeEncoding.h"],
[("incremental scraping against remembered lines","src/agent/Scraper.cc scrollingScrapeOutput, directScrapeOutput"),("line change detection","src/agent/ConsoleLine.cc detectChangeAndSetLine"),("cell to escape-sequence encoding","src/agent/Terminal.cc sendLine")],
[("remembered lines","last content sent per buffer line","src/agent/Scraper.h m_bufferData"),("remote cursor","where the terminal's cursor is believed to be","src/agent/Terminal.h m_remoteLine, m_remoteColumn")],
["conout pipe bytes","console screen buffer"])
p("P02","Scrolled-off console lines reach the terminal exactly once and in order",
"Every line that scrolls out of the console window while a program appends output appears in the terminal's scrollback exactly once, in order and with its final content, including after the console buffer itself has wrapped and started discarding lines. As long as the program neither clears nor replaces the screen, winpty never clears the terminal and never repeats lines.",
["histories","schedules","inputs"],
"Every append-only history whose rate lets the agent poll before its marker is lost (a few thousand lines per poll), across buffer wrap-around, and every point at which a poll falls between or inside writes.",
NT+"losing or duplicating a line needs a poll to fall at a particular point of a burst or of buffer wrap-around.",
["src/agent/Scraper.cc","src/agent/Terminal.cc","src/agent/ConsoleLine.cc"],
[("sync marker that measures how far the buffer has scrolled","src/agent/Scraper.cc findSyncMarker, createSyncMarker, syncMarkerText"),("virtual line numbering","src/agent/Scraper.cc scrollingScrapeOutput")],
[("sync row and counter","row of the marker and number of the current marker","src/agent/Scraper.h m_syncRow, m_syncCounter"),("scrolled count","lines that have left the buffer","src/agent/Scraper.h m_scrolledCount")],
["conout pipe bytes"])
p("P03","Resizing converges to the last requested size with correct contents",
"After any sequence of resize requests each request that returns success has taken effect in the console: the visible window has the requested number of columns and rows (limited only by what the display allows), and once things settle the terminal shows exactly the console's visible window again. Resizing never loses the text the program shows as far as it still fits, never moves the cursor off its line, never clears the terminal of a program that only appends output, keeps a buffer that has no scrollback that way, and leaves the console usable.",
["histories","inputs","schedules"],
"Every sequence of sizes from 1x1 upwards mixed with program output, cursor positions, screen buffer replacement and polling, at any time during the session.",
NT+"none resizes; the resize path has separate cases per mode, per growth direction and per cursor position.",
["src/agent/Scraper.cc","src/agent/Win32ConsoleBuffer.cc","src/agent/ConsoleFont.cc","src/agent/Agent.cc"],
[("window and buffer adjusted in an order that Windows accepts","src/agent/Scraper.cc resizeImpl"),("console frozen during the change","src/agent/Win32Console.cc FreezeGuard"),("font chosen so that the window fits","src/agent/ConsoleFont.cc setSmallFont")],
[("requested size","pty size","src/agent/Scraper.h m_ptySize")],
["winpty_set_size result","console window","conout pipe bytes"])
p("P04","Output flags shape the stream: plain, colour and separate stderr",
"With plain output the stream holds only text and line breaks (plus colour sequences when colour is requested), and for a program that only appends lines it is exactly those lines; for any other program, whatever the console's screen shows once things settle has been sent, each line on a line of its own. Without the colour option no colour sequences are sent in plain mode. With the separate-stderr option each of the program's two streams arrives, complete and unmixed, on its own pipe.",
["inputs","configurations","schedules"],
"Every combination of output flags and every program output, window size and poll timing.",
NT+"no test opens a session with flags.",
["src/agent/Agent.cc","src/agent/Terminal.cc","src/agent/Scraper.cc","src/libwinpty/winpty.cc"],
[("plain mode suppresses control sequences","src/agent/Terminal.cc reset, sendLine, moveTerminalToLine"),("second screen buffer and scraper for stderr","src/agent/Agent.cc constructor, openErrorBuffer")],
None,["conout and conerr pipe bytes"])
p("P05","Typed text reaches the program exactly once, however it is split",
"Text written to the input pipe arrives in the console's input exactly once, in order, as the same UTF-16 text, with each key pressed and released. The result does not depend on how the bytes are divided among writes or when they arrive, and bytes that are not valid UTF-8 neither stop nor disturb the valid text around them.",
["inputs","schedules"],
"Every byte string of UTF-8 text with arbitrary invalid bytes, every division into writes, every pause between the pieces.",
NT+"no test sends input; splits inside a multi-byte character need particular pipe timing.",
["src/agent/ConsoleInput.cc","src/agent/UnicodeEncoding.h","src/agent/Win32Console.cc"],
[("incomplete sequences are kept until the rest arrives","src/agent/ConsoleInput.cc doWrite, scanInput"),("UTF-8 decoding to UTF-16 key events","src/agent/ConsoleInput.cc appendUtf8Char")],
[("byte queue","input not yet interpreted","src/agent/ConsoleInput.h m_byteQueue")],
["console input records"])
p("P06","Every supported key sequence becomes its key, chunked or not",
"Each terminal escape sequence that winpty documents is delivered as the corresponding virtual key with the right modifiers, exactly once, whatever division of the bytes, and pressing Escape alone is delivered as Escape after a short delay without swallowing or altering following input. Replies to winpty's own terminal queries are consumed and never delivered to the program. With the terminal-escape console input mode the program receives re-encoded sequences instead.",
["inputs","schedules"],
"Every sequence in the key table with every modifier, concatenated with arbitrary text, every split and delay, and every timing of query replies.",
NT+"no test sends a key sequence, and the Escape timeout depends on real-time arrival.",
["src/agent/ConsoleInput.cc","src/agent/DefaultInputMap.cc","src/agent/InputMap.cc","src/agent/ConsoleInputReencoding.cc","src/agent/DsrSender.h"],
[("longest-match lookup in the key table","src/agent/InputMap.cc lookupKey"),("incomplete sequences flushed after a timeout","src/agent/ConsoleInput.cc flushIncompleteEscapeCode"),("reply matching","src/agent/ConsoleInput.cc matchDsr")],
None,["console input records","query sequences on the conout pipe"])
p("P07","Mouse input is delivered faithfully and requested only when wanted",
"Each mouse report that the terminal sends becomes exactly one console mouse event with the right position, buttons, modifiers and motion or double-click flags, and nothing is delivered when mouse input is off. Mouse reporting is switched on in the terminal exactly while the configured mode calls for it and is always switched off again.",
["inputs","histories","schedules"],
"Every report in the supported encodings with every button, modifier and position, every mouse mode, and every history of the program changing its console input mode.",
NT+"no test sends a mouse report; double-click detection depends on time and history.",
["src/agent/ConsoleInput.cc","src/agent/Agent.cc","src/agent/Terminal.cc"],
[("report parsing","src/agent/ConsoleInput.cc scanMouseInput, matchMouseRecord"),("mode switching","src/agent/ConsoleInput.cc updateInputFlags; src/agent/Terminal.cc enableMouseMode")],
[("button state","buttons currently held, last click","src/agent/ConsoleInput.h m_mouseButtonState, m_doubleClick")],
["console input records","mode sequences on the conout pipe"])
p("P08","No input bytes can crash, hang or wedge the agent",
"Whatever bytes a client writes to the input pipe, in whatever pieces, the agent neither stops, spins, leaks without bound nor corrupts memory, and ordinary text sent afterwards is still delivered.",
["inputs","schedules"],
"Every byte string, including unterminated, huge and malformed escape sequences, and every division in time.",
NT+"no test sends bytes to the input pipe.",
["src/agent/ConsoleInput.cc","src/agent/InputMap.cc","src/agent/UnicodeEncoding.h","src/agent/NamedPipe.cc"],
[("bounded parsing with saturating numbers","src/agent/ConsoleInput.cc scanInput, matchMouseDefault, matchMouse1006"),("incomplete input flushed","src/agent/ConsoleInput.cc flushIncompleteEscapeCode")],
None,["process state","console input records"])
p("P09","Every API call honours its documented contract for every argument and reply",
"Each library call either succeeds with all outputs set and no error, or fails with the documented failure value, an error object carrying a code and a non-empty message, and null or zero outputs. This holds for every argument the interface permits, with or without error pointers, and for every possible reply of the agent, including malformed ones.",
["inputs","fault_sequences"],
"Every permitted argument combination of every exported function and every well-formed, truncated, oversized or corrupted agent reply.",
NT+"no test calls the library, and malformed replies need a misbehaving peer.",
["src/libwinpty/winpty.cc","src/include/winpty.h","src/include/winpty_constants.h","src/shared/Buffer.cc"],
[("exceptions translated to error objects at the boundary","src/libwinpty/winpty.cc API_TRY, API_CATCH, translateException"),("reply parsing with complete checks","src/libwinpty/winpty.cc readPacket; src/shared/Buffer.cc ReadBuffer")],
None,["return values, out-parameters and error objects"])
p("P10","Calls from several threads behave as if made one at a time",
"When several threads use one session, or several sessions, at once, every call completes with the reply to its own request and the overall result equals some order of the calls. There are no data races in the library or the agent.",
["schedules","histories"],
"Every interleaving of resize, process-list and spawn calls from several threads on one or more sessions.",
NT+"no test uses threads.",
["src/libwinpty/winpty.cc","src/shared/Mutex.h","src/shared/DebugClient.cc","src/agent/ConsoleFont.cc"],
[("one lock around each request and reply","src/libwinpty/winpty.cc LockGuard in RPC entry points")],
[("control pipe","request/reply stream shared by the calls","src/libwinpty/WinptyInternal.h winpty_s::controlPipe")],
["call results","console size"])
p("P11","A dead or silent agent never blocks the caller beyond the timeout",
"If the agent exits, hangs, stops reading or never connects, every pending and later library call returns within the configured timeout with an error that says so (immediately when the agent has died). No call blocks forever, and closing the session is always possible.",
["crash_points","fault_sequences","schedules"],
"Agent death or stall at every point of the start-up handshake and of every request, with every timeout setting.",
NT+"nothing kills or stalls an agent.",
["src/libwinpty/winpty.cc"],
[("waits on the I/O event and the agent process with a deadline","src/libwinpty/winpty.cc PendingIo::waitForCompletion, handlePendingIo"),("agent exit reported","src/libwinpty/winpty.cc handlePendingIo")],
None,["call results and virtual time"])
p("P12","Failed opens and calls release everything and poison only the session",
"If any system call or allocation fails during open, spawn, resize, query or close, the call reports an error, no handle, memory block or process is leaked once the objects are freed, and the process is left usable: a new session then works. A request that fails part-way makes later requests on that session fail cleanly instead of reading stale replies.",
["fault_sequences","crash_points"],
"A failure injected at every fallible system call and every allocation of each operation.",
NT+"nothing injects a failure.",
["src/libwinpty/winpty.cc","src/shared/OwnedHandle.cc","src/shared/WindowsSecurity.cc","src/shared/BackgroundDesktop.cc"],
[("ownership by RAII","src/shared/OwnedHandle.h; src/libwinpty/winpty.cc createAgentSession"),("control pipe closed after a failed request","src/libwinpty/winpty.cc RpcOperation")],
None,["resource ledger of the client process"])
p("P13","Spawn starts exactly the requested program and hands over its handles once",
"Spawning starts exactly one process with the application name, command line, working directory and environment block given, attached to the session's console; the process and thread handles are returned exactly when asked for, are valid in the caller and identify that process. If the program cannot be started, the call fails with the system's error code and nothing is left running or open.",
["inputs","fault_sequences"],
"Every combination of present and absent, empty, long and non-ASCII parameters, every flag, and every failure of process creation or handle transfer.",
NT+"no test spawns through the library.",
["src/libwinpty/winpty.cc","src/agent/Agent.cc"],
[("parameters marshalled over the control pipe","src/libwinpty/winpty.cc winpty_spawn; src/agent/Agent.cc handleStartProcessPacket"),("handles duplicated out of the agent","src/libwinpty/winpty.cc stealHandle")],
None,["arguments of process creation","returned handles"])
p("P14","Shutdown never loses output and closes the pipes last",
"With auto-shutdown, after the program exits all of its output has been delivered before the output pipes end, and the pipes do end; without it the session stays open until closed. With exit-after-shutdown the agent exits only after all data has been sent, and a slow reader never loses data.",
["schedules","histories"],
"Every amount of final output, every pace of the reader, every timing of the program's exit relative to polling, both shutdown flags.",
NT+"the existing trivial program test sees one timing.",
["src/agent/Agent.cc","src/agent/NamedPipe.cc"],
[("final scrape after the child exits","src/agent/Agent.cc onPollTimeout, autoClosePipesForShutdown"),("pipes close once drained","src/agent/NamedPipe.cc closePipe")],
[("shutdown progress","m_autoShutdown, m_exitAfterShutdown, m_closingOutputPipes","src/agent/Agent.h")],
["end of stream on conout and conerr","agent exit"])
p("P15","Closing a session ends its agent, console and programs",
"When the session is closed, or the client dies, the agent exits and the console with everything attached to it goes away, whatever the agent was doing. No agent outlives its client and no agent leaves a session early by itself.",
["crash_points","schedules"],
"Closing or client death at any moment from the first instruction of open onwards, with programs that ignore or delay close requests.",
NT+"nothing observes agent lifetime.",
["src/agent/Agent.cc","src/agent/EventLoop.cc","src/agent/NamedPipe.cc","src/libwinpty/winpty.cc"],
[("loss of the control pipe ends the agent","src/agent/Agent.cc onPipeIo, pollControlPipe, agentShutdown"),("close message to the console window","src/agent/Win32Console.cc; src/agent/Agent.cc agentShutdown")],
None,["process table","console table"])
p("P16","The agent's pipes are lossless, ordered and bounded",
"Bytes written to a session pipe come out at the other side exactly once and in order however the operating system fragments, delays or completes each transfer, and a slow or absent peer never blocks the agent's event loop. Buffers stay bounded when a peer has gone or input is not consumed.",
["schedules","inputs","fault_sequences"],
"Every fragmentation and completion order of overlapped reads and writes, every size, every connect and close time.",
NT+"overlapped completion order is not under the tests' control.",
["src/agent/NamedPipe.cc","src/agent/EventLoop.cc"],
[("overlapped workers and queues","src/agent/NamedPipe.cc InputWorker, OutputWorker, IoWorker::service"),("bounded input queue","src/agent/NamedPipe.cc InputWorker::shouldIssueIo")],
None,["pipe bytes"])
p("P17","Session pipes admit only the owner and exist only once",
"Every named pipe of a session is created as the first and only instance, grants access only to its owner, the system and administrators, and rejects remote clients where the system supports that. The library talks only to the agent process it started: another process that gets in first is detected and refused. Where winpty is itself the client of a pipe, the server can identify it but not act in its name.",
["configurations","inputs"],
"Every Windows version, every pipe of every session, every impersonating peer.",
NT+"no test inspects security descriptors.",
["src/shared/WindowsSecurity.cc","src/libwinpty/winpty.cc","src/agent/NamedPipe.cc","src/agent/Agent.cc"],
[("restrictive DACL","src/shared/WindowsSecurity.cc createPipeSecurityDescriptorOwnerFullControl"),("peer check","src/libwinpty/winpty.cc verifyPipeClientPid"),("first-instance creation","src/libwinpty/winpty.cc createControlPipe; src/agent/NamedPipe.cc openServerPipe")],
None,["arguments of pipe creation"])
p("P18","Names of pipes and desktops never collide and cannot be predicted",
"Each object name that winpty generates differs from every other, across threads, sessions and processes, and contains fresh randomness whenever the system can supply it. Without a random source names still do not collide within a process.",
["histories","schedules","fault_sequences"],
"Every number of names from concurrent threads and sessions, with each of the random sources present, failing or missing.",
NT+"no test generates names.",
["src/shared/GenRandom.cc","src/agent/Agent.cc","src/libwinpty/winpty.cc"],
[("counter, process id, time and random bytes","src/shared/GenRandom.cc uniqueName")],
None,["names of created pipes and desktops"])
p("P19","Unicode encoding is correct and total for every code point and byte string",
"Every Unicode scalar value is encoded to the one correct UTF-8 form, and to the one correct UTF-16 form, and back without change; surrogates, values out of range, overlong, truncated and otherwise malformed input are rejected, never read past their end, and never crash. Cell text with unpaired surrogates still yields valid UTF-8.",
["inputs"],
"Every 21-bit code point, every byte sequence of up to four bytes with every length, every UTF-16 unit pair.",
"The existing test checks the code-point and three-lead-byte tables for the agent's helpers; the composition with cells, and the library's own conversions, are not covered.",
["src/agent/UnicodeEncoding.h","src/agent/Terminal.cc","src/shared/StringUtil.cc","src/libwinpty/winpty.cc"],
[("encoder and decoder","src/agent/UnicodeEncoding.h encodeUtf8, decodeUtf8, encodeUtf16, decodeUtf16"),("cell scanning","src/agent/Terminal.cc scanUnicodeScalarValue")],
None,["converted text"])
p("P20","Control packets round-trip and malformed ones are rejected safely",
"Every value written into a control packet is read back unchanged, in order and completely. Any malformed, truncated or oversized packet is reported as an error without undefined behaviour, and a misbehaving client can never crash or wedge anything but its own agent.",
["inputs"],
"Every sequence of typed fields and values, every byte string as a packet, every split over the pipe.",
NT+"no test decodes a packet.",
["src/shared/Buffer.cc","src/shared/Buffer.h","src/agent/Agent.cc","src/libwinpty/winpty.cc"],
[("typed writer and checked reader","src/shared/Buffer.cc WriteBuffer, ReadBuffer"),("length-prefixed framing","src/agent/Agent.cc pollControlPipe; src/libwinpty/winpty.cc readPacket")],
None,["decoded values","agent and library behaviour on hostile packets"])
p("P21","The terminal's title follows the console's title",
"Whenever the console title has stopped changing, the last title sent to the terminal equals it, for titles of any length and content (control characters in a title are shown as spaces, so that a title never acts as terminal commands), and no title is sent in plain mode. The title that winpty uses internally never reaches the terminal.",
["inputs","schedules"],
"Every sequence of titles, every length and character, every poll timing.",
NT+"no test reads a title.",
["src/agent/Agent.cc","src/agent/Win32Console.cc"],
[("title polling and comparison","src/agent/Agent.cc syncConsoleTitle; src/agent/Win32Console.cc title")],
None,["title sequences on the conout pipe"])
p("P22","The process list is exact and Ctrl-C interrupts the program once",
"Querying the console's processes returns the number attached, and the identifiers of exactly those processes when the caller's array is large enough, leaving the array untouched beyond its size otherwise and leaving the session usable. Ctrl-C typed while the console handles it reaches the program exactly once and never stops the agent, and is delivered as a plain key otherwise.",
["histories","inputs","schedules"],
"Every number of attached processes and every array size, growing and shrinking concurrently; every console input mode and Ctrl-C history.",
NT+"no test queries processes or sends Ctrl-C.",
["src/libwinpty/winpty.cc","src/agent/Agent.cc","src/agent/ConsoleInput.cc","src/agent/Win32Console.cc"],
[("process list request","src/agent/Agent.cc handleGetConsoleProcessListPacket; src/libwinpty/winpty.cc winpty_get_console_process_list"),("Ctrl-C handling","src/agent/ConsoleInput.cc appendKeyPress; src/agent/Agent.cc constructor")],
None,["call results","console control events"])
p("P23","The console is never left frozen and never frozen in a hanging way",
"The agent freezes the console only for bounded moments: whenever it waits for something, or has stopped by itself, no freeze is left behind and programs can write. While the console is frozen the agent performs no operation known to hang the Windows 10 console (changing the buffer's size or font), and the cursor the program set survives every freeze.",
["schedules","histories","configurations"],
"Every sequence of scraping, resizing, buffer replacement and failures in each Windows version.",
NT+"freezing needs a real console window and its bad cases are timing dependent.",
["src/agent/Win32Console.cc","src/agent/Win32Console.h","src/agent/Scraper.cc","src/agent/Agent.cc"],
[("guards that unfreeze on every path","src/agent/Win32Console.h FreezeGuard, UnfreezeGuard"),("choice of freeze method","src/agent/Agent.cc constructor; src/agent/Win32Console.cc setFreezeUsesMark")],
[("freeze state","console currently frozen","src/agent/Win32Console.h m_frozen")],
["console selection state over time"])
p("P24","An idle or long-lived agent holds a steady set of resources",
"However long a session lives and however much output, input, resizing, title changes and buffer switching it sees, the agent's handles and memory return to a steady level, and an idle session does no unbounded work. A full or slow reader only bounds progress, never grows memory for data nobody will read.",
["histories","schedules"],
"Every long history of output, input, resizes, screen-buffer switches and requests.",
NT+"no test runs a session for long.",
["src/agent/Agent.cc","src/agent/Scraper.cc","src/agent/Win32ConsoleBuffer.cc","src/agent/NamedPipe.cc"],
[("handles owned by scope","src/agent/Win32ConsoleBuffer.cc openConout, openStdout"),("line history bounded by the buffer","src/agent/Scraper.h m_bufferData")],
None,["resource ledger of the agent process"])
p("P25","The Unix adapter relays bytes and resizes exactly, without races",
"The adapter passes terminal input to the input pipe and output-pipe bytes to the terminal unchanged, complete and in order, whatever the fragmentation of reads and writes, signals and interruptions. Every terminal resize, also one during startup, reaches the session, and only positive sizes are passed on. A wakeup sent at any moment is never lost, its threads stop when asked, the terminal's mode is restored at exit, and arguments are converted to a Windows command line that the standard parser splits back into the same arguments.",
["schedules","inputs"],
"Every byte stream, read and write fragmentation, stop time and signal arrival; every argument vector.",
NT+"the adapter is not built by the tests.",
["src/unix-adapter/InputHandler.cc","src/unix-adapter/OutputHandler.cc","src/unix-adapter/WakeupFd.cc","src/unix-adapter/Util.cc","src/unix-adapter/main.cc"],
[("relay threads","src/unix-adapter/InputHandler.cc threadProc; src/unix-adapter/OutputHandler.cc threadProc"),("non-blocking self-pipe","src/unix-adapter/WakeupFd.cc"),("argument quoting","src/unix-adapter/main.cc argvToCommandLine, convertPosixPathToWin")],
None,["bytes at both ends","thread termination"])
p("P26","The caller's desktop and window station are always restored",
"Opening a session leaves the calling process on the window station and desktop it was on, on success and on every failure, on every Windows version and with every flag, and the background objects it created are closed when no longer needed. Programs are started on the caller's original desktop.",
["fault_sequences","configurations"],
"Every Windows version, every flag combination that uses a background desktop, failure of each desktop call.",
NT+"no test runs on a system that needs a background desktop.",
["src/shared/BackgroundDesktop.cc","src/libwinpty/winpty.cc","src/agent/AgentCreateDesktop.cc"],
[("restore on every exit","src/shared/BackgroundDesktop.cc BackgroundDesktop::dispose"),("original desktop passed to spawn","src/libwinpty/winpty.cc winpty_spawn spawnDesktopName")],
None,["window station and desktop of the client","desktop argument of process creation"])
p("P27","Tracing never changes behaviour",
"With tracing on, off, or with the debug server slow, failing or absent, every call gives the same results, no message overruns its buffer, and the calling thread's last-error value is preserved across tracing. A running debug server shows each message it receives once, in order, and keeps serving.",
["configurations","inputs","fault_sequences"],
"Every traced event and message length with each state of the debug server and each debug setting.",
NT+"no test enables tracing.",
["src/shared/DebugClient.cc","src/shared/DebugClient.h","src/debugserver/DebugServer.cc"],
[("bounded formatting","src/shared/DebugClient.cc trace, sendToDebugServer; src/shared/winpty_snprintf.h"),("last error saved and restored","src/shared/DebugClient.cc trace")],
None,["last-error value, results with and without tracing"])
p("P28","String building and formatting never overflow and always round-trip",
"Strings built from any mix of text, characters, integers and hexadecimal numbers contain exactly those parts, for every integer of every width, and fixed-size formatting always stays within and terminates its buffer. Narrow and wide conversions keep every character.",
["inputs"],
"Every integer of every type and width, every string length including buffer boundaries.",
"The existing test checks a handful of numbers; boundary widths, buffer-limited formatting and conversions are not covered.",
["src/shared/StringBuilder.h","src/shared/StringUtil.cc","src/shared/StringUtil.h","src/shared/winpty_snprintf.h"],
[("digit conversion","src/shared/StringBuilder.h gdecOfInt, ghexOfInt"),("bounded copy and formatting","src/shared/StringUtil.h winpty_strncpy; src/shared/winpty_snprintf.h")],
None,["resulting strings"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
