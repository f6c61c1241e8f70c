"""What each check runs: scenarios of the simulated machine (sim/scn) and native monitors (native/)."""

ASSUMPTIONS = [
    "Windows is replaced by an in-process model (sim/): processes, handles, threads, overlapped named pipes, console buffers, windows and messages, written from the documented behaviour and from winpty's own notes about each Windows version; what the model does not reproduce of Windows is not observed",
    "the real libwinpty and agent sources run unmodified, compiled for Linux with clang against the MinGW Windows headers and instrumented with the sanitizers named in 'builds'; MSVC- or MinGW-only code generation is not observed",
    "thread schedules, transfer sizes, delays and operating-system versions are drawn from the seed; a schedule that was not drawn is not observed",
]
def build_adapter(san):
    """The Unix adapter from /repo, natively, on adapter/host.cc, and its driver."""
    def build(vr, out):
        A = vr.HERE + '/adapter'
        b = vr.Build(out + '/o')
        base = vr.BASE.replace(f'-include {vr.SIM}/pfx.h', f'-include {A}/pfx.h') + f' -I {A}/inc -I {vr.REPO}/src/include -D_WIN32_WINNT=0x0501'
        objs = []
        for f in vr.sources('unix-adapter'):
            o = 'ad_' + f.rsplit('/', 1)[1] + '.o'
            objs.append(f'{out}/o/{o}')
            b.add(f, o, f'-g1 -O1 -std=gnu++14 {base} {san} -ftrivial-auto-var-init=pattern -Dmain=adapter_main')
        shared = []
        for f in vr.sources('shared'):
            if f.rsplit('/', 1)[1] not in ('DebugClient.cc', 'WinptyAssert.cc', 'WinptyVersion.cc'):
                o = 'sh_' + f.rsplit('/', 1)[1] + '.o'
                shared.append(f'{out}/o/{o}')
                b.add(f, o, f'-g1 -O1 -std=gnu++14 {base} {san}')
        b.add(f'{A}/host.cc', 'host.o', f'-g1 -O1 -std=gnu++14 {base}')
        b.add(f'{A}/harness.cc', 'harness.o', '-g1 -O1 -std=c++17')
        b.run()
        # winpty's shared helpers are taken only if the adapter refers to them
        vr.link(f'ar rcs {out}/o/shared.a {" ".join(shared)}')
        wraps = ','.join('--wrap=' + w for w in ('read', 'write', 'select', 'pthread_create', 'realpath', 'access'))
        vr.link(f'clang++ {san} -Wl,{wraps} -Wl,--unresolved-symbols=ignore-in-object-files -o {out}/adapter {" ".join(objs)} {out}/o/host.o {out}/o/shared.a -lpthread')
        vr.link(f'clang++ -o {out}/harness {out}/o/harness.o -lutil')
    return build

import vr as _vr
NATIVE = {'adapter': build_adapter(_vr.ASAN), 'adaptertsan': build_adapter(_vr.TSAN)}

def sim(scenario, quick, thorough=None, variant='asan', **params):
    r = dict(variant=variant, scenario=scenario, quick=quick)
    if thorough is not None:
        r['thorough'] = thorough
    for k in ('chunk', 'cpu', 'offset'):
        if k in params:
            r[k] = params.pop(k)
    if params:
        r['params'] = params
    return r

def native(scenario, quick, variant='adapter', **params):
    return sim(scenario, quick, variant=variant, chunk=25, **params)

ADAPTER_ASSUMPTIONS = [
    "the real adapter sources run natively on Linux pseudo-terminals and POSIX threads; Windows pipe handles, libwinpty and Cygwin's own calls are stand-ins over sockets (adapter/host.cc); what Cygwin's terminal layer does differently from Linux is not observed",
    "terminal input settings that the adapter does not manage (INLCR, IGNCR, PARMRK) are off, and arguments are valid UTF-8",
    "delays, transfer sizes, interruptions and the kernel's schedule vary at random; a schedule that did not occur is not observed",
]
LVL = 'exploration'
SCHED = 'a case counts as distinct when its schedule hash (order of threads at every system call) is new, and as non-trivial when '

CHECKS = {
 'P01': dict(level=LVL, rule=SCHED + 'the agent sent a substantial amount of terminal output that was compared cell by cell with the console',
             runs=[sim('scroll', 700), sim('scrolldeep', 200), sim('direct', 600), sim('cls', 300)],
             require={'compare.screens': 1000, 'compare.direct': 100, 'cursor.hidden': 50}),
 'P02': dict(level=LVL, rule=SCHED + 'at least 500 bytes of output reached the terminal; every line the program wrote is looked up in the terminal scrollback',
             runs=[sim('append', 500), sim('appenddeep', 200), sim('scrolldeep', 100, offset=500000)],
             require={'lines.checked': 50000, 'wrapped.buffer': 10}),
 'P03': dict(level=LVL, rule=SCHED + 'at least one resize took effect and the screen was compared afterwards',
             runs=[sim('resize', 500), sim('resizefull', 300), sim('resizebusy', 300), sim('resizedeep', 200), sim('resizedeepbusy', 200), sim('conerr', 120, offset=300000), sim('conerrplain', 80, offset=300000)],
             require={'compare.screens': 1000, 'size.checks': 1000}),
 'P04': dict(level=LVL, rule=SCHED + 'at least 500 bytes of output reached the terminal in the option combination under test',
             runs=[sim('plain', 400), sim('plaindeep', 100), sim('conerr', 250), sim('conerrplain', 250), sim('plaindraw', 300)],
             require={'text.bytes': 100000, 'lines.checked': 20000, 'plain.rows': 10000}),
 'P05': dict(level=LVL, nontrivial=['strokes.checked', 'events.compared'], rule=SCHED + 'key records that reached the console were compared with the reference decoding of the bytes sent',
             runs=[sim('typetext', 900), sim('typebad', 900), sim('hostile', 200, offset=300000)],
             require={'strokes.checked': 10000}),
 'P06': dict(level=LVL, nontrivial=['strokes.checked'], rule=SCHED + 'key records that reached the console were compared with the independent table of escape sequences',
             runs=[sim('typekeys', 1200), sim('typemix', 800)],
             require={'strokes.checked': 5000}),
 'P07': dict(level=LVL, nontrivial=['mouse.checked'], rule=SCHED + 'mouse records that reached the console were compared with the reports sent',
             runs=[sim('mouse', 1200)],
             require={'mouse.checked': 2000, 'modes.on': 50}),
 'P08': dict(level=LVL, nontrivial=['marker.checked'], rule=SCHED + 'at least one burst of hostile input bytes was consumed and a marker typed afterwards arrived',
             runs=[sim('hostile', 700), sim('flood', 100)],
             require={'hostile.bytes': 50000, 'marker.checked': 200}),
 'P09': dict(level=LVL, nontrivial=['api.calls'], rule=SCHED + 'at least one API call was checked for its result, outputs and error object',
             runs=[sim('apireply', 2400), sim('apireal', 1200)],
             require={'api.calls': 1000, 'bad.replies': 100, 'good.replies': 100, 'errors.checked': 200}),
 'P10': dict(level=LVL, nontrivial=['overlaps', 'sessions', 'died', 'timed.out'], rule=SCHED + 'calls of two threads overlapped in time, two sessions were open at the same time, or the agent died or hung during the calls of several threads',
             runs=[sim('threads', 900), sim('sessions', 300), sim('threads', 100, offset=400000, variant='tsan', tsan=1), sim('sessions', 50, offset=400000, variant='tsan'), sim('killagent', 150, offset=800000, variant='tsan')],
             require={'overlaps': 2000, 'sessions': 200}),
 'P11': dict(level=LVL, nontrivial=['timed.out', 'died'], rule=SCHED + 'the agent died or went silent and every call that was waiting, or made later, was timed',
             runs=[sim('deadagent', 3000), sim('killagent', 1200)],
             require={'timed.out': 50, 'died': 50}),
 'P13': dict(level=LVL, nontrivial=['spawns.checked', 'spawn.failures'], rule=SCHED + 'at least one process was started, or its failure to start reported, and the arguments compared',
             runs=[sim('apireal', 1800, offset=200000)],
             require={'spawns.checked': 200, 'spawn.failures': 30}),
 'P12': dict(level=LVL, nontrivial=['faults.fired'], rule=SCHED + 'at least one injected failure (system call or allocation, client or agent side) was reached during a session and the ledger was compared afterwards',
             runs=[sim('faultsweep', 240), sim('oomsweep', 240), sim('faults', 500), sim('oom', 500), sim('agentfaultsweep', 80), sim('agentoomsweep', 80), sim('agentfaults', 200), sim('agentoom', 200)],
             require={'faults.fired': 2000, 'reported': 1000, 'absorbed': 50}),
 'P14': dict(level=LVL, nontrivial=['complete.streams'], rule=SCHED + 'an output stream that ended was compared with everything the program had written',
             runs=[sim('shutdown', 1000)],
             require={'complete.streams': 300, 'ended': 200, 'kept.open': 30}),
 'P15': dict(level=LVL, nontrivial=['died', 'closed', 'kept.alive'], rule=SCHED + 'the client died or closed the session and the end of agent, console and programs was timed, or a session was watched staying alive',
             runs=[sim('clientgone', 900), sim('longlife', 300)],
             require={'died': 100, 'closed': 100, 'kept.alive': 50}),
 'P16': dict(level=LVL, nontrivial=['lines.checked', 'typed', 'gone.readers', 'flooded'], rule=SCHED + 'bytes that crossed a session pipe in random fragments were compared with the bytes written, or the agent was measured while nobody read',
             runs=[sim('bulk', 700), sim('gonereader', 40), sim('inflood', 120)],
             require={'lines.checked': 5000, 'typed': 50, 'rpcs': 100, 'gone.readers': 10, 'flooded': 10000000}),
 'P17': dict(level=LVL, nontrivial=['pipes.checked', 'squatted'], rule=SCHED + 'the pipes of a session were inspected and attempts of another user, a remote client or a squatter were made against them',
             runs=[sim('pipesec', 700), sim('squatter', 500)],
             require={'pipes.checked': 1000, 'intrusions.tried': 500, 'squatted': 100}),
 'P18': dict(level=LVL, nontrivial=['names', 'names.compared'], rule=SCHED + 'names of pipes created by several sessions, threads and processes were compared',
             runs=[sim('names', 500), sim('namesnorandom', 500), sim('namesnorandom', 60, offset=400000, variant='tsan')],
             require={'names.compared': 500, 'names': 1000}),
 'P26': dict(level=LVL, nontrivial=['opens.checked'], rule=SCHED + 'window station and desktop of the process were compared before and after winpty_open, also when one of its system calls failed',
             runs=[sim('desktop', 1500)],
             require={'opens.checked': 500, 'faulted.opens': 100, 'background': 100}),
 'P21': dict(level=LVL, nontrivial=['titles.checked', 'plain.checked'], rule=SCHED + 'the titles sent to the terminal were compared with the titles the console had',
             runs=[sim('title', 1000)],
             require={'titles.checked': 2000, 'plain.checked': 300, 'titles.sent': 10000}),
 'P22': dict(level=LVL, nontrivial=['ctrlc.events', 'lists'], rule=SCHED + 'a process list or the effect of a typed Ctrl-C was compared with the simulated console',
             runs=[sim('ctrlc', 900), sim('apireal', 600, offset=600000), sim('proclist', 400)],
             require={'ctrlc.events': 2000, 'handlers.checked': 2000, 'lists': 500, 'reads.repeated': 500, 'victims': 200, 'plain.keys': 400}),
 'P23': dict(level=LVL, nontrivial=['freezes'], rule=SCHED + 'the agent froze the console at least once, and every freeze was followed to its end',
             runs=[sim('freeze', 900), sim('resizedeepbusy', 100, offset=800000)],
             require={'freezes': 20000, 'cursor.reads': 20000, 'cursor.reads.frozen': 5000, 'faults.fired': 100}),
 'P27': dict(level=LVL, nontrivial=['messages.on', 'debug.messages', 'faults.fired', 'api.calls'], rule=SCHED + 'messages were traced, to a debug server that was working, slow, unreliable or absent, and results compared with the specification',
             runs=[sim('tracecalls', 900), sim('apireal', 400, offset=700000, trace=1), sim('apireply', 300, offset=700000, trace=1), sim('typekeys', 100, offset=700000, trace=1), sim('scroll', 60, offset=700000, trace=1), sim('resize', 60, offset=700000, trace=1), sim('shutdown', 100, offset=700000, trace=1), sim('threads', 100, offset=700000, trace=1), sim('faults', 100, offset=700000, trace=1), sim('deadagent', 200, offset=700000, trace=1), sim('tracecalls', 60, offset=700000, variant='tsan')],
             require={'debug.messages': 5000, 'api.calls': 500}),
 'P19': dict(level=LVL, nontrivial=['nontrivial'], rule='a case is one 64th of all code points and first bytes with random four-byte sequences and strings, or a session whose cells cover 1024 of the 65536 UTF-16 units; non-trivial cases compared all of them with the definition of the encodings',
             runs=[sim('unicode', 192), sim('cells', 400)],
             require={'code.points': 1000000, 'sequences': 10000000, 'strings': 10000, 'units': 50000, 'unpaired': 2000}),
 'P20': dict(level=LVL, nontrivial=['round.trips', 'bad.packets'], rule='a case is a series of random packets written, read back, damaged and read again, or a session whose requests were damaged on their way to its agent while another session worked',
             runs=[sim('packets', 1500), sim('badclient', 800), sim('apireply', 600, offset=900000)],
             require={'round.trips': 40000, 'damaged.rejected': 200000, 'bad.packets': 500, 'others.checked': 400}),
 'P25': dict(level=LVL, nontrivial=['sizes.settled', 'bytes.input', 'commands.checked', 'failures.checked', 'keys.shown'], assumptions=ADAPTER_ASSUMPTIONS,
             rule='a case is one run of the real adapter between a pseudo-terminal (or pipes) and a stand-in for libwinpty; it counts as distinct when the order and sizes of the transfers and calls observed are new, and as non-trivial when bytes, sizes, an argument vector or a failed start were compared',
             runs=[native('adrelay', 2400), native('adrelayerr', 600), native('adpipes', 800), native('adargs', 2400), native('adstart', 400), native('adkeys', 200),
                   native('adrelay', 300, variant='adaptertsan', offset=400000, tsan=1), native('adrelayerr', 100, variant='adaptertsan', offset=400000, tsan=1), native('adpipes', 100, variant='adaptertsan', offset=400000, tsan=1)],
             require={'bytes.input': 1000000, 'bytes.output': 1000000, 'sizes.settled': 300, 'resizes.early': 50, 'commands.checked': 1000, 'ends.child': 100, 'ends.input': 100, 'ends.terminal': 50, 'modes.restored': 100, 'blocked.direction': 100}),
 'P28': dict(level=LVL, nontrivial=['integers'], rule='a case is a random set of integers of every width (with all 16-bit values over 64 cases), built strings and formatted buffers, compared with independent conversions',
             runs=[sim('strings', 1200)],
             require={'integers': 1000000, 'built': 50000, 'formatted.cut': 20000, 'fixed': 20000, 'copies': 50000}),
 'P24': dict(level=LVL, nontrivial=['rounds', 'idle.seconds', 'gone.readers'], rule=SCHED + 'handles and heap of the agent were compared over several rounds of the same work, or its system calls were counted while idle',
             runs=[sim('steady', 100), sim('gonereader', 24, offset=700000)],
             require={'rounds': 100, 'gone.readers': 5}),
}

TECH = {
 'P01': 'runtime monitoring: independent terminal emulator as online oracle against the simulated console, ASan+UBSan, randomised schedules',
 'P02': 'runtime monitoring: exactly-once checker over recorded output, randomised schedules, ASan+UBSan',
 'P03': 'runtime monitoring: console and terminal state oracles after random resize sequences, ASan+UBSan',
 'P04': 'runtime monitoring: stream checker per output flag combination, ASan+UBSan',
 'P05': 'runtime monitoring: recorded console input compared with an independent UTF-8 and keyboard model, ASan+UBSan',
 'P06': 'runtime monitoring: recorded console input compared with an independent key sequence table under random fragmentation and delays, ASan+UBSan',
 'P07': 'runtime monitoring: recorded console mouse records compared with the reports sent, ASan+UBSan',
 'P08': 'hostile-input stress with ASan+UBSan, liveness and memory-growth monitors',
 'P09': 'runtime monitoring: API contract checker over random calls and random agent replies, ASan+UBSan',
 'P10': 'linearizability checker over recorded calls and requests under randomised schedules; ThreadSanitizer',
 'P11': 'runtime monitoring: injected agent deaths and silences, timing and error-code oracle, ASan+UBSan',
 'P12': 'fault injection at every system call and allocation with a resource ledger, API contract checker, ASan+UBSan',
 'P14': 'runtime monitoring: end-of-stream completeness checker under randomised exit timing and slow readers, ASan+UBSan',
 'P15': 'runtime monitoring: process and console table checked after client death or close at random points, ASan+UBSan',
 'P16': 'runtime monitoring: byte-exact stream checker under random fragmentation and delays, heap growth monitor, ASan+UBSan',
 'P17': 'runtime monitoring: security descriptor, mode and instance count of every created pipe checked; injected intruders and squatters, ASan+UBSan',
 'P18': 'runtime monitoring: uniqueness checker over recorded object names with crippled random sources; ThreadSanitizer',
 'P26': 'runtime monitoring: window station and desktop ledger around winpty_open under fault injection, ASan+UBSan',
 'P24': 'runtime monitoring: handle and heap ledger over repeated work, idle system-call rate, ASan+UBSan',
 'P19': 'runtime monitoring: exhaustive and random inputs to the real conversion code compared with an independent definition in exactly sized buffers, ASan+UBSan',
 'P20': 'runtime monitoring: packet round trips and damaged packets compared with an independent reader of the wire format; damaged requests in live sessions, ASan+UBSan',
 'P25': 'runtime monitoring: byte-exact relay, size, terminal-mode and argument checkers around the real adapter on pseudo-terminals with injected delays, interruptions and failures, ASan+UBSan; ThreadSanitizer',
 'P28': 'runtime monitoring: random and boundary inputs compared with independent conversions in exactly sized buffers, ASan+UBSan',
 'P21': 'runtime monitoring: titles received by a terminal emulator compared with the recorded history of console titles, ASan+UBSan',
 'P22': 'runtime monitoring: process lists and console control events compared with the simulated console, ASan+UBSan',
 'P23': 'runtime monitoring: online monitor of the console freeze state at every system call, with injected failures, ASan+UBSan',
 'P27': 'runtime monitoring: API, input and output oracles repeated with tracing on and faulty debug servers, last-error and message monitors, ASan+UBSan; ThreadSanitizer',
 'P13': 'runtime monitoring: recorded process creations compared with the arguments of winpty_spawn, ASan+UBSan',
}
NOTE = {
 'P01': 'Real agent and library code over a simulated Windows; random programs, sizes, code pages, OS versions and schedules; the emulator compares every cell, attribute and the cursor at each quiet point.',
 'P02': 'Every line a random append-only program writes is checked in the terminal scrollback, including past the 3000-line buffer wrap.',
 'P03': 'Random resize sequences in scrolling, direct and busy modes; return values, console geometry and terminal contents are all compared.',
 'P04': 'Random append-only programs in each flag combination, plain text compared byte for byte; programs that draw, clear and switch buffers in plain mode: only text and line breaks, and every line on the screen has been sent.',
 'P05': 'Valid and malformed UTF-8 typed in arbitrary pieces; every key record on the console is compared with a reference decoding.',
 'P06': 'Every key sequence the agent documents, escapes alone and cursor reports, in arbitrary pieces and with pauses around the escape timeout.',
 'P07': 'Every mouse mode, report format and modifier; records and the terminal modes requested are compared.',
 'P08': 'Random and mutated escape sequences and large floods; the agent must stay alive, responsive and bounded.',
 'P09': 'Every API function with all optional arguments, against the real agent and against agents that reply with random, malformed or truncated packets.',
 'P10': 'Up to five threads on one session and several sessions at once; requests on the control pipe are the witness order; the library is also run under ThreadSanitizer.',
 'P11': 'Agents that die, hang, or answer slowly at a random point, with every call timed in virtual time.',
 'P12': 'Each plan of calls is repeated with a failure at every system call and every allocation in turn (sweeps) and at random points, on the client and on the agent side.',
 'P14': 'Programs exit at random points of their output, readers are slow, paused or late; every combination of the shutdown flags.',
 'P15': 'Clients close or die at random points, also inside winpty_open; programs may ignore close events; sessions that nobody closes must stay.',
 'P16': 'Bulk output, input and requests at once; every transfer is cut and delayed at random; readers that leave or never come.',
 'P17': 'Every pipe a session creates is inspected at creation; other users, remote clients and processes squatting on the name try to get in; agent and client must not talk to them.',
 'P18': 'Names of all pipes and desktops over several sessions, threads, processes and clocks, with the operating system random source working, failing or absent.',
 'P26': 'Background desktop and window station handling on each Windows version and flag, with each system call failing in turn.',
 'P24': 'Rounds of output, resizing, typing, titles and screen-buffer switches; ledger compared after each round.',
 'P19': 'All code points and beyond, all one- to three-byte sequences, the classes of four-byte sequences, random strings, and console cells with paired and unpaired surrogates through the real agent.',
 'P20': 'Random typed sequences; truncated, edited, re-sized and random packets; hostile requests injected into the control pipe of one of two live sessions.',
 'P25': 'The adapter is built natively and run on pseudo-terminals and pipes with random traffic, resize and signal storms, stalls, broken pipes, hang-ups, argument vectors, PATHs and failed starts.',
 'P28': 'Every integer type at every power-of-two and power-of-ten boundary, random mixes of parts, buffers of every size from 1.',
 'P21': 'Random titles of all lengths and characters at random times; the last title must arrive, every title sent must have existed, none is sent twice.',
 'P22': 'Growing and shrinking sets of attached processes with all array sizes; Ctrl-C typed in every console mode with handlers, ignoring and inherited-ignore programs.',
 'P23': 'The freeze state is inspected at every system call of the agent on each Windows version; operations that hang the Windows 10 console while frozen are reported; failures are injected while frozen.',
 'P27': 'Traced calls with boundary lengths from several threads, and API, typing, output, resize, shutdown, fault and agent-death scenarios run with tracing on against the real, a slow, an unreliable and no debug server.',
 'P13': 'Random programs, command lines, directories, environments and failures of CreateProcess, observed at the simulated CreateProcess.',
}
NOT_CLAIMED = {}
