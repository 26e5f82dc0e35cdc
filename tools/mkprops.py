#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
N='src/core/network.c'; R='src/core/relay.c'; B='src/core/buffer.c'; T='src/core/tb.c'; L='src/core/login.c'
G='src/core/gps.c'; F='src/core/filter.c'; V='src/core/recv.c'; RP='src/radarcape/rc-parser.c'; RN='src/radarcape/network.c'
S='src/dump1090/req-serial.c'; C='src/util/cfgfile.c'; K='src/util/component.c'; NC='src/util/net_common-posix.c'
UNIT="The unit tests drive single modules with stubbed neighbours in one thread; "

prop('C01','The uplink always carries whole, well framed, non-interleaved messages',
 'On every connection to the collector, the bytes the sensor puts on the wire are a sequence of complete, correctly escaped messages of the documented types and lengths, each sent contiguously, whichever parts of the sensor send at the same time. Only the very last message of a connection may be cut short, and only because that connection ended. A transmission that the operating system accepts only in part is continued exactly where it stopped.',
 ['schedules','fault_sequences'],'all interleavings of relay, GPS, talkback and main threads; every partial write, peer failure, cancellation and disconnect point',
 UNIT+'no test opens a connection, splits a write or runs two senders at once.',
 [N,R,L,G,'src/core/beast.c'],[('exclusive send lock around a message','NET_send in '+N),('send loop','trySend in '+N),('escaping','BEAST_encode in src/core/beast.c')],
 [('sendMutex','serialises whole messages',N)],['bytes accepted by the socket, per connection'])
prop('C02','Frames are forwarded unaltered, in reception order and never twice',
 'Every aircraft frame that reaches the collector is byte for byte a frame the receiver delivered after the last (re)start, and frames arrive in the order they were received. No frame is delivered in full more than once, not even across reconnects, buffer overflow, buffer flush or garbage collection. With history enabled, a frame whose transmission was cut short by a lost connection is the first frame sent on the next one.',
 ['schedules','inputs','fault_sequences'],'all frame streams, buffer sizes, thread interleavings and connection-loss points',
 UNIT+'the buffer and parser tests never combine reception, buffering, relaying and connection loss.',
 [V,B,R,RP,N],[('FIFO queue with put-back of the unsent frame',B),('relay retry',R)],
 [('queue','pending frames',B)],['received frame stream','uplink frames per connection'])
prop('C03','Frames are lost only where the documentation allows it',
 'A received frame that passes the filter reaches the collector unless the buffer overflowed, the backlog was deliberately discarded on login because history is off, the connection broke while the frame was in flight, or the sensor stopped. With history enabled an outage costs nothing as long as no more frames arrive than static plus dynamic backlog can hold, and beyond that only the oldest frames are given up and roughly the configured number of newest ones survive. With history disabled, a login is followed only by frames received after it began (no stale frames). Frames received while the connection is healthy are delivered promptly.',
 ['schedules','histories','fault_sequences','configurations'],'all arrival patterns, outages, allocation failures, buffer configurations (static/dynamic backlog, increments, history, GC)',
 UNIT+'overflow, history and flush are tested with a handful of fixed sequences and no consumer running concurrently.',
 [B,R,V],[('sacrifice oldest frame / dynamic pools',B),('flush unless history','BUF_flushUnlessHistoryEnabled in '+B)],
 [('pool/queue/dynPools','frame storage',B)],['received frame stream','uplink frames'])
prop('C04','Every session starts with a complete, correct login',
 'On every new connection the sensor first identifies itself: device type with software version, then serial number (preceded by a serial number request if it has none), then the user name if one is configured, with the values configured for that product and device. No aircraft frame and no keep-alive is sent on a connection before that login is complete. Only position reports may appear in between.',
 ['schedules','fault_sequences','configurations'],'all reconnect sequences, failures detected by sender or receiver side first, interleavings of login with position updates, configurations',
 UNIT+'there is no test of login or of reconnecting at all.',
 [L,R,N,'src/dump1090/dump1090.c','src/dump1090/devtype.c'],[('login before the relay loop',R),('connection state shared by sender and receiver','emitDisconnect in '+N)],
 [('connState/transState','which side has noticed a failure',N)],['first messages of each connection'])
prop('C05','The sensor always gets back online after network faults stop',
 'Whatever sequence of refused or timed out connections, failed name lookups, resets, half-open or silent connections occurs, once the network works again the sensor is connected, logged in and forwarding live frames within a bounded time (retry interval plus connect time). It neither gives up, nor deadlocks, nor spins, and it never needs a restart. A working connection is not given up, except by a stop and after about a minute without an answer to the question for a serial number.',
 ['schedules','fault_sequences'],'all finite fault sequences on the collector link and all orders in which sender and receiver notice them',
 UNIT+'the connection state machine has no test; the failing orders need specific interleavings of two failure detectors.',
 [N,R,T],[('reconnect loop','mainloop in '+N),('leader/follower failure hand-over','emitDisconnect in '+N)],
 [('connState/transState/recvsock/sendsock','connection state machine',N)],['accepted connections at the collector','frames after faults stop'])
prop('C06','An idle connection is kept alive, a busy one is not disturbed',
 'While logged in, whenever no aircraft frame is sent for the configured timeout, the sensor sends a keep-alive, so that the collector never sees silence much longer than that timeout. Keep-alives are only sent after such an idle period. Hence a dead collector or dead path is noticed even if no aircraft is heard.',
 ['schedules','inputs','configurations','fault_sequences'],'all arrival patterns, timeout values and (forward) clock jumps',
 'No test exercises the relay loop or waits for its timers.',
 [R,B],[('timed wait for the next frame','BUF_getFrameTimeout in '+B),('keep-alive',R)],[],['uplink message times'])
prop('C07','Each collector command is processed exactly once, in order, and never mixed up',
 'The command stream from the collector is interpreted identically however it is segmented: each complete, known, correctly sized packet is executed exactly once and in order; unknown types and wrong sizes are skipped without affecting neighbours; an impossible length discards only what was received so far. Bytes of an incomplete packet from one connection are never combined with bytes of a later connection. Commands are read within seconds of their arrival, also while sending is stalled. Arbitrary bytes cannot crash or wedge the sensor.',
 ['inputs','schedules','fault_sequences'],'all byte streams, segmentations, disconnect points inside packets, and reconnect interleavings',
 'There is no test of the talkback parser; connection changes in mid-packet need fault injection.',
 [T,N],[('packet reassembly','mainloop in '+T),('per-connection buffer reset',T)],[('buf/bufLen','reassembly buffer',T)],['effects of commands: filter changes, serial numbers, spawned programs, log'])
prop('C08','The frame filter forwards exactly the frames its current configuration allows',
 'Mode-A/C and status frames are never forwarded; with the extended-squitter-only filter only frames of downlink format 17 and 18 are; with the synchronisation filter nothing is forwarded until the receiver has reported a valid time since its last (re)connection. Filter changes commanded by the collector take effect for all frames received afterwards, change only the selected settings, and are passed on to receivers that filter in hardware: after a command or a reconnect the receiver ends up with the currently commanded setting.',
 ['inputs','schedules','histories','configurations'],'all frame mixes, filter configurations, command sequences and receiver reconnects',
 'The filter has no test; its state is reset and changed from other threads at arbitrary moments.',
 [F,V,T,RP],[('filter decision','FILTER_filter in '+F),('reset on reconnect',V),('online reconfiguration',T)],
 [('isSynchronized/modeSFilter','filter state',F)],['received stream versus uplink frames'])
prop('C09','The receiver stream is decoded the same way for every chunking and any garbage',
 'For every byte stream a receiver can deliver and every way it is split into reads, the sensor extracts exactly the frames a reference decoder finds: valid frames verbatim, resynchronising after garbage, unknown types, and truncated or unescaped frames without losing or inventing any frame that follows. Timestamps, signal levels and payloads cannot be smeared between frames.',
 ['inputs','schedules','fault_sequences'],'all byte strings and all segmentations into reads, including disconnects at any byte',
 'The existing parser tests feed fixed buffers mostly in one piece; boundary splits and garbage are sampled by hand.',
 [RP,RN,'src/radarcape/uart.c',V],[('escape-aware frame decoder',RP),('resynchronisation','synchronize in '+RP)],
 [('buf/bufCur/bufEnd','read buffer',RP)],['bytes delivered by the receiver','frames forwarded'])
prop('C10','A receiver that disappears is reconnected without corrupting the feed',
 'When the connection to the receiver ends or fails in any way, the sensor reconnects and resumes within a bounded time once the receiver is back, while the session with the collector continues. A frame cut off by the disconnect is never forwarded nor completed with bytes of the next connection. Any number of receiver reconnects leaves buffer capacity and descriptors unchanged.',
 ['fault_sequences','schedules'],'all disconnect points, refusal/timeout sequences, and buffer configurations',
 'The tests replace the input layer; reconnecting in mid-frame is not exercised.',
 [V,RP,RN,'src/radarcape/uart.c',B],[('abort of the unfinished frame',V),('reconnect loop',RN)],[],['receiver connections','uplink frames','buffer statistics'])
prop('C11','The frame buffer stays bounded, conserves frames and reclaims memory',
 'Whatever the order of production, consumption, abortion, put-back, flushing, garbage collection and allocation failure, no frame slot is ever lost, duplicated or used by two parties, and the queue stays first-in first-out. At most the static backlog plus the configured number of dynamic pools is ever allocated; after garbage collection of an idle buffer only the static backlog and pools still in use remain. If memory cannot be allocated reception continues by dropping the oldest frames.',
 ['schedules','histories','fault_sequences','configurations'],'all operation histories by concurrent producer, consumer, collector and statistics readers; all allocation-failure points; all configurations',
 'The buffer tests run fixed single-threaded sequences with a few sizes and no allocation failure.',
 [B,'src/util/list.h'],[('pools and garbage collection',B)],[('pool, queue, dynPools, collect','who owns each slot',B)],['frames produced and consumed','allocator traffic','buffer statistics'])
prop('C12','A serial number that was announced is the one used forever',
 'Once the feeder has announced a serial number assigned by the collector, it announces that number - or a newer one the collector has assigned since, or one the administrator configured explicitly (which wins at every start) - on every later connection and after every restart (a newer assignment counts from the next login on), no matter when its process is killed or which file operation fails. If the number cannot be stored the feeder refuses to work instead of announcing it. A damaged or partially written store never makes it announce a number the collector did not assign.',
 ['crash_points','fault_sequences','schedules'],'all kill points, all failing or short file operations (open, write, close, rename, disk full), all response timings including late and repeated responses',
 'No test covers serial number assignment, and none can kill the process between write and login.',
 [S,C,'src/dump1090/dump1090.c'],[('store before announcing','SERIAL_getSerial in '+S),('section writer','CFG_writeSection in '+C)],
 [('serialNumber/hasSerial','current number',S)],['serial messages per connection and process lifetime','stored file'])
prop('C13','Requesting a serial number neither hangs nor gives up',
 'A feeder without serial number asks the collector once per connection and waits; when the answer arrives it continues with the login promptly. Without an answer for about a minute it reconnects and asks again; when the connection is lost while waiting it notices within a few seconds. This holds for every timing of answer, loss and shutdown.',
 ['schedules','fault_sequences'],'all timings of the response relative to request, timeouts, disconnects and shutdown',
 'The minute-long protocol with timed waits has no test.',
 [S,L,T,N],[('timed wait in rounds','SERIAL_getSerial in '+S),('reconnect','NET_forceDisconnect in '+N)],[],['request and serial messages with times'])
prop('C14','Positions are reported only when valid, and always the current one',
 'A position is sent to the collector only while the sensor has both a position and a fix, and it is the most recently set one. At every login it is sent if available; otherwise it is sent as soon as it becomes available, once, including when an earlier attempt failed because the connection was down. A lost or reset position source never causes an outdated position to be reported.',
 ['schedules','histories','fault_sequences'],'all orders of position updates, fix changes, logins, send failures and receiver resets',
 'The GPS unit test uses a stubbed sender in one thread and a handful of sequences.',
 [G,L,'src/dump1090/position.c','src/trimble/trimble_recv.c'],[('deferred position','sendPositionIfAvail in '+G)],
 [('position/hasPosition/hasFix/needPosition','what is known and owed',G)],['position messages versus updates'])
prop('C15','Shutting down always completes quickly and cleanly',
 'From any reachable state, a stop request ends all activity within a few seconds per part: every thread terminates and is joined, no lock stays held, all connections are closed, nothing is sent afterwards, and the program exits successfully. When the sensor is embedded as a library it can then be enabled again and works like the first time.',
 ['schedules','fault_sequences'],'all points in every thread at which cancellation can strike, combined with all connection and buffer states',
 'Tests stop threads in at most one state; cancellation at arbitrary points needs a controlled scheduler.',
 [K,N,R,V,B,'src/util/threads.h','src/gplib/opensky.cc'],[('cancel, timed join, deferred retry',K),('cleanup handlers','CLEANUP_PUSH in src/util/threads.h')],[],['exit status','threads, locks and sockets at exit'])
prop('C16','Parts start after, and stop before, whatever they depend on',
 'Every component is constructed and started only after all components it depends on and asked to stop and destroyed before them (one that needs longer to stop is retried later and does not hold up the others); disabled components are left out. If construction or start of one fails, everything already started is stopped and everything constructed is destroyed in reverse order, exactly once, and the program reports failure instead of running half-started.',
 ['configurations','fault_sequences','schedules'],'all dependency graphs, enabled/start flags, and every possible failing constructor, starter or thread creation',
 'The component manager has no test; failures of thread creation and constructors never occur in tests.',
 [K],[('topological order','sequentialize in '+K),('roll-back','stopUntil/destructUntil in '+K)],[('components','ordered list with state',K)],['order of callbacks'])
prop('C17','The statistics report the truth',
 'Whenever nothing is in flight, the printed counters equal what actually happened: frames received per type and downlink format, filtered and unsynchronised frames, queued and discarded messages, pools, flushes, connection attempts and losses, bytes sent and received, and whether the sensor is online. At any other moment they lie between what had happened shortly before and what had happened when they were printed, and sums, rates, percentages and the running time agree with the counters. They are printed at the configured interval and never go backwards.',
 ['schedules','histories','configurations'],'all traffic mixes, outages, overflow situations and report times',
 'No test looks at the counters or prints a report.',
 ['src/util/statistics.c',B,N,F],[('per-module counters','getStatistics functions')],[],['printed report versus simulator ground truth'])
prop('C18','The hardware watchdog is served on time for as long as the daemon runs',
 'From start-up on the watchdog line is pulsed (set, then cleared) at least every 30 seconds as long as the process runs, whatever the network, the receiver or other threads do, and it is not left set. Other output lines of the same controller are not disturbed, and pulsing ends when the daemon stops. The separate watchdog program does the same without privileges, and ends with an error if it cannot reach the hardware.',
 ['schedules','fault_sequences'],'all states of the other threads, all outages, and interleavings of register accesses with FPGA programming',
 'The watchdog touches hardware registers and has no test.',
 ['src/radarcape/watchdog.c','src/radarcape/gpio.c','src/radarcape/wd-main.c'],[('30 s pulse loop','src/radarcape/watchdog.c')],[],['register writes with times'])
prop('C19','The GPS receiver stream yields exactly the positions it contains',
 'For every byte stream from the GPS receiver and every segmentation, exactly the position packets a reference decoder finds are evaluated, and a position is adopted only if the receiver is locked, in the right mode, without critical alarm, test mode or self survey and doing fixes; latitude and longitude are converted to degrees, altitude kept. After any disconnect the position is invalid until reported anew, and the sensor reconnects within a bounded time.',
 ['inputs','fault_sequences','schedules'],'all byte strings, segmentations, status combinations and disconnect points',
 'The GPS receiver code has no test.',
 ['src/trimble/trimble_parser.c','src/trimble/trimble_recv.c','src/trimble/trimble_input_network.c','src/trimble/trimble_input_uart.c',G],[('packet decoder','src/trimble/trimble_parser.c'),('position acceptance','posFrame in src/trimble/trimble_recv.c')],[],['GPS bytes versus position messages'])
prop('C20','The FPGA is programmed with exactly the bitstream, or start-up fails',
 'Start-up succeeds only if the FPGA received every bit of the configured file in order, least significant bit first, after a proper reset, and signalled completion. Errors it signals at any time lead to a retry from the start, at most three attempts, then to a clean start failure, within bounded time and without leaking resources.',
 ['fault_sequences','inputs'],'all bitstreams, file errors, and all points at which the FPGA misbehaves (no reset acknowledge, status error, no completion, late completion)',
 'Hardware access without any test.',
 ['src/radarcape/fpga.c','src/radarcape/gpio.c'],[('program/reset/transfer','src/radarcape/fpga.c')],[],['simulated FPGA pins'])
prop('C21','Descriptors and memory are owned by exactly one party and never leak',
 'Over any number of reconnects, failures, cancellations and stop/start cycles the sensor has at most the few descriptors its current state needs, each is closed exactly once and never used after being closed, and after stopping none is left. The same holds for the memory it allocates: nothing that is needed only for one connection attempt, frame or command stays allocated. No descriptor is inherited by programs it spawns.',
 ['schedules','fault_sequences'],'all orders of failure detection by sender and receiver, cancellation points, failing system calls',
 'Tests open no sockets; leaks appear only for rare orders of failure and cancellation.',
 [N,NC,RN,'src/trimble/trimble_input_network.c','src/util/serial_eth.c','src/util/port/mmap-posix.c'],[('leader/follower closing','emitDisconnect in '+N),('cleanup handlers',NC)],[('recvsock/sendsock','socket ownership',N)],['simulated descriptor table'])
prop('C22','One working address of a host is enough',
 'Each connection attempt resolves the host anew and tries every returned address of a supported family at most once, in random order, until one accepts; it succeeds whenever at least one of them accepts connections, on the configured port. If none does, or the name cannot be resolved, it fails and is repeated after the retry interval.',
 ['fault_sequences','inputs','configurations'],'all address lists (IPv4, IPv6, unknown families), per-address outcomes, resolver results and allocation or socket failures',
 'There is no test of connecting.',
 [NC,'src/util/util.c',N,RN],[('shuffled address loop','NETC_connect in '+NC)],[],['resolver calls, connect attempts'])
prop('C23','The embeddable library feeds exactly what the host submits while enabled',
 'Every frame of 7 or 14 bytes with UTC timing submitted while the feeder is enabled and that passes the filter is sent as one correctly encoded frame with the right type, 48-bit time of day, signal level and payload; other submissions have no effect. Enable, disable, configuration and position calls may be made in any order at any time without crash, and disabling stops the feed until enabled again.',
 ['histories','inputs','schedules','fault_sequences'],'all call histories, timestamps and payloads, with the collector failing arbitrarily',
 'The library test checks a few encodings without any connection, threads or repeated enabling.',
 ['src/gplib/opensky.cc','src/radarcape/lib/opensky.cc',B,L,K],[('frame encoding','submitFrame in src/gplib/opensky.cc'),('enable/disable','src/gplib/opensky.cc')],[],['API calls versus uplink'])
prop('C24','A slow or dead collector never stalls reception',
 'While the collector is slow, stalled, half-open or unreachable, frames are still read from the receiver without delay, commands are still read within seconds, and statistics and shutdown still work; only the buffer fills. The receiving side never waits for the sending side.',
 ['schedules','fault_sequences'],'all stall and outage patterns and receiver loads',
 'No test runs producer and consumer with a blocked connection.',
 [V,B,N,R],[('non-blocking frame allocation','BUF_newFrame in '+B),('separate threads',V)],[],['receiver back-pressure, shutdown time while stalled'])
prop('C25','The effective configuration is the one written in the files',
 'The effective value of each option is its default overridden by the last valid assignment in the numbered files, in numerical order, of the state and then the system directory (or the single configuration file), files with the same number sorted by name, regardless of directory order, letter case of names, line endings or missing final newline. Invalid lines affect only themselves, except that an unparsable section header ends its file; an empty value, and in the feeder an unparsable one, restores the built-in default of the option, and buffer, statistics and timeout values too small to work are raised to workable ones. Unreadable files or directories leave the rest in force, and inconsistent mandatory settings stop the program. Saving the configuration and reading it back yields the same settings, and a failed save is reported.',
 ['inputs','configurations','fault_sequences'],'all file sets and contents, directory orders, and failing directory/file operations',
 'There is no test of the configuration reader or writer.',
 [C,'src/util/port/mmap-posix.c','src/dump1090/dump1090.c','src/dump1090/position.c'],[('line parser','readCfg in '+C),('directory reader','CFG_readDirectory in '+C),('writer','CFG_write in '+C)],[],['effective settings seen in behaviour and in the saved file'])
prop('C26','No outside input or fault can crash, corrupt or wedge the daemon',
 'No bytes from receiver, GPS receiver, collector or configuration files, and no failing system call or allocation at any moment, make the daemon access memory out of bounds or after release, violate an internal consistency check, deadlock, or spin without progress. It aborts only for the documented unrecoverable reasons (out of memory at start or connect, inconsistent configuration, serial number that cannot be stored).',
 ['inputs','schedules','fault_sequences'],'all byte strings from all peers, all schedules, all failing calls',
 'Tests cover friendly input in single modules without sanitizers or failing calls.',
 [N,T,RP,'src/trimble/trimble_parser.c',C,B],[('bounded buffers and resynchronisation','parsers'),('error handling of every call','all modules')],[],['crash, assertion, invalid access, deadlock and livelock detection in the simulator'])
prop('C27','Remote management runs exactly the documented programs and nothing else',
 'A management command spawns exactly the documented program with the documented arguments (address and port as sent), once per command, detached from the daemon; the feed continues undisturbed and no spawned copy of the daemon ever continues feeding, whatever fails while spawning. Products without a given command ignore it.',
 ['schedules','fault_sequences','inputs'],'all commands and payloads, failing fork/exec/daemon/wait calls, all states of other threads at the moment of forking',
 'No test executes commands, and forking in a multi-threaded process depends on the schedule.',
 ['src/radarcape/tb-rshell.c','src/radarcape/tb-misc.c','src/util/proc.c',T],[('fork, daemonise, exec','src/util/proc.c')],[],['recorded program executions','uplink after commands'])
prop('N01','Escaping and byte-order helpers are exact inverses',
 'For every byte string the escaping function doubles exactly the synchronisation bytes, and the integer and floating point encoders and decoders are exact inverses in network byte order.',
 ['inputs'],'all byte strings and values','The tests sample a few values.',
 ['src/core/beast.c','src/util/endec.h'],[('BEAST_encode','src/core/beast.c')])
prop('N02','The intrusive list library behaves like a sequence',
 'Every list operation has the effect of the corresponding operation on a plain sequence and keeps links and length consistent.',
 ['inputs','histories'],'all operation sequences','The list tests are extensive but finite.',
 ['src/util/list.h'],[('list operations','src/util/list.h')])
prop('N03','Package scripts produce a consistent installed configuration',
 'Installing, configuring, upgrading and removing the packages leaves exactly the chosen settings in place.',
 ['configurations','histories'],'all debconf answers and upgrade paths','Shell maintainer scripts are not tested.',
 ['debian/opensky-feeder.config'],[('debconf scripts','debian/')])
prop('N04','The Windows port behaves like the POSIX one',
 'All guarantees above hold for the build using Windows sockets and file mapping.',
 ['schedules','inputs'],'as above','The port cannot be built here.',
 ['src/util/net_common-winsock.c','src/util/port/mmap-windows.c'],[('winsock variants','src/util')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
    assert all(len(p['title'])<=80 for p in P)
