"""Regenerates MANIFEST.json."""
import json, os, sys
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
CONN = 'TLA+ (TLC): behaviours of spec/Conn.tla enumerated and replayed on the real server in a deterministic simulator'
TR = 'TLA+ (TLC): recorded executions of the real code under controlled schedules validated against the specification'
CLAIM = {
    'C01': (CONN, 'Exhaustive over the stated alphabet and length of frame sequences in the specification, each replayed under several segmentations; the step to longer sequences and other payloads is by sampling. Trusts the simulator (sockets, epoll, threads) and TLC.'),
    'C02': (CONN, 'Every violation after every prefix up to the bound, alone and combined, replayed on the real server; trusts the simulator and TLC.'),
    'C03': (CONN, 'Exhaustive up to the bound on frame sequences with client and application closes; schedules, interruptions and partial writes are sampled. Trusts the simulator and TLC.'),
    'C04': (CONN, 'Exhaustive up to the bound on ping/pong/data sequences and over all ping lengths; longer conversations sampled. Trusts the simulator and TLC.'),
    'C05': ('TLA+ (TLC): the decision table of spec/Handshake.tla enumerated by TLC and each request class replayed on the real server in a deterministic simulator', 'All single and pairwise deviations of the request model under each configuration class, concretised in several spellings; deeper combinations are sampled. Trusts the simulator and TLC.'),
    'C06': ('TLA+ (TLC): request byte machine of spec/Http.tla and the decisions of spec/Handshake.tla enumerated by TLC, replayed on the real server under different segmentations', 'Every abstract request shape up to the bound under several segmentations, plus byte mutations judged for well-formedness and segmentation independence; arbitrary byte strings are sampled. Trusts the simulator and TLC.'),
    'C07': (TR, 'Recorded executions with several senders, partial writes and interruptions under sampled schedules (random and PCT); every trace is decided by TLC against spec/Server.tla, whose invariants are model checked exhaustively for small instances. Trusts the simulator and TLC.'),
    'C08': ('TLA+ (TLC): executions of the real ring buffer under a controlled scheduler at every atomic access validated against spec/RingTrace.tla', 'Every interleaving of small configurations up to a preemption bound, plus random and PCT schedules of larger ones; interleavings are sequentially consistent (weak-memory reorderings are not explored). Trusts TLC and the driver.'),
    'C09': ('TLA+ (TLC): executions of the real worker pool under a controlled scheduler at every memory access and synchronisation validated against spec/PoolTrace.tla', 'Every interleaving of small configurations up to a preemption bound, plus random schedules of larger ones with spurious wake-ups and failing thread creation; sequentially consistent interleavings. Trusts TLC and the driver.'),
    'C10': (TR, 'Recorded executions with connection churn, descriptor reuse and abrupt ends under sampled schedules; decided by TLC against spec/Server.tla. Trusts the simulator and TLC.'),
    'C11': (TR, 'Recorded executions of the broadcast and echo subprotocols and of a sending application under sampled schedules; decided by TLC against spec/Server.tla. Trusts the simulator and TLC.'),
    'C12': (TR, 'Recorded executions under sampled schedules, with stalling clients and bursts; deadlocks are decided by the simulator (no thread can move), owed reactions by spec/Server.tla at quiescence. Trusts the simulator and TLC.'),
    'C15': ('TLA+ (TLC): automaton and message behaviours of spec/Utf8.tla and spec/Text.tla, model checked against the definition of UTF-8, replayed on every build of the validator and on the real server', 'The automaton is checked against the definition for all strings of two bytes and all of three (four) over class representatives; its table decides every validator call: all strings up to three bytes, all of four over representatives at every position of a block. Longer texts are sampled. Trusts TLC and the simulator.'),
    'C20': ('TLA+ (TLC): frame format of spec/Frame.tla (incremental decoding model checked), its tables of frames and cuts replayed on every build of the codec', 'Every header (flags, opcode, length form, masking) with lengths around all borders, every truncation of frames up to 400 bytes, with the address sanitizer watching; streams and payload contents are sampled. Trusts TLC and the driver.'),
    'C13': (TR + ' in virtual time', 'The way the server looks at its clients is model checked against the requirements up to a horizon; recorded executions in virtual time under sampled timings and schedules are decided by TLC. Trusts the simulated clock and TLC.'),
    'C17': ('TLA+ (TLC): behaviours of spec/Limits.tla enumerated and replayed on the real server in a deterministic simulator', 'Every combination of sizes at and beyond each limit and every frame sequence up to the bound, under a few limits and segmentations; larger excesses are sampled. Trusts the simulator and TLC.'),
    'C14': ('TLA+ (TLC): offers and message behaviours of spec/Offer.tla and spec/Deflate.tla enumerated, replayed on the real server and extension with an independent encoder and inflater; answers decided by TLC', 'All offers up to the bound on parameters and offers, all message sequences up to the bound for pairs of windows and takeover settings; contents, block structure and segmentation are sampled. Trusts the simulator, the own deflate codec and TLC.'),
    'C18': ('TLA+ (TLC): configurations that the real program loads from enumerated and random files, and executions of servers using them, decided by spec/Config.tla', 'Every setting with every boundary and wrongly typed value, all pairs of a smaller set; whole files, spellings and damages are sampled. Trusts the driver (the real main() with a stub for the server), the simulator and TLC.'),
    'C19': ('TLA+ (TLC): histories of clients over TLS generated from spec/Tls.tla (model checked), and the behaviours of spec/Conn.tla and spec/Handshake.tla put into TLS records, replayed on the real server in a deterministic simulator with OpenSSL clients; workloads of many clients decided by TLC against spec/Server.tla', 'All histories of one client up to the bound on its steps, sampled ones of three clients together, with three kinds of configurations, TLS 1.2 and 1.3 and several ciphers; contents, records, segmentation, blocked sockets and schedules are sampled. Trusts OpenSSL, the simulator and TLC.'),
    'C22': ('TLA+ (TLC): histories of spec/Ext.tla (model checked with ExtMC.tla) generated by TLC exhaustively and by simulation, replayed on the real server with instrumented extensions; every recorded execution decided by TLC against spec/ExtTrace.tla and ExtLife.tla', 'All sets of up to two loaded and two (three) offered extensions of the stated kinds with all sequences of messages up to the bound in the model; larger sets, longer messages and schedules are sampled. Trusts the simulator, the extension used as a probe and TLC.'),
    'C21': ('TLA+ (TLC): histories of connections generated from spec/Res.tla (model checked), repeated on the real server in a deterministic simulator; what is held at the marks and at the end decided by TLC against spec/ResTrace.tla', 'All histories of one connection up to the bound on its steps (every stage with every end) and sampled longer ones, pairs of connections, requests of the handshake model and frames of the connection model; contents, segmentation and schedules are sampled. Memory is counted at malloc. Trusts the simulator and TLC.'),
    'C16': (TR, 'Recorded executions with the interrupt at sampled points of sampled schedules; decided by TLC against spec/Server.tla. Trusts the simulator and TLC.'),
}
PENDING = 'no check built yet'
ids = [json.loads(l)['id'] for l in open(os.path.join(D, 'properties.jsonl'))]
NA = {}
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks compile the sources of /repo unchanged and interpose on libc at run time', 'source_commits': []},
     'checks': [{'property': i, 'quick_cmd': 'python3 checks/run.py %s quick' % i, 'thorough_cmd': 'python3 checks/run.py %s thorough' % i,
                 'technique': CLAIM[i][0], 'level': 'model_checking', 'level_note': CLAIM[i][1]} for i in ids if i in CLAIM],
     'not_applicable': [{'property': i, 'reason': NA.get(i, PENDING)} for i in ids if i not in CLAIM]}
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
