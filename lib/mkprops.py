"""Regenerates properties.jsonl (the list is kept here in a readable form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state], 'observe_at': list(observe), 'hook_needed': None}})

T = 'The unit tests call single functions with a few fixed inputs; '
p('C01', 'Every complete message reaches the application exactly once, intact, in order',
  'Every text or binary message a client sends, whether in one frame or fragmented with control frames in between, is handed to the application exactly once, with the original type and bytes, in the order sent, and no message is handed over that was not completely received. How the bytes are split over TCP segments and reads makes no difference.',
  ['inputs', 'histories', 'schedules'], 'all sequences of valid frames (any payload length form, fragmentation and interleaved control frames), all segmentations of their bytes, all interleavings of the server threads',
  T + 'no test drives a running server with more than a few whole frames per read, so reassembly across reads, fragments and control frames is never varied.',
  ['src/worker.c', 'src/frame.c', 'src/session.c'], [('parsing and saving of incomplete frames between reads', 'src/worker.c: WSS_read, read_internal'), ('frame parser', 'src/frame.c: WSS_parse_frame')],
  [('saved payload and frames', 'bytes and frames of a message not complete yet', 'src/session.h')], ['subprotocol onMessage', 'bytes echoed to the client'])
p('C02', 'Protocol violations end the connection with the right close code, only those',
  'When a client breaks the framing rules (reserved bits, unknown opcode, unmasked frame, fragmented or oversized control frame, misplaced continuation, invalid close payload or code, invalid UTF-8) the server sends one close frame with the status code for that violation and ends the connection; the offending frame and everything after it is not processed, and everything valid before it is. A client that keeps to the rules is never closed on.',
  ['inputs', 'histories'], 'every violating frame (and combinations of violations) after every prefix of valid frames including inside a fragmented message, followed by anything, under all segmentations',
  T + 'whether a violation is seen in each connection state, and that nothing is processed behind it, needs all combinations of state and frame.',
  ['src/worker.c', 'src/frame.c', 'src/error.h', 'src/utf8.c'], [('frame checks', 'src/worker.c: WSS_read'), ('close frame creation', 'src/frame.c: WSS_closing_frame')], (), ['close frame on the wire', 'end of the connection', 'subprotocol onMessage'])
p('C03', 'Closing handshake: one close frame, the last thing sent, then the end',
  "A client's valid close frame is answered by a close frame with the same status code (none if it had none), after all data queued before it; the server sends nothing after a close frame and then ends the connection. The same holds when the application closes: its status code is sent, later sends are dropped, and no data received after the client's close frame reaches the application.",
  ['inputs', 'histories', 'schedules'], 'all valid close codes and reasons, application and client closes in any order with data around them, all segmentations and schedules, interrupted reads and writes',
  T + 'the closing handshake is only exercised by the Autobahn suite, which is not part of the tests, and never with partial writes or concurrent sends.',
  ['src/worker.c', 'src/frame.c', 'src/message.c'], [('closing flag and outgoing queue', 'src/message.c: WSS_message_send_frames'), ('close handling', 'src/worker.c: WSS_read, WSS_work')], (), ['bytes on the wire', 'TCP end of stream'])
p('C04', 'Every ping is answered by one pong with the same payload; pongs are ignored',
  'While a connection is open every ping frame a client sends is answered by exactly one pong frame with the identical payload, in order, also in the middle of a fragmented message, without disturbing that message. Unsolicited pongs change nothing, and neither pings nor pongs reach the application as messages.',
  ['inputs', 'histories', 'schedules'], 'all ping and pong payloads (0 to 125 bytes) at all positions in a conversation, all segmentations',
  T + 'there is no test of pings between fragments or across reads.',
  ['src/worker.c', 'src/frame.c'], [('ping handling', 'src/worker.c: WSS_read'), ('pong frame', 'src/frame.c: WSS_pong_frame')], (), ['bytes on the wire', 'subprotocol onMessage'])
p('C05', 'Handshake accepted exactly for valid, allowed upgrades, with the right answer',
  'A connection is upgraded exactly when its request is a valid WebSocket upgrade the configuration allows (method, version, required headers, 16 byte key, supported protocol version, configured hosts, origins, paths and queries); the 101 answer then carries the right accept key, and a subprotocol or extension only when the client offered it. Any other request gets the HTTP error status for its defect, no upgrade and no application callback.',
  ['inputs', 'configurations'], 'all combinations of present, missing, wrong and repeated header values, request targets and configured restrictions',
  T + 'the header tests check single headers in isolation, not the decision over their combinations with configured restrictions, nor the answer sent.',
  ['src/header.c', 'src/worker.c', 'src/error.h', 'src/b64.c'], [('request parsing and validation', 'src/header.c: WSS_parse_header, WSS_upgrade_header'), ('handshake response', 'src/worker.c: handshakeWebsocket')], (), ['HTTP response bytes', 'subprotocol onConnect'])
p('C06', 'HTTP: same well-formed answer for any segmentation, never a crash',
  'Whatever bytes a client sends before the handshake is complete, the server neither crashes nor hangs, and answers a complete request (within the limits on its size) by one well-formed HTTP response that depends only on the bytes of the request, not on how they were split into segments. Header names and values are treated case-insensitively and with optional white space as HTTP prescribes.',
  ['inputs', 'histories'], 'all request bytes, valid, invalid or mutated, under all segmentations',
  T + 'requests are passed to the parser whole.', ['src/header.c', 'src/worker.c'], [('incremental header parsing', 'src/worker.c: WSS_read, src/header.c: WSS_parse_header')], (), ['HTTP response bytes', 'server process state'])
p('C07', 'Messages sent are delivered complete, in order and never interleaved',
  'Everything the application sends on an open connection reaches the client as a valid sequence of unmasked frames: each message whole and unchanged, in order of sending, with no other frame in the middle of a frame and only control frames between the fragments of a message, for any size. This holds however little the socket accepts per write and whichever threads send at the same time.',
  ['schedules', 'fault_sequences', 'inputs'], 'all message sizes around the frame limit, all patterns of partial writes, full socket buffers and interruptions, all interleavings of sending threads',
  T + 'no test makes a write stop half way or sends from two threads.', ['src/worker.c', 'src/message.c', 'src/frame.c', 'src/session.c'],
  [('partial write bookkeeping', 'src/worker.c: WSS_write'), ('queueing', 'src/message.c: WSS_message_send_frames')], [('written, messages', 'position inside the queued messages', 'src/session.h')], ['bytes received by the client'])
p('C08', 'Ring buffer: each queued element is consumed once, in order, never overwritten',
  'The lock-free multi-producer single-consumer queue that carries outgoing messages hands every acquired and produced slot to the consumer exactly once, in acquisition order, never before it was produced, and never lets a producer overwrite a slot not yet released. When it is full acquisition fails; it succeeds again after the consumer released space.',
  ['schedules'], 'all interleavings of memory accesses of several producers and the consumer, including wrap around, explored systematically and at random',
  T + 'the ring buffer tests run a stress loop in a single schedule each time; the interleavings that matter are a few instructions wide.', ['src/ringbuf.c', 'src/ringbuf.h'],
  [('acquire, produce, consume, release', 'src/ringbuf.c')], [('next, end, written, seen_off', 'positions of producers and consumer', 'src/ringbuf.c')], ['return values of the API'])
p('C09', 'Worker pool: every accepted task runs exactly once, graceful shutdown loses none',
  'Every task the pool accepts is run exactly once by one of its threads and no task it rejected is ever run; it rejects only invalid arguments, a full queue or a pool shutting down. Tasks start in order of acceptance, a graceful shutdown runs all accepted ones before it returns, and an immediate one returns without running a task twice.',
  ['schedules', 'histories'], 'all interleavings of adding threads, workers and shutdown, spurious wake-ups, all queue and pool sizes',
  T + 'the pool tests use sleeps and one schedule.', ['src/pool.c', 'src/pool.h'], [('queue under lock and condition variable', 'src/pool.c')], [('head, tail, count', 'the task queue', 'src/pool.c')], ['task executions', 'return values'])
p('C10', 'Subprotocol callbacks form a proper life cycle, also when descriptors are reused',
  'For every upgraded connection the subprotocol gets one connect callback with that connection\'s address, path and cookies, before any message callback, and one close callback when it ends, however it ends, after which no callback for it follows; refused connections get none. A descriptor is only reused by a new connection after the close callback of the old one, and data of one connection is never attributed to another.',
  ['histories', 'schedules'], 'all histories of connections opening, talking and ending (close frame, reset, half close, violation, time out), all schedules, descriptors being reused at once',
  T + 'connection churn under adversarial schedules is not tested.', ['src/worker.c', 'src/session.c', 'src/server.c', 'src/event.c'], [('session jobs and states', 'src/session.c, src/worker.c: WSS_disconnect')], [('session jobs/state', 'threads using a session and its phase', 'src/session.h')], ['subprotocol callbacks'])
p('C11', 'Broadcast: every other live client gets each message once; senders are isolated',
  'A message sent to several connections reaches each one that stays open exactly once and unchanged, messages of one sender arrive everywhere in the order sent, and the sender and ended connections get nothing. Connections that come, go, or stop reading meanwhile neither block nor corrupt the delivery to the others.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of broadcasting, joining, leaving and stalled connections',
  T + 'the broadcast subprotocol has no test with concurrent connections.', ['subprotocols/broadcast/broadcast.c', 'src/message.c', 'src/worker.c'], [('recipient list', 'subprotocols/broadcast/broadcast.c'), ('message send', 'src/message.c')], (), ['bytes received by the clients'])
p('C12', 'No deadlock and no lost event: every client is eventually served',
  'Whatever the other clients do and however the threads are scheduled, no set of threads of the server blocks each other for ever, and every complete request or frame a live client sent is eventually processed and every queued answer eventually sent to a client that reads. A client that stalls, resets or floods does not stop the service of the others.',
  ['schedules', 'fault_sequences', 'histories'], 'all schedules of the server threads, bursts of events beyond the queue size, interrupted calls, stalled clients',
  'Tests run one schedule and few events; a lost wake-up, a lock order inversion or a lost one-shot event needs a particular interleaving.', ['src/worker.c', 'src/event.c', 'src/session.c', 'src/server.c', 'src/pool.c', 'src/message.c'],
  [('one-shot event re-arming', 'src/event.c, src/worker.c: WSS_work'), ('session locks', 'src/session.c')], (), ['progress of clients', 'blocked threads'])
p('C13', 'Idle and stalled clients are ended in time; responsive ones are not',
  'When client timeouts are configured, an idle connection is pinged the configured number of times and ended with status 1013 if it shows no life within the timeout; any data received postpones this, and a connection whose client answers is never ended. With the timeout off no connection is ever pinged or ended for idleness, and a single stalled peer does not keep a thread busy longer than the read and write timeouts.',
  ['histories', 'configurations', 'schedules'], 'all timings of client activity relative to the timeout and ping periods, all settings of the timeouts',
  T + 'timers are not tested at all (real time would be needed).', ['src/server.c', 'src/worker.c', 'src/session.c'], [('cleanup thread', 'src/server.c: cleanup_client'), ('activity time stamp', 'src/worker.c, src/session.h')], [('alive', 'last sign of life', 'src/session.h')], ['frames on the wire at virtual times'])
p('C14', 'permessage-deflate: negotiated as offered, messages survive both ways',
  'An offer of permessage-deflate is accepted only if its parameters are valid, with an answer that is a legal response to it, and declined otherwise. Messages compressed by the client under the negotiated parameters (any fragmentation, block structure, context takeover or not) arrive decompressed exactly, and what the server sends decompresses to exactly what the application sent, never needing a larger window than agreed; invalid compressed data ends the connection without harm to others.',
  ['inputs', 'configurations', 'histories'], 'all extension offers, negotiated parameters, message sizes, contents and fragmentations, sequences of messages',
  T + 'the extension has no tests of its own in the suite.', ['extensions/permessage-deflate/permessage-deflate.c', 'src/extensions.c', 'src/worker.c', 'src/header.c'],
  [('offer parsing', 'permessage-deflate.c: onOpen'), ('inflate/deflate with context handling', 'permessage-deflate.c: inFrames, outFrames')], [('per connection streams', 'compression state and parameters', 'permessage-deflate.c')], ['handshake response', 'frames on the wire'])
p('C15', 'Text is accepted exactly when it is valid UTF-8',
  'A text message or close reason is accepted exactly when its bytes are valid UTF-8 (no surrogates, no overlong forms, nothing above U+10FFFF, no truncated sequence), whatever its length, alignment and position of the bytes, also when characters are split between fragments. Otherwise the connection is closed with status 1007 and the text is not delivered; binary data is never checked.',
  ['inputs'], 'all byte sequences up to four bytes at all positions and alignments in texts of all lengths, all splits between fragments',
  T + 'the UTF-8 tests use one file of examples; the vectorised validator treats blocks and block borders separately.', ['src/utf8.c', 'src/utf8.h', 'src/worker.c'], [('validator', 'src/utf8.c: utf8_check')], (), ['close frame 1007', 'subprotocol onMessage'])
p('C16', 'Graceful shutdown always completes, closing every connection cleanly',
  'After an interrupt signal, at whatever moment it comes and whatever the connections are doing, the server stops accepting, ends all connections with the close callback for each, unloads its plugins once after their last callback, and exits with success without crash or hang.',
  ['crash_points', 'schedules', 'histories'], 'all moments of the signal relative to connections opening, talking, stalled and closing, all schedules',
  T + 'no test stops a server that has connections.', ['src/server.c', 'src/worker.c', 'src/session.c', 'src/main.c', 'src/pool.c'], [('shutdown sequence', 'src/server.c: WSS_server_free')], (), ['exit status', 'callbacks', 'end of connections'])
p('C17', 'Configured limits on requests, frames and fragments are enforced exactly',
  'A request target, header, request body, frame payload or number of fragments up to its configured limit is accepted and one beyond it refused: 414, 431 and 413 before the upgrade, close code 1009 after it, as soon as the excess is known and without waiting for the announced data. Frames the server sends itself never carry more application data (before extensions) than the frame limit, and longer messages are fragmented.',
  ['inputs', 'configurations'], 'sizes below, at and above every limit, all settings of the limits, all segmentations',
  T + 'limits are tested at no more than a point each, never on a running server.', ['src/worker.c', 'src/header.c', 'src/frame.c', 'src/config.c'], [('limit checks', 'src/header.c: WSS_parse_header; src/worker.c: WSS_read; src/frame.c: WSS_create_frames')], (), ['HTTP status', 'close code', 'frame sizes on the wire'])
p('C18', 'A configuration file takes effect exactly as written, or is refused',
  'Every documented setting in a configuration file takes effect with the value written and every omitted one keeps its documented default, independent of the order and presence of other settings; values of the wrong type or unusable files are refused or ignored without crashing.',
  ['configurations', 'inputs'], 'all subsets of settings in any order with boundary and wrongly typed values',
  T + 'the configuration tests load a handful of fixed files.', ['src/config.c', 'src/config.h', 'src/core.h'], [('loading', 'src/config.c: WSS_config_load')], (), ['resulting configuration'])
p('C19', 'Secure connections behave exactly like plain ones',
  'Over TLS the opening handshake, message exchange, closing and error reactions are the same as over a plain connection for the same client bytes, however these are split into TLS records, and the data of any size arrives intact in both directions. Failed or abandoned TLS handshakes affect no other connection.',
  ['inputs', 'histories', 'fault_sequences'], 'the conversations of the connection model over TLS with records split and merged, large transfers, aborted TLS handshakes',
  T + 'TLS is only tested for context creation.', ['src/ssl.c', 'src/worker.c', 'src/server.c'], [('TLS read/write/handshake', 'src/ssl.c')], (), ['decrypted bytes received by the client'])
p('C20', 'Frame encoding and decoding are exact inverses and total',
  'Encoding a message into frames and decoding the result gives back the same message for every type, size, masking and fragmentation; decoding any bytes never reads past them, consumes exactly one frame when it is complete and nothing definite when it is not. Frames for close codes, pings and pongs have the prescribed form and size limits.',
  ['inputs'], 'all headers (flags, opcodes, length forms, masks), payload lengths around all form boundaries, all truncations',
  T + 'about a dozen fixed frames are checked.', ['src/frame.c', 'src/frame.h'], [('codec', 'src/frame.c: WSS_parse_frame, WSS_stringify_frame(s), WSS_create_frames, WSS_closing_frame, WSS_ping_frame, WSS_pong_frame')], (), ['return values and produced bytes'])
p('C21', 'Ended connections leave nothing behind',
  'After a connection has ended, in whatever way and at whatever stage, its descriptor is closed once and no memory or other resource of it is kept, so that any number of connections over time needs no more than those open at once; what is kept per connection is released at the latest when the server stops.',
  ['histories', 'fault_sequences', 'schedules'], 'long histories of connections ending in every way the connection model has, at every stage',
  T + 'leaks per connection are invisible to tests that look at results.', ['src/session.c', 'src/worker.c', 'src/server.c', 'src/message.c'], [('session release', 'src/session.c: WSS_session_delete')], (), ['open descriptors', 'allocated bytes'])
p('C22', 'Extensions see every frame in order and can transform it both ways',
  'Each accepted extension is asked once per connection about its offer; what the client sends passes through all accepted extensions in the reverse of the negotiated order, and what the server sends passes through them in the negotiated order (RFC 6455 section 9.1): each frame and then each whole message of data, once, every extension seeing what the one before it made of it, and what the last one makes of it is what the application or the client gets. The answer of the handshake lists exactly the accepted extensions, in the order of the offer, with the parameters they gave. Extensions not loaded, not offered, or declining are never called for a connection again; reserved bits that no accepted extension consumes are protocol errors, on control frames too. Every extension is initialised once with its configuration, told once when a connection it was accepted for ends, and destroyed once when the server stops.',
  ['configurations', 'histories', 'inputs'], 'all sets of loaded, offered and accepted extensions and all message sequences',
  T + 'the registry of extensions is tested only by loading one.', ['src/extensions.c', 'src/worker.c', 'src/message.c', 'src/header.c'], [('pipeline', 'src/worker.c: WSS_read; src/message.c')], (), ['extension callbacks', 'frames on the wire'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
