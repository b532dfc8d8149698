#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

CORE='src/reactor/core.c'; DESC='src/reactor/descriptor.c'; STREAM='src/reactor/stream.c'; SERVER='src/reactor/server.c'
TIMER='src/reactor/timer.c'; EVENT='src/reactor/event.c'; ASYNC='src/reactor/async.c'; RESOLVER='src/reactor/resolver.c'
NOTIFY='src/reactor/notify.c'; NET='src/reactor/net.c'; HTTP='src/reactor/http.c'; STRING='src/reactor/string.c'
PHR='src/picohttpparser/picohttpparser.c'; BUF='src/reactor/buffer.c'; LIST='src/reactor/list.c'

p('C01', 'No callback for a source after it was removed or destroyed',
  'Once a source (a raw handler, a descriptor, a stream, a timer, an event, a watch or an async call) has been removed, closed or destructed, its callback never runs again for what it was removed from, even if its notification had already been collected in the same loop iteration. The memory of a removed source may be freed or reused for a new source at once, and the file descriptor number may be reused at once, without a stale notification reaching either. Removing one source never suppresses a notification that belongs to a different source.',
  ['schedules', 'histories'], 'every set of simultaneously ready sources, every order in which the kernel reports them, and every choice of which callback removes, frees, reopens or replaces which source',
  'Tests remove at most one source from its own callback with one or two ready descriptors; they never remove another source that is ready in the same batch or reuse its memory or descriptor number inside the batch.',
  [CORE, DESC, TIMER, EVENT, NOTIFY, STREAM],
  [('pending events of a deleted handler are rewritten to a default handler', CORE+':reactor_delete'), ('destructor closes before the handler is reset', DESC+':descriptor_destruct'), ('event pointer advanced during dispatch', CORE+':reactor_loop_once')],
  ['user callbacks', 'heap (freed sources)'], [dict(name='event batch', meaning='events collected but not yet dispatched', where=CORE)])
p('C02', 'Every readiness change reaches the handler, in order, none invented',
  'When a watched descriptor becomes readable, writable or is hung up, and its mask asks for it, its callback is told of it without needing any other activity, however many descriptors are ready at once and whatever interrupts the wait. In one notification the read part is reported before the write part and the close part last, and a peer hangup or error is always reported as close. A callback is never told of a readiness its current mask did not ask for when the iteration began, and changing the mask reports readiness that already exists.',
  ['schedules', 'histories', 'fault_sequences'], 'all numbers of ready descriptors (including more than fit one batch), all orders of arrival, mask changes, level and edge modes, interrupted waits, half closes, resets',
  'Tests use one to three descriptors with one event each; no test has more ready descriptors than a batch holds, an interrupted wait, or a hangup combined with data.',
  [CORE, DESC], [('descriptor event translation', DESC+':descriptor_callback'), ('mask to epoll events', DESC+':descriptor_events'), ('batch dispatch loop and EINTR', CORE+':reactor_loop_once')], ['descriptor callbacks', 'epoll interest set'])
p('C03', 'The event loop runs exactly as long as it should',
  'The loop returns when, and only when, no source is registered any more or a stop was requested, and a stop requested from a callback, or by SIGINT or SIGTERM at any instant, takes effect after at most the current iteration without waiting for further activity. Interrupted waits, and signals without a handler of ours, do not end the loop. Writing to a vanished peer never kills the process through SIGPIPE.',
  ['schedules', 'histories', 'fault_sequences'], 'all orders of adding and removing sources, all instants at which a signal or an interruption can arrive (including just before the wait blocks), repeated construct/destruct of the reactor',
  'The core test delivers one signal at one fixed point and one interrupted wait by a mock; the instant just before blocking cannot be hit by a test without controlling the schedule.',
  [CORE, DESC], [('loop condition on active flag and descriptor count', CORE+':reactor_loop'), ('signal handlers', CORE+':reactor_construct'), ('descriptor counter', CORE+':reactor_add/reactor_delete')], ['return of the loop', 'process survival'])
p('C04', 'Loop time is stable within an iteration and fresh in the next',
  'All reads of the loop time within one iteration return the same value, and that value is the wall clock in nanoseconds at some instant between the start of that iteration and the read. Every new iteration sees the clock anew, including after an interrupted wait and after the clock was stepped forwards or backwards.',
  ['schedules', 'histories', 'fault_sequences'], 'all clock steps, iteration lengths, numbers of reads, interrupted waits, and several reactors on several threads',
  'Tests read the time twice with a real clock; they cannot step the clock or interrupt the wait at a chosen instant.',
  [CORE], [('time cache cleared at the start of an iteration', CORE+':reactor_loop_once'), ('lazy clock read', CORE+':reactor_now')], ['reactor_now return value'])
p('C05', 'Timers fire exactly as often as scheduled and never early',
  'A timer set with a first delay and an interval never reports an expiration early, and as long as it is not changed the sum of the expirations it has reported equals the number of due instants that had passed when the last callback was made; a late loop loses none and counts none twice. A delay of zero means as soon as possible, a zero interval means once, and setting the timer again replaces the old schedule completely. After it is cleared or destructed it never fires until set again, wall clock steps do not affect it, and setting, clearing or destructing any timer from any callback at any time is harmless.',
  ['schedules', 'histories', 'fault_sequences'], 'all delays and intervals from nanoseconds to years, all loop stalls up to months, all re-arm, clear and destruct operations from the own or another callback at any time, clock steps',
  'The timer test uses a few fixed short delays against the real clock and cannot stall the loop, step the clock, or re-arm a timer whose expiration is already queued.',
  [TIMER], [('expirations are read until exhausted and summed', TIMER+':timer_callback'), ('delay split into seconds and nanoseconds', TIMER+':timer_set')], ['timer callbacks and their counts', 'simulated clock'])
p('C06', 'Event signals are conserved',
  'Every signal raised on an open event, from any thread, is delivered on the loop that owns it: when all is quiet the sum of the counts delivered equals the number of signals raised since the event was opened. No callback is made without at least one undelivered signal, and no further activity is needed for delivery. After the event is closed no more is delivered, and after reopening only signals raised since then are.',
  ['schedules', 'histories'], 'all interleavings of signals from several threads and from callbacks with delivery, any number of signals between two deliveries, close and reopen at any time',
  'The event test raises a signal once or twice from the loop thread; it never coalesces signals from several threads while a delivery is pending.',
  [EVENT], [('eventfd write per signal', EVENT+':event_signal'), ('eventfd read per notification', EVENT+':event_callback')], ['event callbacks and their counts'])
p('C07', 'Background calls complete exactly once and cancel safely',
  'A started background call runs its work exactly once on another thread and then reports completion exactly once on the owning loop, after the work finished and with its effects visible. After a cancel or destruct returns, the work is not running and will not run, no completion is reported, the object may be freed or restarted at once, and no descriptor opened later is touched by the old call. While the work runs, the loop goes on serving its other sources. Calls may be started again from the completion callback, and the loop ends once no call is outstanding.',
  ['schedules', 'histories'], 'all interleavings of the worker thread with start, cancel, destruct, restart and freeing on the owning loop, at every instruction boundary the instrumentation offers',
  'The async test is excluded from the stable set because it is timing dependent; it runs one uncontrolled interleaving per execution.',
  [ASYNC, EVENT], [('worker dispatches the work then signals', ASYNC+':async_thread'), ('cancel stops the worker', ASYNC+':async_cancel'), ('completion on the loop', ASYNC+':async_callback')], ['work and completion callbacks', 'heap', 'descriptor table'])
p('C08', 'Name lookups report the answer to the latest question, once',
  'Each lookup that is not cancelled or superseded reports exactly once, success with the address list the resolver returned for exactly the host, service, family, type, protocol and flags asked, or failure if it failed; a superseded or cancelled lookup reports nothing. The strings given may be changed or freed as soon as the call returns. Every address list the resolver hands out is released exactly once, however slow the lookup and whenever it is cancelled, superseded or destructed.',
  ['schedules', 'histories', 'fault_sequences'], 'all resolver delays and errors, all instants of cancel, new lookup, clear and destruct relative to the worker thread, including from the result callback',
  'The resolver test performs a few local lookups in sequence with the real resolver and cannot delay or fail them at a chosen point.',
  [RESOLVER, ASYNC, NET], [('copies of host and service', RESOLVER+':resolver_lookup'), ('result kept until cleared', RESOLVER+':resolver_clear'), ('lookup on worker', NET+':net_resolve')], ['result callbacks', 'getaddrinfo/freeaddrinfo balance', 'heap'])
p('C09', 'File notifications arrive completely, in order, with the right path',
  'Each change the operating system reports for a watched path is delivered exactly once, in order, with the change mask, the identifier returned when the watch was made, the path given then and the entry name if any, even when many changes queue up; no change is delivered that was not asked for, and nothing asked for is left unwatched. Adding watches, clearing or destructing from within the callback is safe: after a clear or destruct nothing more is delivered, and after a clear new watches start afresh with their own paths. A change queue overflow or the disappearance of a watched path never stops the process or later notifications.',
  ['schedules', 'histories', 'fault_sequences'], 'all sequences of watches and file changes, bursts larger than the read buffer, queue overflow, deletion of watched paths, operations from within the callback',
  'The notify test makes a handful of changes one at a time on a real file system; it cannot overflow the queue or place a change between two reads.',
  [NOTIFY, DESC], [('read loop over whole records', NOTIFY+':notify_callback'), ('watch list lookup by identifier', NOTIFY+':notify_callback'), ('cancel flag set by destruct', NOTIFY+':notify_destruct')], ['notify callbacks'])
p('C10', 'Stream output arrives completely, in order, unaltered',
  'On an open plain stream over a TCP socket, local socket or pipe, the bytes that reach the peer are always a prefix of the bytes written, in order, unduplicated and unaltered, whatever the sizes and the number of writes, allocations and flushes, and whenever the socket accepts only part. Once a flush was requested and as long as the peer keeps reading, everything written before it arrives without any further call. A source of bytes may be changed as soon as the write returns.',
  ['schedules', 'histories', 'fault_sequences'], 'all write sizes, flush points, buffer capacities, partial acceptances, peer reading speeds and pauses',
  'Stream tests write a few messages over a socket pair whose buffer rarely fills; partial writes happen at one or two fixed sizes.',
  [STREAM, BUF, DESC], [('write loop with erase of what was accepted', STREAM+':stream_socket_write'), ('write interest while output is pending', STREAM+':stream_socket_mask')], ['bytes received by the peer', 'stream output buffer'])
p('C11', 'Stream input is delivered completely, in order, before the close',
  'On an open plain stream the concatenation of what the user consumes plus what it can still read is always a prefix of what the peer sent, unduplicated and unaltered, whatever the segmentation, sizes and partial consumption. Everything that arrived is offered by a read notification without needing further traffic, a read notification is made only if new bytes arrived, and data sent before an orderly close is offered before the close is reported. An orderly close or loss of the peer is always reported as close.',
  ['schedules', 'histories', 'fault_sequences'], 'all segmentations, sizes around the receive block, arrival instants between two reads, partial consumption, half closes and resets',
  'Stream tests send one or two small messages; no test splits data at chosen points, exceeds several receive blocks, or combines data and close in one notification.',
  [STREAM, BUF, DESC], [('read until short', STREAM+':stream_socket_read'), ('read before close', DESC+':descriptor_callback')], ['stream_read contents at callbacks'])
p('C12', 'Write notifications fire once when asked and when output can proceed',
  'A write notification requested on an open plain or encrypted stream is reported exactly once per request, when the stream can make output progress and without any other activity; requests made before the report are merged into one. The request survives being made before the stream is opened, from within a callback, or while output is pending, and never blocks or delays that output or incoming data. An encrypted stream reports it only when its queued output has been handed over. An encrypted stream makes no write notification that was not requested; a plain one makes an unrequested one only when output that was pending has just been handed over.',
  ['schedules', 'histories', 'fault_sequences'], 'all orders of open, request, write, flush, drain and peer reading speed, plain and encrypted',
  'The stream tests request one notification on an idle stream; they do not interleave it with pending output or slow peers.',
  [STREAM], [('notify flag adds write interest', STREAM+':stream_socket_mask/stream_ssl_mask'), ('flag cleared before dispatch', STREAM+':stream_socket_callback')], ['stream write callbacks'])
p('C13', 'Encrypted streams deliver both directions intact and keep moving',
  'On an encrypted stream the handshake completes and all bytes of both directions arrive complete, in order and unaltered at the far application, whatever the segmentation, sizes, buffer limits and interleaving of reads and writes. As long as the peer keeps reading and writing, everything flushed arrives and everything received is offered without any further call, including data held back during the handshake and output larger than one record. Traffic or failures on one encrypted stream never disturb another.',
  ['schedules', 'histories', 'fault_sequences'], 'all network segmentations and delays during handshake and transfer, sizes around the record and receive block sizes, small socket buffers, both directions at once, several streams, failing neighbours',
  'The stream and server tests run one handshake and one small message over a socket pair.',
  [STREAM], [('SSL_read until it wants more', STREAM+':stream_ssl_read'), ('SSL_write with partial mode', STREAM+':stream_ssl_flush'), ('write interest from state, output, notify', STREAM+':stream_ssl_mask')], ['decrypted bytes at both ends'])
p('C14', 'A failing peer never hurts the process or other connections',
  'Whatever a peer does (resets, disappears, times out, closes while data is in flight in either direction, sends garbage instead of a handshake), the process neither aborts nor corrupts memory, and every other stream, timer and connection continues unharmed. The affected stream is told of the close, after which it can be closed and destroyed normally. Writing and flushing to a stream whose peer is gone but which has not been told yet is harmless.',
  ['schedules', 'fault_sequences'], 'all instants of reset, close, timeout or garbage relative to reads, writes, flushes and handshakes, plain and encrypted, streams and servers',
  'Tests close peers only when idle; an error returned by a write is not reached.',
  [STREAM, SERVER, DESC], [('write errors', STREAM+':stream_socket_write'), ('close notification from hangup or error', DESC+':descriptor_callback'), ('TLS error state', STREAM+':stream_ssl_flush')], ['process survival', 'close callbacks', 'other streams'])
p('C15', 'A closed stream starts afresh when opened again',
  'After a stream is closed it delivers nothing, holds no input and no pending output, and keeps no trace of the old connection; closing it again is harmless, and so are writing to it, flushing it or asking for a write notification while it is closed: that output waits for the next connection. Opened again, on a plain or encrypted connection, it behaves exactly like a newly constructed stream: nothing of the old connection reaches the new peer or the user, and input is reported only if it was asked for this time. Closing, reopening or destructing a stream is allowed inside any of its own or other callbacks.',
  ['schedules', 'histories'], 'all sequences of open, write, receive, close and reopen with plain and encrypted connections, with pending input, output and notifications at the time of close',
  'Tests use a stream for a single connection.',
  [STREAM, BUF], [('close clears buffers, notify flag and TLS state', STREAM+':stream_close'), ('open sets mask and callbacks', STREAM+':stream_open')], ['bytes at new peer', 'stream callbacks'])
p('C16', 'One response per request, in request order, whatever the segmentation',
  'For every connection the server hands the application exactly the well-formed request heads the client sent (requests have no bodies here: what follows one head is the next request), each once, in order, with the method, target and header fields as sent, one at a time: the next only after the previous one was answered. The client receives exactly one response per request, in order and with the body the application gave for that request, no matter how the requests were split or pipelined and whether the answer was given at once or later. Requests already received while one is outstanding are served without further traffic.',
  ['schedules', 'histories', 'fault_sequences'], 'all splittings and pipelinings of request bytes, all mixes of immediate and delayed answers, many connections at once, plain and encrypted',
  'The server test sends a few requests whole or in one fixed split and answers most at once.',
  [SERVER, HTTP, PHR, STREAM], [('request state machine', SERVER+':server_request_update/server_request_read'), ('respond resumes reading', SERVER+':server_respond'), ('incremental parse', HTTP+':http_read_request_data')], ['application callback', 'bytes received by clients'])
p('C17', 'A malformed request gets one 400, then the connection closes',
  'If what a client sends at a request boundary is not a well-formed HTTP/1 request head, or has more header fields than supported, the application is not called for it, and the client receives the answers of all earlier requests followed by exactly one 400 response and the end of the connection, however the bytes were split and however slowly it reads (responses may be cut short only if the client keeps sending after the connection is closed, because the operating system then resets it). A head that is merely incomplete is never answered. Nothing sent after a malformed head is interpreted. Other connections are unaffected.',
  ['schedules', 'histories', 'inputs'], 'all malformed heads from a grammar of single corruptions, at any position in a pipeline, with any splitting, with earlier answers immediate or delayed',
  'The server test sends one malformed request, whole, on a fresh connection.',
  [SERVER, HTTP, PHR], [('parse failure path', SERVER+':server_request_read'), ('400 and close', SERVER+':server_bad_request')], ['application callback', 'bytes received by clients'])
p('C18', 'A request handle stays valid until it is answered or released',
  'A request the application has been given, and any extra hold it takes, stays valid and readable (method, target and fields as sent) until the matching answer or release, even if more input arrives, the client disconnects, the connection fails, the application closes the connection or the server is shut down in the meantime; answering after that is harmless and sends nothing. When the last hold is gone and the connection is over, everything belonging to it is released exactly once.',
  ['schedules', 'histories', 'fault_sequences'], 'all orders of client disconnect, reset, application close, hold, release, answer and server shutdown, from inside the handler, later, or from other callbacks',
  'The server test answers a disconnected request in one fixed order.',
  [SERVER, LIST], [('reference count per connection', SERVER+':server_hold/server_release'), ('closed state makes answers no-ops', SERVER+':server_respond')], ['heap', 'descriptor table'])
p('C19', 'Shutting a server down releases everything and lets the loop end',
  'After a server is shut down or destructed, at any time and from any callback, no new connection is accepted and no new request is delivered, all its connections that the application does not hold are closed and their peers see the end of the connection, and its timer and listening socket are released. Shutting down repeatedly, or destructing after, is harmless. Once the application has answered or released what it holds, no memory or descriptor of the server remains and a loop with nothing else to do ends. A server that was shut down can be opened again, encrypted or not, and then works like a new one.',
  ['schedules', 'histories'], 'all server states at shutdown: idle, partial requests, held requests, responses pending; shutdown from handler, other callbacks or outside; with or without a listening socket; repeated; opened again, encrypted or not',
  'The server test shuts down once at the end with one or two idle connections.',
  [SERVER, LIST, TIMER], [('release of every connection', SERVER+':server_shutdown'), ('timer and listener closed', SERVER+':server_shutdown')], ['heap', 'descriptor table', 'loop return'])
p('C20', 'Every queued connection is accepted and served',
  'Every connection that completes while the server is open is accepted and served without waiting for another connection or other activity, no matter how many arrive at once or while others are being accepted. An error that concerns a single incoming connection, or an interruption, does not keep the others from being accepted. A connection that is already gone when accepted is dropped without effect on others. When descriptors or memory run out, connections wait in the queue, and they are served within little more than a second after there are some again.',
  ['schedules', 'fault_sequences'], 'all burst sizes and arrival instants (including during the accept loop), all transient accept errors at any position, clients that vanish before accept',
  'The server test opens one connection at a time.',
  [SERVER], [('accept until exhausted', SERVER+':server_socket_descriptor_callback/server_ssl_descriptor_callback')], ['responses received by clients'])
p('C21', 'Response heads are well formed, exact and dated',
  'Every response is a valid HTTP/1.1 head followed by exactly the body: the status as given, a content length equal to the body size, a server field, the content type if and only if one was given, and a date. The date is a valid HTTP date that differs from the wall clock at sending by little more than one second, also right after start, after clock steps, on servers without listening socket, and whatever the time zone and language of the process.',
  ['schedules', 'histories', 'fault_sequences', 'inputs'], 'all body sizes, status and type strings, all instants relative to server start, calendar boundaries, clock steps and stalls',
  'The server test compares one response at whatever the current date is, and never before the first timer tick or across a clock step.',
  [SERVER, HTTP, 'src/reactor/utility.c'], [('date refreshed every second', SERVER+':server_timer_callback'), ('response serialisation', HTTP+':http_write_response')], ['bytes received by clients', 'simulated clock'])
p('C22', 'Event loops on different threads are independent',
  'Each thread that constructs a reactor has its own: sources registered on one thread are only ever called back on that thread, its loop time, stop request and end condition are its own, and constructing, running or destructing a reactor on one thread has no effect on another. Servers and streams on different threads do not share state, under any interleaving.',
  ['schedules', 'histories'], 'all interleavings of two or three threads each constructing, using and destructing reactors with descriptors, timers, events and servers',
  'No test runs two reactors.',
  [CORE, SERVER, STREAM], [('thread-local reactor', CORE+':reactor_core'), ('thread-local date string', SERVER+':server_date_string')], ['thread of callbacks', 'responses per server'])
p('C23', 'Connections survive large and slow exchanges',
  'A connection stays open after each response until the client closes it or the application does, however many requests it carries, however long it is idle, however large the responses are and however slowly the client reads. Responses larger than the socket buffers are delivered completely as the client reads, while other connections keep being served.',
  ['schedules', 'histories', 'fault_sequences'], 'all response sizes, client reading speeds and pauses, socket buffer sizes, numbers of requests per connection, plain and encrypted',
  'The server test uses tiny responses that never fill a socket buffer.',
  [SERVER, STREAM], [('server stream callback', SERVER+':server_request_callback'), ('pending output flushed on writability', STREAM+':stream_socket_callback')], ['bytes received by clients', 'connection state'])
p('C24', 'Message parsing does not depend on how the bytes arrived',
  'Reading a request or response head from a stream gives, for every splitting of the same bytes, the same result: incomplete until the head is complete, then the same consumed length, status or method and target, and header fields, and an error only if the bytes are malformed or contain more fields than the caller has room for. Parsing never reads outside the bytes received so far, and pointers returned lie inside them. A body sent in chunks decodes, for every splitting, to the bytes that were sent: unfinished until its end has arrived, then leaving exactly what follows it, and refused only if it is malformed.',
  ['inputs', 'schedules'], 'all splittings and arrival schedules of valid and corrupted heads and chunked bodies received through a stream, parsed after every arrival',
  'The http test parses whole constant strings.',
  [HTTP, PHR, STREAM], [('incremental parse of the stream buffer', HTTP+':http_read_response/http_read_request'), ('vectorised character scan', PHR+':findchar_fast')], ['return values and fields'])
p('C25', 'Client and server built on the library interoperate over a bad network',
  'Requests written with the library by clients on a loop are answered by a server on the same or another loop, each client receiving the responses to its own requests in order, over plain and encrypted connections, whatever the segmentation, delay, buffering and failure of other connections. After all exchanges end and every component is closed, the loops end by themselves and no descriptor or memory remains.',
  ['schedules', 'histories', 'fault_sequences'], 'all network schedules of several clients and servers with connects, resets, slow links and worker calls',
  'No test connects the library to itself over a network with delays or faults.',
  [SERVER, STREAM, HTTP, NET, ASYNC, RESOLVER], [('all of the above composed', 'src/reactor/*')], ['client side responses', 'heap', 'descriptor table'])
p('C26', 'Opening sockets never aborts and never leaks',
  'Creating a listening or connecting socket from a resolved address either returns a usable non-blocking socket of the kind and address given (listening, with address reuse and room for as many waiting connections as the system allows, or with the connection under way) or reports failure, and in every case the address list is released exactly once and no descriptor is left behind on failure. No failure of any underlying system call stops the process. A failed or refused connection is reported to the stream using the socket as close. A server context for encrypted connections is made exactly when a certificate and its private key can be read from the files given; clients can then connect with it and are shown that certificate, and otherwise failure is reported and nothing is left behind.',
  ['fault_sequences', 'configurations'], 'all failures of socket, option, bind, listen and connect calls, active and passive, all connection outcomes',
  'The net test fails bind once; it does not fail socket or listen.',
  [NET], [('socket, bind, listen, connect sequence', NET+':net_socket'), ('certificate and key', NET+':net_ssl_server_context')], ['return value', 'descriptor table', 'address list balance'])
p('C27', 'File and descriptor transfers of strings are exact',
  'Saving a string to an existing file and loading it again gives the same bytes, whatever the previous file contents and however the operating system splits reads and writes; the file then holds exactly the string. Writing a string to a descriptor transfers exactly its bytes once, and reading a descriptor to its end gives exactly the bytes in it, including zero bytes and any size. Descriptors opened for it are closed and memory taken for it is returned on every path, also of strings that were emptied, and a file that cannot be opened is reported. Paths may be symbolic links or named pipes.',
  ['fault_sequences', 'histories', 'inputs'], 'all contents, sizes, previous contents, short reads and writes, slow pipes',
  'The string test saves a short string once to /dev/null-like targets and never sees a short write.',
  [STRING], [('write loop', STRING+':string_write'), ('read loop', STRING+':string_read')], ['file contents', 'descriptor table'])
p('C28', 'Closing and destructing components returns every resource',
  'After any sequence of opening, using, closing, reopening and destructing streams, descriptors, timers, events, watches, lookups, background calls and reactors, once all are destructed and callbacks are done, no file descriptor and no memory taken by the library remains, and none is returned twice. A loop left without sources ends. This holds on failing and cancelled paths as well as on normal ones.',
  ['schedules', 'histories', 'fault_sequences'], 'all operation sequences over all component kinds, from inside and outside callbacks, with peer failures and cancellation at any time',
  'The valgrind script covers only the fixed sequences of the unit tests, without failing peers or cancellation.',
  [STREAM, DESC, TIMER, EVENT, NOTIFY, ASYNC, RESOLVER, CORE, LIST, BUF], [('destructors', 'src/reactor/*.c')], ['heap', 'descriptor table'])

p('C29', 'Messages written are exactly what was given, on the wire and when read back',
  'A request or response head and body written to a stream with the library consists of exactly the start line, fields and body given, with the correct content length and nothing else, for every size and content of its parts, also beyond 4 GiB, any number of messages written before the stream is flushed, and however slowly the peer reads. Reading it back with the library from a stream, in whatever pieces it arrives, gives exactly the same parts. The arguments may be reused or released as soon as the call returns.',
  ['inputs', 'schedules', 'fault_sequences'], 'all sizes of method, target, host, status, date, type and body; all batches, segmentations, buffer sizes and reading speeds',
  'The http test writes one fixed message and compares it without a socket.',
  [HTTP, STREAM], [('request writer', HTTP+':http_write_request'), ('response writer', HTTP+':http_write_response'), ('output space', STREAM+':stream_allocate')], ['bytes received by the peer', 'parts parsed back'])

p('C30', 'The containers behave as their abstract types over every history of operations',
  'Vectors, lists and hash maps hold exactly the elements that the operations performed on them imply, in the specified order, at every size and load; each element is released exactly once; references into a list stay valid while their element is in the list. String searching, replacing and erasing give exactly the text defined by the operation.',
  ['inputs', 'histories'], 'all sequences of operations, sizes, growth steps and colliding keys',
  'The tests use one short fixed sequence for each container.',
  ['src/reactor/vector.c', 'src/reactor/list.c', 'src/reactor/map.c', 'src/reactor/mapi.c', 'src/reactor/maps.c', STRING], [('open addressing with shifting erase', 'src/reactor/map.c:map_erase'), ('element release', 'src/reactor/vector.c:vector_erase_range')], ['return values', 'release callbacks'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
