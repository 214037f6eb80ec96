#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=[dict(schedule='schedules',input='inputs',history='histories',fault='fault_sequences')[o] for o in over], text=text), why_tests_cant=why, anchors=a))

p('H01', 'Handles are unique, resolve to their own object, and die when closed',
  'A live handle always resolves to exactly the object it was made for; no two live handles share a number, also across growth of the handle table and any mix of creating, re-owning and closing. '
  'Using a closed or never-issued number fails with EBADF and touches nothing, transferring ownership yields a new number and kills the old one, and if the transfer fails the object is closed. '
  'Closing a handle closes its object exactly once, before the number becomes available again, and nothing blocks inside the close.',
  ['history', 'input'], 'every sequence of make/own/query/close operations up to the bound, every allocation failure, every handle number including negative and huge ones',
  'Tests create a handful of handles in one order; free-list corruption shows only for particular interleavings of close, reuse and table growth.',
  ['handle.c', 'handle.h'], [('handle table and free list', 'handle.c'), ('no-blocking window around close', 'handle.c, cr.c')])

p('C01', 'Channels deliver every message exactly once, in order, unmodified',
  'A message sent on a channel is received by exactly one receiver on the opposite end, byte for byte, and the send and the receive succeed together; waiting senders and waiting receivers are each served in arrival order. '
  'The two directions of a channel are independent. '
  'If the sizes differ, both sides fail with EMSGSIZE, nothing is copied beyond either buffer, and the channel stays usable.',
  ['schedule', 'input', 'history'], 'all interleavings of a bounded number of send/receive operations by concurrent coroutines, all message sizes in range, both directions',
  'The order in which coroutines block, time out and are served has many combinations; tests fix one schedule each.',
  ['chan.c'], [('rendezvous and copy', 'chan.c dill_chsend/dill_chrecv/dill_choose'), ('waiter queues', 'chan.c, list.h')])

p('C02', 'Channel half-close, close, timeout and cancellation wake the right waiters',
  'After one end is marked done, the peer\'s current and future receives fail with EPIPE, a second done fails with EPIPE, and sends in that direction fail with EPIPE, while the opposite direction keeps working. '
  'When the channel is destroyed all waiters fail with EPIPE; an operation that times out (ETIMEDOUT), is canceled (ECANCELED) or fails is withdrawn completely: it neither consumes nor delivers a message later, and its buffer is never touched again. '
  'A deadline of zero performs the operation if a partner is already waiting and otherwise fails with ETIMEDOUT without blocking.',
  ['schedule', 'history', 'fault'], 'all interleavings of done/close/timeout/cancel with blocked senders, receivers and multi-way waits, up to the bound',
  'Whether a withdrawn waiter is still linked somewhere shows only if a later operation of the right kind comes along.',
  ['chan.c', 'cr.c'], [('chdone', 'chan.c dill_chdone'), ('channel close', 'chan.c dill_chan_close'), ('clause withdrawal', 'cr.c dill_wait / chan.c cancel callbacks')])

p('C03', 'Multi-way channel wait performs exactly one clause, the earliest ready one',
  'Waiting on several channel clauses performs exactly one of them and returns its index, with all others having no effect; if several can proceed immediately the one listed first is chosen. '
  'Errors of the chosen clause (EPIPE, EMSGSIZE, EBADF, ENOTSUP, EINVAL) are reported with its index and in errno, with errno zero on success; negative count or missing array is EINVAL, and expiry is ETIMEDOUT with no clause performed.',
  ['input', 'schedule'], 'all clause arrays up to the bound (operations, channels, sizes, duplicates, invalid entries) and all events arriving while waiting',
  'The product of clause kinds, channel states and later events is too large for examples.',
  ['chan.c'], [('choose', 'chan.c dill_choose')])

p('S01', 'A suspended coroutine resumes once, by one event, with that event\'s result',
  'A coroutine that suspends on a set of events and timers resumes exactly once, gets the identity and error code of the single event that resumed it, and no other event of that set can resume it or anybody else afterwards. '
  'Coroutines made ready are run in the order in which they became ready, each exactly once, and yielding lets every already ready coroutine run first.',
  ['schedule', 'history'], 'all orders of triggering, timing out, canceling and yielding among a bounded number of coroutines and registered events',
  'A lost or doubled wakeup needs a particular coincidence of events that tests do not enumerate.',
  ['cr.c', 'cr.h', 'qlist.h', 'slist.h'], [('suspend/resume', 'cr.c dill_wait'), ('event registration', 'cr.c dill_waitfor, dill_trigger'), ('ready queue', 'cr.c, qlist.h')])

p('S02', 'Timers never fire early, always fire once due, and idle waits are never too long',
  'An operation with a deadline fails with ETIMEDOUT only when the clock has reached the deadline; every timer whose deadline has been reached fires on the next scheduling round that polls, earliest first. '
  'When nothing is ready the process sleeps at most until the earliest pending deadline, indefinitely only if there is none, and does not sleep at all when a coroutine is ready; a negative deadline never expires.',
  ['input', 'schedule'], 'all clock readings, all deadlines in the 64-bit range, all sets of pending timers up to the bound, any insertion and cancellation order',
  'Tests use a few deadlines within a second; far, equal, past and boundary deadlines and timer removals are combinatorial.',
  ['cr.c', 'rbtree.c', 'rbtree.h', 'now.c', 'libdill.c'], [('timer tree', 'cr.c dill_timer, dill_poller_wait'), ('ordered container', 'rbtree.c'), ('sleep', 'libdill.c dill_msleep')])

p('S03', 'Canceled coroutines: blocking calls fail with ECANCELED, close waits for all',
  'Closing a bundle makes the blocking call each of its coroutines is in, and every blocking call or handle creation they attempt afterwards, fail with ECANCELED; the close returns only after all of them have finished, and then everything they held from the library (stack, bundle memory) is released exactly once. '
  'A blocking call made while a handle is being closed fails with ECANCELED instead of suspending.',
  ['schedule', 'history'], 'all numbers of coroutines up to the bound, every suspension state they may be in when the bundle is closed, nested closes',
  'Which of the possible states each coroutine is in at cancellation time depends on scheduling.',
  ['cr.c'], [('bundle close', 'cr.c dill_bundle_close'), ('no-blocking flags', 'cr.c dill_canblock, dill_no_blocking'), ('coroutine end', 'cr.c dill_epilogue')])

p('S04', 'Waiting for a bundle returns when all coroutines finished, or at the deadline',
  'Waiting on a bundle succeeds at once if no coroutine is running in it and otherwise exactly when the last one finishes; it fails with ETIMEDOUT at the deadline or ECANCELED on cancellation, leaving the coroutines running and the bundle usable. '
  'Launching into a bundle that cannot take it (bad handle, wrong type, no memory, canceled caller) fails with the documented error and leaves no coroutine and no leaked memory behind.',
  ['schedule', 'fault'], 'all completion orders of a bounded number of coroutines, all deadlines, all allocation failures at launch',
  'Needs waits, completions and timeouts in every order plus allocation failure at each step.',
  ['cr.c'], [('bundle wait', 'cr.c dill_bundle_wait'), ('launch', 'cr.c dill_prologue'), ('finish', 'cr.c dill_epilogue')])

p('P01', 'Waiting on descriptors (epoll): woken iff the kernel reported that readiness',
  'A coroutine waiting for a descriptor to become readable (writable) is resumed exactly when the kernel reports input or error (output or error) for it, and by nothing else than that, its deadline or cancellation. '
  'At most one coroutine may wait per direction (a second gets EEXIST/EBUSY), both directions are independent, the kernel\'s interest set always equals what coroutines currently wait for once the process sleeps, and dropping a descriptor\'s state removes it from the kernel set.',
  ['history', 'schedule', 'fault'], 'all sequences of waits, cancellations, cleans and kernel event batches on a bounded number of descriptors',
  'Interest-set drift appears only after specific sequences of wait, timeout, re-wait and clean across descriptors.',
  ['epoll.c.inc', 'pollset.c', 'libdill.c'], [('interest set', 'epoll.c.inc'), ('fdin/fdout/fdclean', 'libdill.c')])

p('P02', 'Waiting on descriptors (poll): woken iff the kernel reported that readiness',
  'The same guarantee when the library is built on the portable poll backend: each waiter is resumed exactly for its descriptor and direction, an error condition wakes both directions, and no stale or foreign event is ever attributed to a descriptor that joined, left or changed its slot.',
  ['history', 'schedule'], 'all sequences of waits, cancellations, cleans and kernel results on a bounded number of descriptors',
  'Slot reuse and compaction errors need specific join/leave orders.',
  ['poll.c.inc', 'pollset.c'], [('pollfd table with slot compaction', 'poll.c.inc')])

p('I01', 'Bytestream receive: exactly the requested bytes, in order, for any segmentation',
  'A successful receive on a connected stream socket fills exactly the requested buffers with the next bytes of the stream, in order, with none lost, duplicated or reordered however the kernel segments the data and however reads are sized, including skipped (NULL) regions. '
  'If the stream ends or breaks first the call fails with EPIPE or ECONNRESET, and nothing outside the supplied buffers is ever written.',
  ['input', 'schedule', 'history'], 'every sequence of receive sizes and scatter lists, every kernel segmentation, short read, EAGAIN, EOF and reset within the bound',
  'Segmentation is decided by the network; loopback tests see one.',
  ['fd.c', 'tcp.c', 'ipc.c', 'bsock.c'], [('buffered receive', 'fd.c dill_fd_recv'), ('stream sockets', 'tcp.c, ipc.c')])

p('I02', 'Bytestream send: each byte reaches the kernel once, in order, on short writes',
  'A successful send hands all bytes of the gather list to the kernel exactly once and in order, whatever the sequence of short writes and would-block results; a broken connection yields ECONNRESET or EPIPE and an expired deadline ETIMEDOUT. '
  'The caller\'s buffer list is unchanged afterwards and malformed lists fail with EINVAL without sending anything.',
  ['input', 'schedule'], 'every gather list, every sequence of partial kernel writes and errors within the bound',
  'Short writes hardly happen on loopback with small messages.',
  ['fd.c', 'tcp.c', 'ipc.c'], [('gather send with resume', 'fd.c dill_fd_send')])

p('N01', 'TCP/IPC state: errors are sticky, half-close is exact, close is a handshake',
  'After a receive (send) on a TCP or IPC connection failed, that direction is permanently dead while the other still works; receives after the peer finished fail with EPIPE, sends after the local half was finished fail with EPIPE, and finishing twice fails. '
  'While one coroutine is blocked in a direction a second one gets EBUSY and disturbs nothing. '
  'Clean close sends what finishing sends if not yet sent, waits for the peer\'s end of stream, and always releases the handle and the descriptor exactly once, also on error.',
  ['history', 'fault', 'schedule'], 'every sequence of operations and every result of every system call and wait within the bound',
  'Error-injection at each system call in each state is outside what loopback tests can do.',
  ['tcp.c', 'ipc.c'], [('connection state flags', 'tcp.c, ipc.c'), ('clean close', 'tcp.c dill_tcp_close, ipc.c dill_ipc_close')])

p('N02', 'Creating sockets never leaks or double-closes descriptors, memory or handles',
  'Opening, connecting, accepting, pairing or wrapping a TCP, IPC or UDP socket either returns a working handle that owns the descriptor, or returns -1 with errno set and releases every descriptor, memory block and handle it had acquired, exactly once. '
  'Closing the resulting handle closes the descriptor exactly once, after dropping its polling state, and frees its memory.',
  ['fault'], 'every combination of failing system calls, waits and allocations on every creation path',
  'Requires failing each of a dozen system calls in turn.',
  ['tcp.c', 'ipc.c', 'udp.c', 'fd.c'], [('creation error paths', 'tcp.c, ipc.c, udp.c'), ('descriptor close', 'fd.c dill_fd_close')])

p('M01', 'PREFIX framing round-trips every message and rejects what does not fit',
  'For every header size and byte order a message sent is one length header of exactly that size followed by exactly the payload, and receiving returns exactly the sent message, consuming nothing beyond it, into any scatter list, which is left as it was. '
  'A message larger than the supplied buffers fails with EMSGSIZE without writing outside them, a message whose length the header cannot express is refused with EMSGSIZE rather than sent corrupted, and after any error that direction only fails with ECONNRESET.',
  ['input', 'fault'], 'every header size 1..8, both byte orders, all payload and list shapes up to the bound, every transport failure point',
  'Length arithmetic breaks at header/list boundaries tests do not hit.',
  ['prefix.c'], [('framing', 'prefix.c'), ('list trimming', 'prefix.c')])

p('M02', 'SUFFIX framing finds the first terminator and never overruns the buffer',
  'Receiving returns exactly the bytes before the first occurrence of the terminator, for every terminator (also self-overlapping ones), stream and scatter list, and consumes exactly through the terminator. '
  'If the message does not fit the buffers the call fails with EMSGSIZE and writes nothing outside them; sending emits payload then terminator and leaves the list unchanged; after an error that direction only fails with ECONNRESET.',
  ['input', 'fault'], 'all streams, terminators, list shapes up to the bound, every transport failure point',
  'Overlapping terminators and exact-fit boundaries are rare inputs.',
  ['suffix.c'], [('terminator search', 'suffix.c')])

p('M03', 'TERM handshake: exactly the terminal message ends the stream, both ways',
  'Messages other than the terminal one pass through unchanged with exact size and content into any scatter list; receiving the terminal message (same length and bytes, nothing else) makes that and all later receives fail with EPIPE without touching the underlying stream again. '
  'The terminal message is sent exactly once, before which sends work and after which they fail with EPIPE; detaching sends it if needed, drops messages up to the peer\'s terminal message and returns the underlying socket positioned right after it.',
  ['input', 'history'], 'all message contents and lengths up to the bound, including terminal prefixes and extensions, all list shapes, all operation orders',
  'Near-miss messages and list shapes around the terminal length are rare inputs.',
  ['term.c'], [('terminal recognition', 'term.c')])

p('W01', 'HTTP lines are parsed and produced exactly; bad or oversized input fails safely',
  'For every byte sequence from the peer, receiving a request, status or field either yields exactly the components of the line, NUL-terminated within the caller\'s buffers, or fails with EPROTO, EMSGSIZE or EPIPE (blank line) without overrunning any buffer or crashing. '
  'What is sent by the sending functions is a single well-formed line that the receiving functions decode back to the same values (surrounding blanks of field values aside), and malformed arguments are refused with EINVAL (EPROTO for a blank field value) and nothing sent.',
  ['input'], 'every peer line and every argument string up to the bound, all buffer sizes',
  'Parsers fail on adversarial inputs tests do not contain.',
  ['http.c', 'suffix.c', 'utils.c'], [('line parser', 'http.c dill_http_recvrequest, recvstatus, recvfield'), ('serialiser', 'http.c dill_http_send*')])

p('W02', 'WebSocket framing is RFC 6455 exact in both roles for every frame and list shape',
  'A sent message is one final frame with the minimal correct length encoding, masked with its own mask if and only if sent by the client, that unmasks to exactly the payload gathered from the list; a received message is the concatenation of its fragments, correctly unmasked, placed contiguously in the scatter list with the right type and size. '
  'Protocol violations, wrong masking, oversized control frames and interleaved data fail with an error, messages larger than the buffers fail with EMSGSIZE, nothing is written out of bounds, and the list is left as it was.',
  ['input', 'fault'], 'all frame sequences, payload sizes across the 125/126 and 65535/65536 borders, masks, list shapes up to the bound',
  'Length-class borders, fragmentation and scatter lists multiply.',
  ['ws.c'], [('frame encoder', 'ws.c dill_ws_sendl_base'), ('frame decoder', 'ws.c dill_ws_recvl_base')])

p('W03', 'WebSocket close handshake: exact status and text, in both directions, once',
  'A close frame ends the inbound half: receives fail with EPIPE from then on and the status code and text sent by the peer are reported exactly (EAGAIN before it arrived, EMSGSIZE if it does not fit). '
  'Finishing sends a single close frame carrying the given status and text, refusing texts the protocol cannot carry and a second finish; detaching completes the exchange and returns the underlying socket.',
  ['input', 'history'], 'all status values and texts up to the bound, all positions of control frames in the inbound stream',
  'Close payload sizes and positions of control frames inside fragmented messages are not sampled.',
  ['ws.c'], [('close handshake', 'ws.c dill_ws_done, dill_ws_detach, dill_ws_status')])

p('W04', 'Base64, SHA-1 and the WebSocket handshake match their specifications',
  'Base64 encoding is the standard encoding and decoding inverts it, stopping at the first character that is not base64 (blanks are skipped), and neither ever reads or writes out of bounds or reports success if the output does not fit; SHA-1 of a message equals the standard digest. '
  'Every generated request key is the base64 text of 16 random bytes, and the response key is the base64 text of the SHA-1 of request key and protocol GUID, refusing request keys that do not decode to 16 bytes. Attaching over HTTP sends the required header once and succeeds exactly if the peer\'s header has the right method or status and every required field exactly once with the right value.',
  ['input'], 'every input up to the bound and every output buffer size',
  'Padding, alphabet and block-boundary cases are combinatorial.',
  ['utils.c', 'ws.c'], [('base64', 'utils.c dill_base64_*'), ('SHA-1', 'utils.c dill_sha1_*'), ('keys', 'ws.c dill_ws_request_key, dill_ws_response_key')])

p('X01', 'SOCKS5 client: connects only on a well-formed success reply from the proxy',
  'The client offers only the methods it can perform, authenticates exactly when the proxy selects user/password, sends a correctly encoded connect request, and reports success only if the proxy\'s replies are well-formed and successful, consuming exactly the handshake bytes. '
  'Every other reply sequence, including hostile ones, yields -1 with errno set and never a crash or an out-of-bounds access.',
  ['input'], 'every reply byte sequence, every credential and host name length up to the bound',
  'Hostile proxies and maximum-length credentials are not in the tests.',
  ['socks5.c'], [('client handshake', 'socks5.c')])

p('X02', 'SOCKS5 proxy: parses every request exactly, accepts only valid credentials',
  'The proxy side selects a method the client offered and the server supports (otherwise it answers 0xFF and fails), accepts a user only if the verification callback accepts exactly the sent name and password, and returns the requested command, address or name and port exactly as sent. '
  'Malformed requests fail with errno set, without crash or out-of-bounds access.',
  ['input'], 'every client byte sequence up to the bound',
  'Only one well-behaved client is tested.',
  ['socks5.c'], [('proxy handshake', 'socks5.c')])

p('L01', 'Scatter/gather list helpers are exact and leave lists as they found them',
  'Validation accepts exactly the well-formed lists (terminated by the given last item, no loop, reserved fields zero) with the right item and byte counts and restores every item also when it refuses; copying into and out of lists transfers exactly the given bytes in order within each item\'s bounds, and trimming yields exactly the remainder.',
  ['input'], 'all lists up to the bound including loops, wrong ends, empty items and skipped regions',
  'Malformed lists and empty items are hardly tested.',
  ['iol.c', 'bsock.c', 'msock.c'], [('list helpers', 'iol.c'), ('argument checks', 'bsock.c, msock.c')])

p('A01', 'IP addresses: text, port and equality operations agree with each other',
  'Parsing a literal yields an address of the right family with exactly that address and port; formatting gives back the literal within the documented length; setting and reading the port and comparing addresses (with and without port) agree for both families, and family preferences and invalid ports are honoured.',
  ['input'], 'all addresses, ports and modes; all literals up to the bound',
  'Equality over partial differences and mode/port combinations are not sampled.',
  ['ipaddr.c'], [('address operations', 'ipaddr.c')])

p('U01', 'UDP sends and receives whole packets with the right peer and errors',
  'A send transmits exactly one packet with the gathered payload to the given or default peer, and a receive delivers exactly one packet with its true size and sender; packets that do not fit fail with EMSGSIZE instead of being truncated silently. '
  'Missing destination and malformed lists are EINVAL, and would-block results on receive wait for readiness until the deadline.',
  ['input', 'fault'], 'all payload and list shapes up to the bound, all system call results',
  'Truncation and kernel errors need fault injection.',
  ['udp.c'], [('datagram send/receive', 'udp.c')])

p('O01', 'Attaching and detaching protocols transfers the underlying socket exactly once',
  'Attaching a protocol takes over the underlying handle (the old number becomes invalid); if attaching fails for any reason the underlying socket is closed exactly once and no memory or handle leaks. '
  'Closing the top handle closes the whole stack exactly once; detaching returns a working underlying handle exactly once, releases the protocol\'s own handle and memory, and on failure closes everything.',
  ['fault', 'history'], 'every failing allocation, handle creation and transport operation in attach, detach and close of every message and application protocol',
  'Failure of each step of each protocol has to be forced.',
  ['prefix.c', 'suffix.c', 'term.c', 'http.c', 'ws.c', 'tls.c'], [('ownership transfer', 'attach/detach functions of each protocol')])

p('K01', 'Coroutine stacks are private, large enough, guarded and recycled safely',
  'Every stack handed out is distinct from all stacks in use, aligned, at least the guaranteed usable size and has an inaccessible guard page below it; released stacks are reused or freed exactly once, and allocation failure is reported as ENOMEM without corrupting the cache.',
  ['history', 'fault'], 'all allocation/release sequences up to the bound, all allocation and protection failures',
  'Cache reuse patterns and allocation failures are not enumerated.',
  ['stack.c'], [('stack allocator and cache', 'stack.c')])

p('R01', 'Timer tree stays an ordered balanced search tree under any operations',
  'After any sequence of insertions and removals the tree contains exactly the inserted and not removed items, the smallest is found first, equal keys are all kept, and the red-black balance rules hold.',
  ['history'], 'all insertion/removal sequences over all keys up to the bound',
  'Rebalancing cases are only reached by particular sequences.',
  ['rbtree.c', 'rbtree.h'], [('red-black tree', 'rbtree.c')])

p('F01', 'Receive buffers are never shared between connections and recycled safely',
  'A receive buffer given to a connection is not in use by any other, holds no stale bytes visible to the user, and returns to the pool or the heap exactly once; an unused buffer released early never loses unread data.',
  ['history', 'fault'], 'all allocation and release sequences up to the bound',
  'Aliasing appears only with several connections opened and closed in a particular order.',
  ['fd.c'], [('rx buffer pool', 'fd.c dill_fd_allocbuf, dill_fd_freebuf')])

p('D01', 'DNS messages from the network are parsed without memory errors',
  'For every byte sequence received as a DNS message, parsing of its header, names, questions and records terminates and stays within the message and output buffers; names that were encoded by the library decode to themselves.',
  ['input'], 'every packet up to the bound, including compression loops',
  'Malformed packets are not in the tests.',
  ['dns/dns.c', 'ipaddr.c'], [('packet parser', 'dns/dns.c')])

p('E01', 'Happy Eyeballs returns one connected socket and abandons all other attempts',
  'Connecting by name tries the resolved addresses alternating between families starting with IPv6, starts a further attempt only if none succeeded within the stagger interval, returns the first socket that connects, and closes every other attempt and socket; if no attempt can succeed it fails with errno set within the deadline.',
  ['schedule', 'fault'], 'all results and completion orders of resolution and connection attempts up to the bound',
  'Needs control over name resolution and connection timing.',
  ['happyeyeballs.c'], [('attempt scheduler', 'happyeyeballs.c')])

p('T01', 'TLS sockets map the TLS engine\'s results to stream semantics exactly',
  'A TLS receive or send succeeds only when the TLS engine accepted or produced all requested bytes, in order; orderly shutdown by the peer is EPIPE, other failures are reported as the transport\'s error or EFAULT and the direction then fails with ECONNRESET, handshakes succeed only if the engine says so and observe the deadline, and attaching or detaching releases engine objects and the underlying socket exactly once.',
  ['fault', 'schedule'], 'every sequence of engine results and transport errors within the bound',
  'Engine error results are not injected by the tests.',
  ['tls.c'], [('engine loops', 'tls.c')])

p('G01', 'Switching between coroutines preserves every callee-saved register and stack',
  'When a coroutine resumes, all values it relied on (callee-saved registers, stack pointer, resume address) are exactly those at its suspension, on every supported switching implementation.',
  ['input'], 'all register contents',
  'Depends on compiler register allocation, which tests sample once per build.',
  ['libdill.h', 'cr.c'], [('context switch macros', 'libdill.h')])

p('G02', 'Threads are isolated: each has its own scheduler, handles and caches',
  'Library state used by one OS thread is never read or written by another, and is initialised before first use and released exactly once at thread exit.',
  ['schedule'], 'all thread interleavings',
  'Data races depend on timing.',
  ['ctx.c', 'ctx.h'], [('per-thread context', 'ctx.c')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
