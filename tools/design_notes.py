"""Notes of DESIGN.md per property: what the oracle is, bounds, decisions taken."""
NOTES = {
'C01': 'Oracle: a state machine of ~100 lines (pending / result / exception / cancelled, callbacks multiset, awaiters). After every step each query of the real future is compared. Bounds: up to ~20 operations. `remove_done_callback` of a callback registered twice is compared as a multiset.',
'C02': 'Oracle: the same program interpreted on asyncio. The trace (instant, task, event, value) and the outcome of each task have to be equal. Constructs without an asyncio counterpart are not generated.',
'C03': 'As C02, with cancellations at unique instants or within the same ready cycle as a wake-up. asyncio\'s counters (`uncancel`) have no scarletio counterpart and are not generated.',
'C04': 'Oracle: a discrete event simulator which computes the trace of the program from the property\'s text. Deadlines are unique except in the dedicated sub check (deadline == completion), where both outcomes are allowed but each has to be consistent: reported as hit if and only if the task ends with it.',
'C05': 'Oracle: invariants at every instant (holders <= size, FIFO among the not cancelled requesters, no free slot while somebody waits) and at the end (lock free, usable, every task accounted).',
'C06': 'Oracle: exact deque model for settled histories; for same-instant races conservation (each element put is got once or still in), bound and liveness.',
'C07': 'Oracle: set of waiters at the time of `set`. Same-instant set-clear and set-cancel are generated on purpose.',
'C08': 'Oracle: sequential model over unique instants for all eight kinds of waiters. `wait_next` of a group with nothing left gives None, which the existing tests fix; `wait_first_n` asking for more futures than ever finish waits forever, which is taken as documented behaviour.',
'C09': 'Oracle: a simulator of bounded concurrency. Left as it is, being deliberate: a CancelledError raised by an added coroutine itself counts as that coroutine finishing.',
'C10': 'Oracle: a priority queue keyed by (due time, order of scheduling).',
'C11': 'Oracle: list of the calls computed from the operations by a model of cycles.',
'C12': 'Real threads, several loops. In `operations` and `waits` schedules are not controlled, they are perturbed by switch interval and sleeps. In `switch` they are: `scarletio.core` is imported with a marker at every point where CPython may hand over the interpreter (function entry, loop repetition, continued generator, return from a non-python callee), and one thread is stopped at its k-th point till the other one acted; k is generated, each of 11 situations is calibrated first. Single preemptions only, bugs needing two are not reached. It found six defects of the cross thread completion and cancellation of futures and of the lazy start of loops. Oracle: each operation has one possible outcome; a hang is a violation. Rare schedules may be missed, an alarm is always right.',
'C13': 'Real threads and single injected switches as C12. `busy`: executors while every one of them is occupied.',
'C14': 'Real garbage collection (reference drop, cycle + gc.collect). Oracle: number of finalizations per generator is exactly 1, on its own loop, before `shutdown_asyncgens` returns.',
'C15': 'Oracle: RFC 3986 tables and `urllib.parse` where the options agree.',
'C16': 'Oracle: the generated components themselves. Left out as design limits: an empty first path segment, one letter hosts, one digit ports, sorting of query items by key.',
'C17': 'Oracle: multi map of the items / RFC 3986 remove_dot_segments.',
'C18': 'Oracle: the matching plain container holding strong references, filtered by who is alive. Iterators are kept open while members die.',
'C19': 'Oracle: list of (key, value) pairs. Comparing an IgnoreCaseString with subclasses of str which override `==` is out of its control and left out.',
'C20': 'Oracle: `sorted` (stable) with identity compared among equal values only as multiset.',
'C21': 'Oracle: the byte string of everything sent and a cursor. A cancelled read may lose bytes which it already took, only from the front.',
'C22': 'Oracle: a transport which records pause / resume. Iterating may resume reading above the limit, when the consumer would starve otherwise.',
'C23': 'Oracle: the generated head; for `robust` a hand written strict parser of heads: what is accepted has to mean the same. Corrected false alarm: folded headers (obs-fold) are joined before comparing.',
'C24': 'Oracle: the generated body; for cuts and damage: the result is the whole body or an exception, never a shorter body. Left out: a compressed stream cut inside of a complete http body, multi member gzip; iterating may give empty chunks.',
'C25': 'Oracle: the generated values; for `garbage`: only the documented exception types, and whatever was accepted has to be stable (parse . build . parse).',
'C26': 'Oracle: a reference multipart / urlencoded parser written for this. Left out: `parse_content_disposition` and `BodyPartReaderPayload` are not used by anything; a full path as file name is sent as is; a nested boundary which starts with the outer one and has no Content-Length; non-str values in multipart forms raise TypeError by design.',
'C27': 'Base: `lib/vnet.py`, a simulated network on virtual time under the real transports (fake descriptors, own selector). Oracle: the concatenation of everything written. Not generated: pausing after eof was received (asyncio reports eof again too). When both ends close with unsent data while neither reads, they may wait until aborted; writes to a closed peer may end with ConnectionError.',
'C28': 'Real OpenSSL on both ends over `lib/vnet.py`; the wire is recorded and searched for the plain text. TLS has no half-close: closing one end ends the other. Data of a batch already decrypted may be delivered after `pause_reading`. `connection_made` may be called when a cancellation lands in the very instant of connecting.',
'C29': 'Name resolving is replaced by a table of addresses. `Server.wait_closed` of an already closed server returns at once even with open connections, as asyncio did before 3.12; left.',
'C30': 'Oracle: an encoder / decoder of frames written from RFC 6455; the generated messages. When sends are concurrent with the terminal event only membership / prefix is required. The peer sends nothing after its own close frame. `close_code` after a violation stays 1006 (no close frame was received) while receiving raises with the code of the violation. Corrected false alarm: sending while draining is blocked may time out the close (4 s here).',
'C31': 'Close timeout is 4 s; undisturbed closes have to be prompt (3 s virtual at most, with latency). Messages sent before close have to arrive unless reset, cancelled or the server was closed. A cancelled close fails the connection instead of waiting for it.',
'C32': 'Oracle: a verdict function over the generated parts of the request / response. Equal duplicated headers collapse in IgnoreCaseMultiValueDictionary and are not generated as duplicates; an empty extension or subprotocol header may be ignored or refused. A str url is taken as not encoded by URL (by design), so encoded urls are given as URL objects.',
'C33': 'The server (checks/c_client.py) is an own HTTP/1.1 implementation on vnet: it parses strictly (one request at a time, exact chunk framing), answers by a generated plan (framing by length, chunks or end of connection; gzip and deflate; HTTP/1.0; keep alive headers; interim responses; before, after or long after the end of the request; unsolicited 408; closing or resetting later; cut at any byte) and knows what every body should be. Oracle: each request is seen at most once, its decoded body equals what was given (or a prefix while unfinished), the response of index i carries index i and its body; a failure must be explained by a cut, a reset at that time, an idle connection ending at the same time or an early answer. Sequences which allow it must use a single connection ("reuse"), idle connections must be closed in time, nothing may stay open. Not judged: responses which the user drops without reading (they hold their connection until collected), 408 answers arriving while the next request is being sent (no client can tell).',
'C34': 'Reference user agent: a simulation of RFC 9110 redirects (301 / 302 turn POST into GET, 303 everything but HEAD; 308 is not followed by the client, by design; the limit counts as `redirects` documents). When a location of the same origin has credentials in its url either those or the earlier ones of an url may be sent. Cookies are kept by host. After a timeout only prefixes are judged.',
'C35': 'Oracle: a model of RFC 6265 written for this; loop time is virtual, wall time is real, dates are generated far from now. Requests compare names, and values where a single cookie has the name or the one with the longest path decides. Public suffixes are not known to the jar (left).',
'C36': 'Oracle: an encoder / decoder of RFC 1035 written for this; `garbage` compares verdicts and contents on damaged messages (where the standard leaves it open whether a message is valid, accepting needs the right content). Compression loops were found by the CPU limit.',
'C37': 'Oracle: `ipaddress`, label lists, a reference resolv.conf reader. Known finding `sortlist-of-files`: the existing tests fix that `sortlist` lines are kept as strings, which then cannot be used.',
'C38': 'Oracle: the log of what the simulated sockets were given / what arrived at them (`lib/vnet.py`, SimDatagramSocket) against what the program sent. Sending an empty datagram is ignored (as asyncio did, design). `wait_for_receive` gives None at its timeout, as its documentation says.',
'C39': 'Name servers are simulated on the network of `vnet`: udp sockets, tcp and real tls servers, each with its own behaviour by transport and question (answers, late, wrong id, cut, garbage, SERVFAIL, silence, refusal, reset, truncation, untrusted certificate). The outcome is decided by a model which walks the name servers (attempts, rotation, transport preference & fallback to tcp, support of multiple questions) and knows nothing of messages. Numeric hosts, ports and families are compared with `socket.getaddrinfo(AI_NUMERICHOST)`. Known finding: search domains are placed before the name; locked by existing tests, so both orders exist in the zones and only the reproduction shows it. Not judged: the local hosts file, AI_ADDRCONFIG / AI_V4MAPPED (refused by design) and names of drop-in configuration files loaded at import.',
'C40': 'Pipes, children and the executor thread are real, only time is virtual: a sub-check blocks until the descriptors of the loop become ready, and lets virtual time advance only when every thread and descendant of the process is seen sleeping with unchanged context switch counts through /proc, so timeouts are deterministic. The child is a small interpreter of a generated script, and a model of the same script tells what it reads, writes and how it ends. Not judged: Windows pipes, and how much output survives a `close()` / `kill()` (a prefix).',
'C41': 'The archive is read by `zipfile` and walked byte by byte from its start (local header, stored data, data descriptor), so both kinds of readers are covered. Archives above 65535 files are part of the quick run. Names are checked for uniqueness, for keeping their directory and for being kept when nothing collides; which index is given to a colliding name is not judged. Files above 4 GiB are not generated (all sizes are written in the zip64 fields always, so the same code runs).',
'C42': 'Files are real (in a scratch folder), executor threads as well. Errors have to be of the same type as those of the plain file. Executors in use are counted after everything settles; descriptors are looked up by number. Dropping a file which is held by the traceback of an earlier error waits for the garbage collector, and is preceded by a flush, since python finalizes the parts of such a cycle in any order.',
'C43': 'Sources of functions and types are generated and executed. The parameters are compared with those `inspect.signature` gives for the underlying function, and the callable is really called with each number of positional parameters. Builtins (which the analyzer refuses with TypeError) and `__new__` written as a generator are not judged.',
'C44': 'Text is built of the characters and words the parser treats specially (quotes, prefixes, braces, console prefixes, line breaks, escapes); tokens and layers are checked against their definition and the searches against linear ones. Code is a soup of python tokens with balanced brackets, comments, continuations and (format) strings, which the `tokenize` module of the running interpreter tokenizes: spans, kinds and matching brackets must agree. That `}}` in the format code of a replacement field is an escaped brace is by design (a unit test pins it), so it is not generated. Formatting is judged by interpreting the output as a terminal (or a browser) would. Details removed again fall back to the parent type.',
'C45': 'Programs are generated whose functions call each other (plain, in loops, over more lines, with strings inside of brackets, recursively, mutually recursively) and raise chains (cause, context, suppressed context, cause groups) of exceptions. The output of `render_exception_into` is parsed (repeated blocks expanded) and compared with what the traceback objects, and the generator that knows the extent of each statement, say; the same with a filter, from 4 threads at once, through `write_exception_sync`, highlighted (the escape codes removed) and through the proxies. `group_frames` is checked alone on sequences of few different frames: expanding gives the sequence, no repeated block is left. Syntax errors come from broken sources (differential to the offsets of the interpreter) and from made ones. Hostile: objects whose `__dir__`, `__getattr__`, `__class__`, `__dict__`, `__repr__`, `__str__`, hash and metaclass raise or lie, as instance, variable, message or argument, names of many words, cyclic causes. Files: histories of writing, removing and rendering. The writer: which exceptions it captures, in threads, tasks and asynchronously.\nA line in the middle of a bracket is shown alone (by design), a source that could not be read is not looked for again till anything holds it (by design of the cache).',
'C46': 'The same program (tasks, each with its own operations, time limits and cancellations; each task acts in its own slots of the time, so what happens in one moment is never ambiguous) runs on the asyncio of the standard library and on `scarletio.ext.asyncio`, both on virtual time; the logs, including the time when each operation ended, have to be equal. What asyncio leaves open, or what the extension does differently on purpose, is not generated: who is first in the same moment, a gather waiting for slow children after its cancellation, a task both timed out and cancelled, a put cancelled in the moment of the get which lets it in, parts refused with NotImplementedError. A wait of a condition interrupted while it re-acquires its lock ends at once in the extension (a unit test pins that), so in that case only the exclusion, the cancellability and that the lock ends up free are decided. Found and fixed: create_task took its loop as the coroutine, an expired timeout raised CancelledError, LifoQueue had no put, conditions released the lock of other tasks, semaphores starved who waited already and could not be shown, gather gave its results in random order, as_completed cancelled what it waited for, wait(FIRST_EXCEPTION) returned on the first completion, exception() of cancelled futures returned. moments: bursts of operations in one moment, where only invariants are decided (exclusion, capacity, every item delivered once, nobody left waiting while there is a permit or an item). identity: current_task as a task (attributes, equality, hash) and the eager factories. These found and fixed: setting an existing attribute through the current task failed, eager factories could not create tasks, putting on an over full queue lost the item.',
'C47': "reader: the same history of feeds (data, end, exception) and reads of all kinds on a StreamReader of both implementations, with a transport which records pausing and resuming; logs have to be equal. connections: real tcp / unix connections opened with the extension, conversations of generated messages ended by half closing, closing or aborting; the oracle is the conversation itself. runners: run, Runner, run_until_complete, run_coroutine_threadsafe, to_thread and processes with functions returning, raising and cancelled, differential to asyncio. Found and fixed: the transport extra info was not reachable with asyncio's names and its default was ignored, run and run_until_complete dropped the result, run_coroutine_threadsafe did not return a concurrent.futures.Future, processes had no pid and returncode. writer: tasks write to and drain a StreamWriter which is paused, resumed, closed or loses its connection, same program on both; found and fixed: more than one task draining failed.",
'C48': 'requests: a client does up to 5 requests (in sequence or at once, cancelled at any time) to http and https targets over reference proxies (plain or TLS, so TLS within TLS too) of the simulated network; the proxies record every byte. Oracle: the CONNECT request (authority, exactly the headers and credentials of that proxy, nothing after it until it accepts), the bytes in the tunnel do not show the request if it is https, the target gets the usual request with nothing of the proxy, the way it came is the asked one (by the address of its peer), refusals by certificate, host name or fingerprint of either hop stop it before the target gets it, every failure needs a reason in the plan, refusals carry status, reason and headers, connections are shared only between equal ways, and no connection is left. addresses: a name service whose answers change, fail and are slow, addresses which go down and come back, requests over time; a model of the cache (10 s), the rotation and the fallback tells when a resolve has to happen, which addresses may be tried and which one serves the request. Found and fixed: fingerprints were not checked through proxies, code and message of ProxyError were swapped, the certificate of IPv6 (and internationalized) hosts was refused through proxies, not registered statuses without reason failed.',
'C55': 'The error is raised by real accesses in compiled functions with generated locals and globals, rendered with the public function and read back line by line. How near two names are is only bounded, by an own splitting to words and difflib over every order of the words: at least 0.8 either way has to be suggested, under 0.6 must not be, the exact threshold (which depends on the length) is not pinned; attributes of exactly the same words have to be first. Names are never mangled ones, the groups of suggestions may be cut at 25.',
'C49': 'Four cases: `lists` compares with bisect, with the list actually moved and with multiset differences; `descriptors` builds a class (slotted or not, with a subclass and an unrelated sibling) of up to 5 generated members and runs a history of gets, sets, deletes, hasattrs and failing getters, comparing result and the calls the accessors got with a model; `types` extends a class with `KeepType` (plain, static and class methods, properties, values, nested types, special methods, inherited members) and turns generated classes to modules (also again, with other members); `exports` runs histories of export / include / callbacks / checks over 4 modules. Not decided: `module_property` as `__module__` (type.__module__ never calls it), cached values which are `...`, callbacks which raise.',
'C50': 'The function is generated as source: every kind of parameter, a closure, and a body of suspensions in try / except / finally, loops and `yield from`; each call is made on the plain function (`types.coroutine` of it as the reference of `to_coroutine`) and on its copy, postponed call, proxy, proxy of its proxy, proxy awaited, and proxy set on a class. The object made is driven by the same sends, throws and closes, and outcome and log of the body must be the same. What an already finished coroutine does further is not compared when awaiting.',
'C51': 'The real editor runs on a pty; what it writes goes to an emulator of the terminal with endless rows (wrap pending at the last column, reflow of too long rows when made narrower). A model of the editor (lines, cursor, history, completion, prompts of pastes) gives the expected rows, colors (the plain highlighting of the text) and cursor, compared before each key. Output printed meanwhile can be shown later than printed, but only by whole lines, in order, at least what one read of it allows, and all of it at the end. Resizes whose reflow depends on the kind of the terminal are not made. Narrowing with a line filling 2+ rows wholly is the known finding (pinned by tests). The compiled code is run and compared with the source compiled plainly.',
'C52': 'A scripted editor feeds sources to a real console on a real event loop thread; the reference runs the same sources with a plain driver and helpers which only yield. What each input writes is compared exactly, or up to the traceback, whose last line and line numbers are compared. Interruptions are real SIGINTs sent when the main thread waits.',
'C53': 'Each generated component, body and base (with slots, inherited, dictionary holding, with a meta type, or itself built) defines some of a few names as slot, method or theory with one of eight signatures, constant, NotImplemented, property, class or static method. The model decides per name which definition wins or that the type must be refused; the type is built with up to three orders of the components, and each attribute is used on the type, its instances and a subclass. Not decided: a method against a constant of an other component and a theory in the body over a base (the documentation tells nothing, the first one wins silently).',
'C54': 'Oracle: per failure, whether any of the lookers got to know it while it was reachable. Left open (zero or one report allowed): failures of which the only looker is a cancelled shield, and shields dropped while others look too. Failing while handling a cancellation counts as a failure. `rendered` runs with the real writing on executor threads, all the others replace the writing with a recorder.',
}
