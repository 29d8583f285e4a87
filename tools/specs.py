"""The single source of properties.jsonl and MANIFEST.json (ran by tools/gen.py)."""
SPECS = []


def P(id, title, statement, over, text, why, files, mechanism, observe = (), technique = None, level_note = None):
    SPECS.append(dict(
        id = id, title = title, statement = statement, over = over, text = text, why = why, files = files,
        mechanism = mechanism, observe = list(observe), technique = technique, level_note = level_note,
    ))


P(
    'C01', 'A future settles exactly once and everyone waiting on it learns it exactly once',
    'Once a future was given a result, an exception or was cancelled, its outcome never changes: later setters raise '
    'InvalidStateError, the `_if_pending` ones and the cancellers report 0, and every query (is_done, is_pending, is_cancelled, '
    'get_result, get_exception, get_cancellation_exception) agrees with the first outcome. Each registered and not '
    'removed done-callback is called exactly once, with the future, only after it is done, also when registered later or when '
    'other callbacks raise. Each task awaiting it (await, wait_for_completion, shield, async_wrap) is resumed exactly '
    'once with that outcome, and setting StopIteration is refused with TypeError.',
    ['histories', 'schedules'], 'every sequence of future operations, loop cycles and awaiting tasks',
    'Unit tests call single methods on hand made states; they never interleave setters, cancellation, timeouts, callback removal and awaiting tasks.',
    ['scarletio/core/traps/future.py', 'scarletio/core/traps/future_chaining.py', 'scarletio/core/traps/future_wrapper_async.py', 'scarletio/core/event_loop/event_loop.py'],
    [('state mask checks before each transition', 'Future.set_result / set_exception / cancel / cancel_with'), ('callbacks are popped when scheduled', 'EventThread._schedule_callbacks')],
    technique = 'model-based random operation sequences on virtual time (Hypothesis)',
)
P(
    'C02', 'A task ends with exactly what its coroutine returned or raised',
    'For every program of nested coroutines, child tasks, shields, futures and timers a task runs its coroutine step by step, '
    'passes the outcome of whatever is awaited into it (value returned or exception raised at the await), and finishes with '
    'exactly the value the coroutine returned or the exception it raised. Every task awaiting it gets the same outcome, and '
    'exception handlers and finally blocks run at the same instants and with the same values as the same program does on '
    'the reference implementation (asyncio).',
    ['programs'], 'every program built of nested coroutines, child tasks, shields, joins, futures, sleeps, try/except and finally',
    'Existing tests run one or two hand written coroutines; compositions of waits, shields and cleanups are not covered.',
    ['scarletio/core/traps/task.py', 'scarletio/core/traps/future.py', 'scarletio/core/traps/future_chaining.py', 'scarletio/core/event_loop/event_loop.py'],
    [('coroutine stepping', 'Task._step / Task._wake_up'), ('awaiting', 'Future.__iter__')],
    technique = 'differential testing of generated programs against asyncio, both on virtual time (Hypothesis)',
)
P(
    'C03', 'Cancelling a task interrupts exactly what it waits on, once, and is never lost',
    'Cancelling a not finished task raises CancelledError inside it at the await it is suspended on (or at its next await when it is '
    'running or already scheduled to be resumed), cancels the future or child task it waits for but nothing behind a shield, runs its handlers and '
    'finally blocks, and the task ends cancelled unless it handles the cancellation. The cancel call tells whether the task was still pending, '
    'each cancellation interrupts at most once, and a task cancelled before its first step never starts its body.',
    ['programs', 'schedules'], 'every program of tasks with cancellations at arbitrary instants (also self cancellation, cancellation between wake-up scheduling and resumption)',
    'The outcome depends on the instant of the cancellation relative to the steps of several tasks; tests cover a few fixed instants.',
    ['scarletio/core/traps/task.py', 'scarletio/core/traps/future.py', 'scarletio/core/traps/future_chaining.py', 'scarletio/core/traps/handle_cancellers.py'],
    [('cancelling flag and cancellation of the awaited future', 'Task.cancel / Task._step')],
    technique = 'differential testing of generated programs with injected cancellations against asyncio on virtual time (Hypothesis)',
)
P(
    'C04', 'Timeouts fire at their deadline, only then, and are never lost',
    '`apply_timeout`, `cancel_with`, `repeat_timeout` and the http layer\'s `Timeout` context interrupt the task exactly at the deadline when the guarded '
    'code did not finish by then, surfacing TimeoutError (or the given exception) to whoever waits, and have no effect at all '
    'when it finished before. Contexts nest (only the expired one turns the cancellation into TimeoutError), the repeat timeout restarts '
    'with each iteration, and a task which was reported to be hit ends with that exception even when the future it awaited got done in the same instant.',
    ['programs', 'schedules'], 'every nesting of timeout contexts, sleeps, child tasks and cleanups, every deadline, incl. deadline and completion in the same loop cycle',
    'Deadline versus completion order is a schedule; no test explores it, and there is no test of nested timeouts.',
    ['scarletio/core/traps/future.py', 'scarletio/core/traps/task.py', 'scarletio/core/traps/timeouting.py', 'scarletio/web_common/helpers.py'],
    [('timeout handle cancels the future', 'Future.apply_timeout, _set_timeout_if_pending'), ('context managers', 'repeat_timeout, Timeout')],
    technique = 'generated timeout programs compared with a discrete event simulator, on virtual time (Hypothesis)',
)
P(
    'C05', 'Locks exclude, serve in order and never get stuck, whatever gets cancelled',
    'At any time at most `size` tasks are inside a ScarletLock (one for Lock), requesters are served in arrival order, a free slot is '
    'never left unused while someone waits, and is_locked / get_acquired / get_waiting tell the truth. This holds whatever '
    'waiting or holding tasks are cancelled or timed out at any instant, including the instant the slot is passed to them: nobody else gets '
    'cancelled by it and after everyone left the lock is free and usable. Awaiting the lock itself finishes when it is free.',
    ['schedules', 'fault_sequences'], 'every arrival / hold / cancellation schedule of tasks, every lock size',
    'There are no tests for the locks at all; the failures need a cancellation landing in the same loop cycle as a release.',
    ['scarletio/core/traps/locks.py'],
    [('queue of futures, each acquirer waits for the one `size` ahead', 'Lock.__aenter__ / ScarletLock.__aenter__ / release')],
    technique = 'generated task schedules with injected cancellations on virtual time, invariants monitored at every instant (Hypothesis)',
)
P(
    'C06', 'Async queues deliver every element once, in order, whatever gets cancelled',
    'Each element put into an AsyncQueue (FIFO) or AsyncLifoQueue is returned by exactly one get (await, async iteration, result_no_wait or get_result), '
    'in queue order, and is never lost or duplicated by cancelled getters or putters or by wait-and-cancel races in the same loop cycle. A queue with '
    'max_length never holds more than that, blocked putters proceed in order as soon as there is space, and waiters are served in arrival order. '
    'After set_exception the remaining elements are still delivered, then every present and future getter gets the exception (async iteration ends on CancelledError).',
    ['histories', 'schedules'], 'every sequence of puts, gets, cancellations and closures over any queue size, with any number of waiting tasks',
    'Tests put and get a handful of elements from one task; losses need a cancellation between hand-over and resumption.',
    ['scarletio/core/traps/queues.py'],
    [('deque of elements and of waiters', 'AsyncQueue.set_result / result / cancel')],
    technique = 'model-based random operation sequences and generated producer/consumer schedules with cancellations on virtual time (Hypothesis)',
)
P(
    'C07', 'An Event releases exactly the tasks which wait on it',
    'Waiting a set Event passes at once, waiting an unset one blocks until the next set() (or the waiter is cancelled), and set() releases every task waiting at that time '
    'even when it is directly followed by clear(). Cancelling one waiter influences no other waiter nor the state of the event, and `wait()` and `await event` mean the same.',
    ['histories', 'schedules'], 'every sequence of set, clear, wait and cancel operations with any spacing of loop cycles',
    'Tests use one waiter; set directly followed by clear or by the cancellation of a waiter is never run.',
    ['scarletio/core/traps/event.py'], [('one shared waiter future', 'Event.set / Event.wait')],
    technique = 'model-based random operation sequences on virtual time (Hypothesis)',
)
P(
    'C08', 'Task groups account every future once and resolve each waiter correctly',
    'Every future added to a TaskGroup is at all times in exactly one of done / pending and moves to done when it finishes; each of the wait_* methods resolves exactly '
    'when its condition (next, first, first n, exception, exception or cancellation, all) is first met, with a future meeting it, the `_and_pop` ones removing it. '
    'Cancelled waiters never swallow a future. `exhaust()` gives each future once, and a failing `cancel_on_exception()` context cancels everything pending.',
    ['histories', 'schedules'], 'every set of futures with their outcomes, completion and joining instants, every set of waiters and their cancellations',
    'Tests have a single waiter and one or two futures; the interplay of several waiters, late joiners and cancellations is not covered.',
    ['scarletio/core/traps/task_group.py'], [('waiters are informed of each completed future', 'TaskGroup callbacks and TaskGroupWait* futures')],
    technique = 'generated schedules compared with a sequential model on virtual time (Hypothesis)',
)
P(
    'C09', 'ScarletExecutor bounds concurrency and never loses a failure or a task',
    'After each `add()` fewer than `limit` of the added tasks are running, leaving the block normally waits for all of them, and when one of them raises (at any time, also while the '
    'body does something else) the others are cancelled and that first exception is raised from the block. However the block is left (end, exception, cancellation) '
    'none of the added tasks is left running.',
    ['schedules', 'fault_sequences'], 'every limit, every sequence of added coroutines / tasks / futures with their durations and outcomes, every cancellation instant',
    'There are no tests for it; which instant a failure lands at relative to the body decides the outcome.',
    ['scarletio/core/traps/async_executing.py'], [('done callback wakes the waiter and stores the first exception', 'ScarletExecutor.add / __aexit__, _scarlet_executor_callback')],
    technique = 'generated schedules with failures and cancellations on virtual time, invariants over the history (Hypothesis)',
)
P(
    'C10', 'Scheduled callbacks run exactly once, on time, in order, unless cancelled',
    '`call_soon` callbacks run once each, in the order they were scheduled; `call_after` / `call_at` ones run once, at their instant (at once when that is in the past) and never '
    'before, earlier ones first. A handle cancelled before its turn (even in the same instant) never runs, a weakly scheduled one runs only if its target is still alive, and an exception of a callback affects no other.',
    ['histories', 'schedules'], 'every tree of callbacks scheduling, cancelling, dropping each other or raising',
    'Existing tests schedule single callbacks; cancelling a handle which is already in the ready queue, weak handles and raising callbacks are not run.',
    ['scarletio/core/event_loop/event_loop.py', 'scarletio/core/event_loop/handles.py', 'scarletio/utils/weak_core.py'],
    [('heap of timers moved to the ready queue', 'EventThread.runner'), ('cancelled flag', 'Handle.cancel')],
    technique = 'random callback trees on virtual time with trace oracle (Hypothesis)',
)
P(
    'C11', 'A Cycler calls its functions every cycle, in priority order, until cancelled',
    'Each function of a Cycler is called once per cycle in ascending priority order (equal ones in order of addition), cycles follow each other by exactly the cycle time, and an '
    'exception of one function affects neither the others nor the following cycles. cancel, reschedule, call_now, set_cycle_time, append and remove take effect from anywhere, '
    'including from inside of a called function, and a cancelled cycler calls nothing.',
    ['histories'], 'every set of functions with priorities and every sequence of operations from inside and outside of the calls',
    'There are no tests for it; operations done by the called functions during a cycle are the normal use and are not run.',
    ['scarletio/core/event_loop/cycler.py'], [('timer rescheduled with each cycle', 'Cycler._run / _cancel / _reschedule / _call_now')],
    technique = 'model-based random operation sequences on virtual time (Hypothesis)',
)
P(
    'C12', 'Work can be handed to an event loop from any thread, with its outcome back',
    'From any number of threads at once (the very first use, which starts the loop, included) `loop.run`, `call_soon_thread_safe`, `create_task_thread_safe`, `sync_wrap` and `async_wrap` run the given work exactly once in '
    'the thread of the loop and give its exact result, exception or cancellation back, with no wake-up lost, and a future is completed by exactly one of the threads trying to; a timed out `run` cancels its task. While `with loop.enter()` is held the loop executes nothing. A stopped loop ends its thread and refuses new work.',
    ['schedules', 'histories'], 'every interleaving of threads (sampled with a rapid switch interval, and single preemptions enumerated), outcomes and instants of completion relative to the registration of waiters',
    'Existing tests run single operations from one thread; lost wake-ups and double starts need two threads in the same few instructions.',
    ['scarletio/core/event_loop/event_loop.py', 'scarletio/core/traps/future_wrapper_sync.py', 'scarletio/core/traps/future_wrapper_async.py', 'scarletio/core/event_loop/event_thread_suspender.py'],
    [('self pipe wakes the selector', 'EventThread.wake_up'), ('callbacks set a threading event / a waiter of the other loop', 'FutureWrapperSync.wait, FutureWrapperAsync.wait'), ('lazy start', 'EventThread._do_start, EventThreadRunDescriptor')],
    technique = 'randomized multi-threaded programs on real threads, plus thread switches injected at chosen points of the core (Hypothesis)',
)
P(
    'C13', 'Executors run each function once off the loop and give its outcome back',
    '`run_in_executor`, claimed executors and `enter_executor` blocks run each given function exactly once, outside of the thread of the loop, and give back its exact result or exception, while the loop keeps running; '
    'cancelling the awaiting task never affects other work, a claimed executor runs its functions one after the other in order, and a released executor is not reused while it still executes. SyncQueue behaves as a FIFO queue whose elements go to the waiting getters in order.',
    ['schedules', 'histories', 'fault_sequences'], 'every mix of parallel executor uses, outcomes and cancellation instants; every sequence of queue operations',
    'Existing tests do single sequential calls without cancellation.',
    ['scarletio/core/event_loop/executor.py', 'scarletio/core/traps/task_thread_switcher.py'],
    [('executor threads taking work from a queue', 'ExecutorThread.run, SyncQueue'), ('task stepped from an executor thread', 'enter_executor._executor_task')],
    technique = 'model-based random operation sequences with real threads, plus thread switches injected at chosen points (Hypothesis)',
)
P(
    'C14', 'Asynchronous generators left suspended are always finalized, once, by their loop',
    'An asynchronous generator iterated in an event loop and left suspended has its cleanup code (with its awaits) run to the end exactly once: after its last reference is dropped (garbage cycles included), or at `shutdown_async_generators()`, '
    'which returns only after that. Generators which are in use or were never started are not touched, and a failing cleanup does not affect the others.',
    ['histories'], 'every set of generators (length, cleanup duration and failure) and every sequence of advancing, closing, dropping and shutting down',
    'There are no tests for it.',
    ['scarletio/core/event_loop/event_loop_functionality_helpers.py', 'scarletio/core/event_loop/event_loop.py'],
    [('asyncgen hooks of the thread', '_async_generator_first_iteration_hook / _async_generator_finalizer_hook'), ('closing', 'EventThread.shutdown_async_generators')],
    technique = 'model-based random operation sequences on virtual time (Hypothesis)',
)
P(
    'C15', 'Percent-encoding and decoding follow RFC 3986 and are inverse of each other',
    '`quote` leaves exactly the allowed characters as they are and turns everything else to upper-case percent-encoded UTF-8 (spaces to + in a query string), so any standard decoder gives the original text back. '
    '`unquote` decodes each valid percentage, keeps invalid, truncated or undecodable ones literally, never raises, and never lets an unsafe character (or a query separator) through unquoted.',
    ['inputs'], 'every string, safe / unsafe set and mode', 'Tests sample 6 strings; most digits, reserved and broken sequences are not covered.',
    ['scarletio/web_common/quoting.py'], [('character classes', 'quote, unquote')],
    technique = 'generated strings, differential against an independent reference and the standard library, round-trip (Hypothesis)',
)
P(
    'C16', 'URL components survive parsing, serialization and replacing',
    'A url built from any components is parsed to exactly those components (host kind, port, user information, path, query, fragment), its encoded form is a valid ASCII url that parses back to an equal url with equal hash, '
    'and `with_*`, `origin` and `relative` give a url where exactly the named components changed, leaving the original untouched.',
    ['inputs'], 'every combination of components, with reserved and non-ASCII characters, host names, IPv4 and IPv6 addresses', 'Tests cover fixed urls of mostly plain characters.',
    ['scarletio/web_common/url/url.py', 'scarletio/web_common/url/url_host_info.py', 'scarletio/web_common/url/constants.py', 'scarletio/web_common/url/url_part_base.py'],
    [('one regex splits the url', 'URL_RP, URL._create_from_string'), ('lazy encoded / decoded pair', 'URLPartBase.encoded / decoded'), ('building', 'URL._build_value')],
    technique = 'generated components, round-trip and metamorphic replacement, standard library quoting as reference (Hypothesis)',
)
P(
    'C17', 'Query strings and url paths keep their meaning through every operation',
    'Query strings parse to, and serialize from, exactly the key-value pairs any standard form parser sees, for every value type accepted by `with_query` / `extend_query`, which never alter the url they are called on. Paths are normalized as a stack of segments '
    '(dot segments never climb above the root) by parsing, `/`, `join`, `parent`, `name` and `with_name`.',
    ['inputs', 'histories'], 'every query string / item list and every list of path segments with an operation', 'Tests cover a handful of plain items.',
    ['scarletio/web_common/url/url_query.py', 'scarletio/web_common/url/url_path.py', 'scarletio/web_common/url/url.py'],
    [('query splitting', 'parse_query'), ('type conversion', 'normalize_query'), ('dot segments', 'normalize_path_parts')],
    technique = 'differential against urllib.parse and a stack model (Hypothesis)',
)
P(
    'C18', 'Weak and hybrid containers are plain containers of their live members',
    'At every point `WeakKeyDictionary`, `WeakValueDictionary`, `WeakItemDictionary`, `HybridValueDictionary`, `WeakSet` and `WeakMap` (and their copies and views) behave like the plain container holding exactly the members whose referred objects are alive: '
    'lookups, length, iteration, equality, set algebra, pops. Members may die at any time, also while the container is iterated, copied or represented, without losing live members, raising, or yielding dead ones; and the containers never keep a referred object alive.',
    ['histories'], 'every sequence of operations, open iterators and object deaths', 'Tests do not cover deaths between operations, while iterating, or reassigned entries.',
    ['scarletio/utils/weak_core.py', 'scarletio/utils/weak_key_dictionary.py', 'scarletio/utils/weak_value_dictionary.py', 'scarletio/utils/weak_item_dictionary.py', 'scarletio/utils/hybrid_value_dictionary.py', 'scarletio/utils/weak_set.py', 'scarletio/utils/weak_map.py'],
    [('removal is delayed while iterating', 'add_to_pending_removals, _commit_removals'), ('weak reference callbacks', '_Weak*Callback.__call__')],
    technique = 'model-based random operation sequences with injected deaths (Hypothesis)',
)
P(
    'C19', 'Multi value dictionaries keep every distinct value of each key, in order',
    'A `MultiValueDictionary` behaves as an ordered mapping from each key to its ordered distinct values, for every way of building it and every sequence of operations, copies and pickles; copies are independent. '
    '`IgnoreCaseMultiValueDictionary` and `IgnoreCaseString` do the same with keys compared by their case fold, keeping their first casing, consistently in every operator, lookup, view and hash.',
    ['inputs', 'histories'], 'every sequence of operations over keys with different casings', 'Tests cover each method with a single fixed instance.',
    ['scarletio/utils/multi_value_dictionary.py', 'scarletio/utils/ignore_case_multi_value_dictionary.py', 'scarletio/utils/ignore_case_string.py'],
    [('values are lists stored in a dict', 'MultiValueDictionary'), ('keys are case folded', 'IgnoreCaseString._case_fold')],
    technique = 'model-based random operation sequences (Hypothesis)',
)
P(
    'C20', 'A sorted list is always sorted in its direction',
    'After any sequence of operations a `SortedList` holds exactly the expected members in its current direction; binary searches (`in`, `index`, `relative_index`, `get`, `pop`) agree with a linear search, adding an equal value overwrites the existing one, '
    'operations which would break the order do not exist, and copies and pickles keep members and direction.',
    ['histories'], 'every sequence of operations with equal, non-identical values in both directions', 'There are no tests for it.',
    ['scarletio/utils/sorted_list.py'], [('bisection', 'SortedList.relative_index, extend')],
    technique = 'model-based random operation sequences (Hypothesis)',
)
P(
    'C21', 'Reads give exactly the received bytes, however those were chunked',
    'For every split of the incoming bytes into chunks and every interleaving of arrival and reading, `read_exactly`, `read`, `read_until`, `read_once` and iterating a payload stream give the same consecutive bytes of the stream as slicing '
    'one byte string would: nothing lost, repeated or reordered, also after a boundary straddled chunks or an earlier read got cancelled. A read ends as soon as what it needs has arrived and not before, '
    'ends with the rest or with ConnectionError at end of file, raises the exception of a lost connection, and `get_size` / `is_at_eof` agree with what is left.',
    ['inputs', 'schedules', 'histories'], 'every byte stream, chunking, sequence of reads, cancellation and end of connection',
    'Tests use a few fixed chunks; boundaries that overlap themselves or straddle several chunks, and reads following a cancelled one, are not covered.',
    ['scarletio/core/protocols_and_transports/protocol.py', 'scarletio/core/protocols_and_transports/payload_stream.py'],
    [('held back partial boundaries', 'ReadProtocolBase._read_until_by_chunk'), ('offset in the first chunk', 'ReadProtocolBase._read_exactly_by_chunk'), ('delivery', 'PayloadStream.add_received_chunk')],
    technique = 'model-based random operation sequences over generated chunkings (Hypothesis)',
)
P(
    'C22', 'Flow control neither stalls a stream, nor buffers unbounded, nor loses a drain',
    'Reading gets paused once more than the limit is buffered and is running whenever a reader waits for data; pausing writing makes every `drain` wait until writing is resumed or the connection is lost, '
    'and then every one of them is woken, whichever others were cancelled. Pausing reading and pausing writing do not influence each other, and after the connection is lost nothing waits.',
    ['histories', 'schedules'], 'every sequence of arrivals, reads, pause / resume calls, drains, cancellations and connection loss',
    'Tests never pause both directions, nor wait for draining from more than one task.',
    ['scarletio/core/protocols_and_transports/protocol.py', 'scarletio/core/protocols_and_transports/payload_stream.py'],
    [('size check after each chunk', 'ReadProtocolBase._pause_reading / _resume_reading'), ('drain waiters', 'ReadWriteProtocolBase.pause_writing / resume_writing / _drain_helper / connection_lost')],
    technique = 'random operation sequences against flow control invariants (Hypothesis)',
)
P(
    'C23', 'Http heads survive the wire, and a malformed one is refused',
    'Whatever method, path, status, reason and headers are written, reading them back gives the same ones however the bytes are chunked, with the connection related headers (chunked, encoding, keep alive, upgrade) meaning what http defines. '
    'A head containing line breaks in any of its parts is refused with ValueError before a byte is written, and any received head is either parsed to a usable message or refused with PayloadError.',
    ['inputs'], 'every head, chunking and damaged head', 'Tests parse a few fixed heads; none tests header injection, option lists or mutated heads.',
    ['scarletio/web_common/http_protocol.py', 'scarletio/web_common/helpers.py', 'scarletio/web_common/http_message.py', 'scarletio/web_common/keep_alive_info.py'],
    [('parsing', 'parse_http_request / parse_http_response / parse_http_headers'), ('writing', 'HttpReadWriteProtocol.write_http_request / write_http_response'), ('meaning', 'RawMessage.chunked / upgraded / keep_alive / encoding')],
    technique = 'round trip, mutation and injection over generated heads (Hypothesis)',
)
P(
    'C24', 'An http body is read exactly, and a damaged or cut one raises',
    'For every framing (content length, chunked with extensions and trailers, until end of file, none), content encoding and chunking, reading a message\'s body gives exactly the original bytes and leaves what follows on the connection for the next read. '
    'When the connection ends within the body, or its chunked framing is malformed, reading raises PayloadError or ConnectionError instead of giving a wrong or shortened body as complete, and what was given before is a prefix of the body.',
    ['inputs', 'fault_sequences'], 'every body, framing, encoding, chunking, way of reading, cut and damaged chunk framing', 'Tests call the helper methods with ready chunks; encodings, trailers, cuts and malformed chunk sizes are not covered.',
    ['scarletio/web_common/http_protocol.py', 'scarletio/web_common/compressors.py', 'scarletio/core/protocols_and_transports/payload_stream.py'],
    [('choosing the reader', 'HttpReadProtocol.get_payload_reader_task'), ('chunked framing', 'HttpReadProtocol._read_chunked_by_chunk'), ('decompression', 'HttpReadProtocol._read_exactly_encoded / _read_chunked_encoded')],
    technique = 'generated messages and injected faults against a reference encoder (Hypothesis)',
)
P(
    'C25', 'Http header values survive building and parsing, garbage is refused',
    'Lists of extensions, connection options, sub-protocols and upgrades, basic authorization and content types are parsed back to exactly what they were built of, whatever white space, quoting, empty elements or casing is around. '
    'Every content disposition parameter is read back unchanged by a parser of the RFC, nothing but tokens are written unquoted, and no value can break out of its header. '
    'Parsing anything received either gives a value or raises ValueError.',
    ['inputs'], 'every header value and rendering of it, and arbitrary received text', 'Tests have a few fixed values each.',
    ['scarletio/web_common/header_building_and_parsing.py', 'scarletio/web_common/basic_authorization.py', 'scarletio/web_common/content_type.py'],
    [('list parsing', 'parse_extensions / parse_connections / parse_upgrades'), ('escaping', 'build_content_disposition_header'), ('authorization', 'BasicAuthorization.from_header / to_header'), ('content types', 'parse_content_type')],
    technique = 'round trips against reference parsers and garbage over generated values (Hypothesis)',
)
P(
    'C26', 'Forms and multipart bodies carry exactly what was put into them',
    'For every combination of fields or parts (bytes-likes, text, text and binary files at any position, async iterables, json, nested), names, content types, transfer and content encodings and boundaries, the written body parsed by the RFC '
    'gives back the same parts, names and contents, each header once, and reading it back with `read_multipart` however chunked gives the same. '
    'When a payload tells its size then exactly that many bytes are written, and line breaks within part headers are refused.',
    ['inputs', 'configurations'], 'every form and multipart body', 'The tests of writing payloads are skipped ("Payload writes must become testable first").',
    ['scarletio/web_common/multipart.py', 'scarletio/web_common/form_data.py', 'scarletio/web_common/http_protocol.py'],
    [('sizes and content types', 'PayloadBase and its sub-types'), ('part encoding', 'MultipartPayloadWriter'), ('reading', 'HttpReadProtocol.read_multipart'), ('forms', 'FormData.add_field / generate_form')],
    technique = 'round trip through reference parsers over generated forms and parts (Hypothesis)',
)
P(
    'C27', 'Transports deliver the byte stream in order, exactly once, and end once',
    'Whatever is written to a socket or pipe transport, in whatever pieces (also mutable ones, changed afterwards), with short sends, partial reads and pauses, arrives at the other end unchanged and in order; closing flushes what was written before, aborting and resets do not hang. '
    '`connection_made` is called once before anything else, `connection_lost` once after everything else, `eof_received` at most once between them, nothing is delivered while reading is paused and nothing after closing. '
    'Writing is paused and resumed exactly when the buffer crosses the limits, and at the end no descriptor stays open or registered.',
    ['histories', 'schedules', 'fault_sequences'], 'every sequence of writes, eof, pauses, closes, aborts and resets on both ends, every latency, chunking and socket buffer size',
    'No test has two transports talking to each other; short sends, resets and closes within callbacks are not covered.',
    ['scarletio/core/protocols_and_transports/transport_layer.py', 'scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py', 'scarletio/core/event_loop/event_loop.py'],
    [('sending and the rest buffer', 'SocketTransportLayer.write / _write_ready'), ('reading', 'SocketTransportLayer._read_ready'), ('ending', 'close / abort / _fatal_error / _call_connection_lost'), ('limits', '_set_write_buffer_limits / _maybe_pause_protocol'), ('pipes', 'UnixReadPipeTransportLayer / UnixWritePipeTransportLayer')],
    technique = 'random histories over a simulated network with virtual time against a byte stream model (Hypothesis)',
)
P(
    'C28', 'Ssl transports keep order, secrecy and endings of the plain ones',
    'Over tls, whatever is written at whatever time (also before the handshake ends) arrives unchanged and in order at the other side, close sends what was written before it, and abort or a reset never hang. '
    'No byte of what was written appears on the wire unencrypted, nothing reaches the protocol before the handshake, or when it or the certificate check failed, in which case connecting raises. '
    '`connection_made` and `connection_lost` are called as on plain transports, and at the end no descriptor stays open or registered.',
    ['histories', 'schedules', 'fault_sequences', 'configurations'], 'every sequence of writes, pauses, closes, aborts, resets and cancellations on both ends, certificate and version combination, latency and fragmentation of records',
    'Tests of the ssl transport use no ssl connection; closing during a handshake, fragmented records and failing certificates are not covered.',
    ['scarletio/core/protocols_and_transports/ssl_transport_layer.py', 'scarletio/core/protocols_and_transports/ssl_pipe.py', 'scarletio/core/event_loop/event_loop.py'],
    [('state machine of tls', 'SSLPipe.feed_ssl_data / feed_application_data / do_handshake / shutdown'), ('backlog', 'SSLTransportLayer._process_write_backlog'), ('handshake', 'SSLTransportLayer._on_handshake_complete'), ('ending', 'SSLTransportLayer._start_shutdown / _finalize / _fatal_error')],
    technique = 'random histories over a simulated network with real tls engines and wire recording (Hypothesis)',
)
P(
    'C29', 'Connecting uses the first working address and servers close cleanly',
    'Connecting to a host name gives a connection to the first address, in the order of resolving, which accepts; it raises OSError only if none does, and a failed or cancelled attempt leaves no socket behind. '
    'A server accepts every connection made until it is closed and none after, exactly one protocol per connection; closing wakes every `wait_closed`, whichever others were cancelled, and leaves no listening socket.',
    ['inputs', 'schedules', 'histories'], 'every list of addresses, cancellation instant, set of clients and `wait_closed` waiters and closing instant',
    'Tests of connecting mock the socket; failing addresses, cancellations and waiters of closing are not covered.',
    ['scarletio/core/event_loop/event_loop.py', 'scarletio/core/event_loop/server.py'],
    [('trying addresses', 'EventThread.create_connection_to'), ('connecting', 'EventThread.socket_connect / _create_connection_transport'), ('accepting', 'EventThread._accept_connection'), ('closing', 'Server.close / _wake_up_close_waiters')],
    technique = 'generated network configurations and schedules over a simulated network (Hypothesis)',
)
P(
    'C30', 'Web socket messages arrive whole, in order, or end with the right code',
    'Every message a conforming peer sends, however it is fragmented, interleaved with control frames or cut into pieces by the network, is received once, whole, in order and with its type, and every frame sent by the web socket is well formed for a reference decoder (masked by clients, minimal length, no reserved bits) and carries exactly what was sent. '
    'Pings are answered with their own payload and a pong resolves the pings up to the one it answers. '
    'A frame violating RFC 6455 or a limit delivers nothing of itself, ends the connection with a close frame carrying the code of that violation, and afterwards sending, receiving and pinging raise instead of hanging.',
    ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every sequence of frames from the peer (valid and invalid), fragmentation, cut of bytes, sends, pings, cancellations and endings',
    'Tests of web sockets construct frames and check attributes; no test ever exchanges a frame with a peer.',
    ['scarletio/web_common/web_socket_frame.py', 'scarletio/web_common/http_protocol.py', 'scarletio/web_socket/web_socket_common_protocol.py'],
    [('frames', 'WebSocketFrame.check / apply_web_socket_mask'), ('reading', 'HttpReadProtocol.read_web_socket_frame'), ('writing', 'HttpReadWriteProtocol.write_web_socket_frame'), ('messages', 'WebSocketCommonProtocol.read_message / read_data_frame / send / ping'), ('endings', 'WebSocketCommonProtocol.fail_connection / transfer_data')],
    technique = 'generated frame sequences from a reference RFC 6455 peer over a simulated network with virtual time (Hypothesis)',
)
P(
    'C31', 'Closing web sockets terminates on both ends and loses no sent message',
    'Between a WebSocketServer and its clients, when one side closes, both sides end up closed within the close timeout, seeing the code and reason sent, whatever else is in progress, and immediately if nobody is cancelled, reset or silent. '
    'A message sent before its sender closes is received, unless the receiver stopped or the connection was reset; a handler which returns or raises closes its connection with 1000 or 1011. '
    'Closing the server closes every connection and wakes every waiter; no task, timer or socket stays behind.',
    ['histories', 'schedules', 'fault_sequences'], 'every program of sends, receives, sleeps, closes, cancellations and resets on both ends of several connections, with any network latency',
    'The closing handshake needs both ends; no test runs a server with clients.',
    ['scarletio/web_socket/web_socket_common_protocol.py', 'scarletio/web_socket/web_socket_server.py', 'scarletio/web_socket/web_socket_server_protocol.py', 'scarletio/web_socket/web_socket_client.py'],
    [('closing handshake', 'WebSocketCommonProtocol.close / write_close_frame / close_connection'), ('lifetime of a handler', 'WebSocketServerProtocol.lifetime_handler'), ('server', 'WebSocketServer._close / close'), ('client', 'WebSocketClient._connect / close')],
    technique = 'random programs of both ends over a simulated network with virtual time and faults (Hypothesis)',
)
P(
    'C32', 'Web socket handshakes are accepted exactly when both ends agreed',
    'A server opens a web socket exactly for the requests which are valid by RFC 6455 and pass its origin and request processor; every other request gets a complete http error response, never reaches the handler and is closed, an extension it does not know is just declined. '
    'A client sends a correct request for every url and returns a web socket exactly if the response proves acceptance with what it offered, otherwise it raises a documented exception and leaves no socket open. '
    'Both ends see the same subprotocol and extensions, and what is sent together with the handshake is not lost.',
    ['inputs', 'configurations'], 'every request, response, url and configuration of the two ends, cut anywhere and in any pieces',
    'The handshake code has no tests at all.',
    ['scarletio/web_socket/web_socket_server_protocol.py', 'scarletio/web_socket/web_socket_client.py', 'scarletio/web_common/header_building_and_parsing.py'],
    [('server', 'WebSocketServerProtocol.handshake'), ('client', 'WebSocketClient.__new__'), ('headers', 'parse_extensions / parse_connections / parse_upgrades / build_extension_values')],
    technique = 'generated valid and mutated handshakes against a reference verdict, over a simulated network (Hypothesis)',
)
P(
    'C33', 'HTTP client exchanges are framed right and never mixed up on connections',
    'Every request of `HTTPClient` reaches the server once, well formed, with its whole body decodable to what was given, or as an unfinished one the server can tell apart; what the client returns is the answer of that very request, with exactly its body, or raises if it was cut. '
    'Responses which are cut, cancelled, released early, answered early, interim, unsolicited or ended while idle never leak into another request, and connections which can be reused are. '
    'Idle connections get closed after their keep alive time, and closing the client leaves no socket or descriptor behind.',
    ['histories', 'schedules', 'fault_sequences', 'inputs'], 'every sequence of requests with any body, response framing, compression, keep alive policy, cut, reset, cancellation, way of consuming and latency',
    'Tests of the http client use no server; reuse of connections after cut, cancelled or early answered requests is not covered.',
    ['scarletio/http_client/http_client.py', 'scarletio/http_client/client_request.py', 'scarletio/http_client/client_response.py', 'scarletio/http_client/connection.py', 'scarletio/http_client/connector_base.py', 'scarletio/http_client/protocol_basket.py', 'scarletio/web_common/http_stream_writer.py', 'scarletio/core/protocols_and_transports/protocol.py'],
    [('request bodies', 'ClientRequest.write_body / HTTPStreamWriter'), ('responses', 'ClientResponse.start_processing / _response_eof / release / close'), ('reuse', 'Connection.release / ProtocolBasket.pop_available_protocol / clean_up_expired_protocols'), ('reading in pieces', 'ReadProtocolBase.data_received')],
    technique = 'random exchanges with a reference HTTP/1.1 server over a simulated network with virtual time and faults (Hypothesis)',
)
P(
    'C34', 'Redirects, credentials, cookies and timeouts follow the rules of the web',
    'A request of `HTTPClient` performs exactly the requests a reference user agent performs for the same redirects: targets (whatever form a location has), methods, bodies, host headers and cookies, ending with the response, too many redirects, an invalid location or a timeout, at the time given. '
    'Credentials and cookies are only sent to the origin they were given for, or to the one which set them. '
    'Headers given by the user are not modified and nothing stays open afterwards.',
    ['inputs', 'histories', 'configurations'], 'every graph of redirects between origins with any status, location, cookie, delay, credentials, body, limit and timeout',
    'Tests use no server; following a redirect is not covered at all.',
    ['scarletio/http_client/http_client.py', 'scarletio/http_client/client_request.py', 'scarletio/http_client/client_response.py', 'scarletio/http_client/connector_tcp.py', 'scarletio/web_common/url/url_path.py'],
    [('redirects', 'HTTPClient._request / _request2 / _resolve_redirect_url'), ('credentials', 'ClientRequest / _has_same_origin'), ('connecting', 'ConnectorTCP.create_direct_connection / resolve_host'), ('cookies', 'ClientResponse.start_processing')],
    technique = 'random redirect graphs against a reference user agent over a simulated network with virtual time (Hypothesis)',
)
P(
    'C35', 'The cookie jar stores, expires and sends cookies as RFC 6265 says',
    'After any history of responses, time passing, pickling and clearing, the jar holds exactly the cookies RFC 6265 would, and a request gets exactly those whose host, path, secure and address rules match, with the value which was set last. '
    'A cookie is never accepted for a foreign domain nor sent after it expired, and the cookies given to the jar are not modified.',
    ['histories', 'inputs'], 'every history of cookies with any attributes from any host, requests of any url, and any time between them',
    'Tests store and filter a few fixed cookies; expiration, pickling and host case are not covered.',
    ['scarletio/web_common/cookiejar.py'],
    [('storing', 'CookieJar.update_cookies'), ('sending', 'CookieJar.filter_cookies'), ('expiring', 'CookieJar._do_expiration / parse_cookie_date'), ('pickling', '__getstate__ / __setstate__')],
    technique = 'random histories against a reference RFC 6265 model in virtual time (Hypothesis)',
)
P(
    'C36', 'DNS messages are parsed and built as RFC 1035 defines',
    'A valid dns response, with names compressed in any way, is parsed to the very questions and records it contains; a query built is one which any resolver decodes to what was asked. '
    'A message which is cut, damaged or hostile ends with ResponseParsingError (or with what it says, if it is still valid), in time bounded by its length: never with an other exception, a loop, or data which was not in it.',
    ['inputs'], 'every message of questions and records with any labels, types, compression, cut and damage, and every byte string',
    'Tests parse and build a few fixed messages without compression; loops and damaged pointers are not covered.',
    ['scarletio/dns_query/building_and_parsing.py', 'scarletio/dns_query/helpers.py'],
    [('parsing', 'parse_result_data / parse_labels'), ('record data', 'parse_domain_name_pointer_data / parse_ip_v4_data / parse_ip_v6_data'), ('building', 'build_query_data')],
    technique = 'generated, mutated and random messages against a reference encoder / decoder (Hypothesis)',
)
P(
    'C37', 'Names, addresses and resolve configuration mean what they mean elsewhere',
    'Ip addresses are recognised exactly when they are valid text forms, with the value every other tool gives them, and printing them and their reverse names round trip; names split into labels and built back are the same, and invalid names are refused with ValueError. '
    'Addresses are ordered by the first sort list element matching them, otherwise keeping their order. '
    'Any content of a resolve configuration file is accepted, giving the values `resolv.conf(5)` defines for each directive.',
    ['inputs'], 'every address, name, sort list and configuration file content',
    'Tests use a few fixed addresses and single directives; mixed notation, escapes and malformed lines are not covered.',
    ['scarletio/dns_query/helpers.py', 'scarletio/dns_query/resolve_configuration.py'],
    [('addresses', 'parse_ip_string / produce_ip_string / parse_reversed_labels_from_address'), ('names', 'parse_labels_from_name / build_name_from_labels'), ('ordering', 'iter_intermediate_intermediate_addresses_ordered'), ('configuration', 'update_resolve_configuration_from_file_content')],
    technique = 'generated texts against `ipaddress` and reference parsers, and round trips (Hypothesis)',
)
P(
    'C38', 'Datagram endpoints keep datagrams whole, addressed, ordered and bounded',
    'Every datagram sent on an open endpoint is given to the system once, unchanged, to the right address and in order, even when the system is busy or an earlier one failed (which is reported to the protocol and nothing else); every datagram arriving is delivered once with the address of its sender, while the endpoint is open. '
    'Protocols are told to pause and resume writing at the water marks, closing sends what was buffered and aborting drops it, `connection_made` and `connection_lost` are called once and sockets are closed, also when creating fails or is cancelled. '
    'Protocols reading datagrams give each sender its own stream (or one merged), and everyone waiting for a sender wakes when its datagram arrives, at the timeout, or when the connection ends.',
    ['histories', 'schedules', 'fault_sequences'], 'every sequence of operations on several endpoints, also from inside of callbacks, loss, repetition, delay and busy systems',
    'No test sends a datagram.',
    ['scarletio/core/protocols_and_transports/transport_layer.py', 'scarletio/core/protocols_and_transports/protocol.py', 'scarletio/core/event_loop/event_loop.py'],
    [('transport', 'DatagramSocketTransportLayer'), ('protocols', 'DatagramAddressedReadProtocol / DatagramMergerReadProtocol'), ('creating', 'EventThread.create_datagram_connection_to / create_datagram_connection_with')],
    technique = 'random programs over a simulated datagram network with loss, repetition and virtual time (Hypothesis)',
)
P(
    'C39', 'Resolving asks the name servers in order and ends with their answer or an error',
    'Resolving a name gives exactly the addresses (or the name) told by the first name server able to answer, in the order and for the socket types asked; a name server which is unreachable, silent, failing, damaged, or answers an other query is passed over, up to the configured attempts, and truncated datagrams are asked again over tcp. '
    'If nobody answers it fails with GetAddressInfoError within the configured time, and every connection made to a name server is closed at the end, also when it is cancelled. '
    'Numeric addresses are never asked for and give what the system gives, keeping their scope when connecting.',
    ['fault_sequences', 'inputs', 'schedules', 'configurations'], 'every zone, every behaviour of up to 3 name servers over udp, tcp and tls, every configuration, and concurrent or cancelled queries',
    'Tests feed fixed messages through a patched event loop; no test has a failing, late, foreign or truncated response on a transport.',
    ['scarletio/dns_query/requests.py', 'scarletio/core/event_loop/event_loop.py'],
    [('resolving', 'get_address_info_async / get_name_info_async'), ('querying', 'async_iter_execute_query_async / _execute_query_udp / _execute_query_tcp / _execute_query_tls'), ('connecting', 'EventThread.socket_connect')],
    technique = 'generated zones, name server faults and configurations over a simulated network against a reference model, differential to getaddrinfo (Hypothesis)',
)
P(
    'C40', 'Pipes and child processes lose no data and always end',
    'Whatever is written to a pipe or to the stdin of a process arrives once, in order and unchanged, and whatever the child writes is read so, at any speed of the two sides; drain waits exactly while the buffer is above the high water mark and the other end is alive. '
    'Closing a pipe sends what is buffered, aborting drops it, and neither touches an unrelated descriptor. '
    'The return code is the real one, told to every waiter once the child ends (even if a grandchild keeps its pipes), never earlier; timeouts raise TimeoutExpired at their time, closing kills and reaps, and no descriptor or zombie remains.',
    ['histories', 'schedules', 'fault_sequences', 'configurations'], 'every child program (reading, writing, closing, forking, dying), every way to talk to, wait for and end it, and every sequence of operations on both ends of a pipe',
    'No test starts a process nor connects a pipe.',
    ['scarletio/core/subprocess/subprocess.py', 'scarletio/core/subprocess/subprocess_protocols.py', 'scarletio/core/subprocess/subprocess_writer.py', 'scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py', 'scarletio/core/event_loop/event_loop.py'],
    [('pipes', 'UnixReadPipeTransportLayer / UnixWritePipeTransportLayer'), ('waiting', 'AsyncProcess.wait / _process_exited'), ('talking', 'AsyncProcess.communicate / _drain_helper'), ('ending', 'AsyncProcess.close / kill / terminate')],
    technique = 'random programs on real pipes and real child processes in virtual time against a model of the child (Hypothesis)',
)
P(
    'C41', 'Streamed zip archives contain exactly the streamed files',
    'The streamed archive of any files is a valid zip64 archive: each file has its content, size, crc, date and compression, under a name no other file of the archive has (its own name when nothing else wants it), at the offset the archive tells. '
    'Sources are read only as the archive is consumed, their errors are raised to the consumer, and the same resource streams the same archive again, also concurrently.',
    ['inputs', 'histories', 'fault_sequences'], 'every list of files with any names, contents in any chunks, dates and compression, any failing source, and any way of consuming',
    'Tests stream two small fixed archives and deduplicate a few names.',
    ['scarletio/streaming/zip_streaming/zip_stream.py', 'scarletio/streaming/zip_streaming/name_deduplication.py', 'scarletio/streaming/zip_streaming/file_state.py', 'scarletio/streaming/zip_streaming/compression.py', 'scarletio/streaming/resource_streaming/resource_stream.py'],
    [('streaming', 'stream_zip'), ('names', 'name_deduplicator_default'), ('compressing', 'CompressorBase / CompressorZlibDeflate'), ('reusing', 'ResourceStream / ResourceStreamFunction')],
    technique = 'generated archives read back with the `zipfile` module and a byte level reference parser (Hypothesis)',
)
P(
    'C42', 'Asynchronous files do what plain files do, without blocking or leaking',
    'Any program of operations on an asynchronous file gives the results, exceptions and file content the same program gives on a plain file opened so, also when the operations are issued at once; after it is closed, detached or dropped, or if it could not be opened, its descriptor and executor are free. '
    'A reusable file or buffer starts over when it is closed, keeping its content, until it is really closed; a reusable buffer contains only what was written since it was last read.',
    ['histories', 'inputs', 'configurations'], 'every mode, encoding and newline handling, every initial content and every sequence of operations',
    'No test opens an asynchronous file nor uses a reusable buffer.',
    ['scarletio/core/ios.py', 'scarletio/core/event_loop/executor.py'],
    [('files', 'AsyncIO'), ('reusable files', 'ReuAsyncIO'), ('reusable buffers', 'ReuBytesIO'), ('executors', 'ClaimedExecutor / ExecutorThread.run')],
    technique = 'random programs, differential to plain files and buffers (Hypothesis)',
)
P(
    'C43', 'Analysing a callable tells how it can really be called',
    'For every function, method, type and instance, the analyzer tells exactly its parameters (names, kinds, defaults, annotations, which are reserved), so that a call with a number of positional and keyword parameters it allows succeeds and any other fails. '
    'It, and the predicates on functions and objects, tell whether the callable or object is a coroutine, an asynchronous generator, a generator or awaitable, and instancing a type it calls instanceable gives a callable of the promised kind.',
    ['programs'], 'every signature, every kind of callable, plain, async, generator or async generator',
    'No test covers the analyzer.',
    ['scarletio/utils/analyzer.py', 'scarletio/utils/async_utils.py', 'scarletio/utils/method_like.py'],
    [('analyzing', 'CallableAnalyzer'), ('rich access', 'RichAnalyzer'), ('predicates', 'is_coroutine_function and co'), ('converting', 'to_coroutine')],
    technique = 'generated callables, differential to `inspect.signature` and to calling them (Hypothesis)',
)
P(
    'C44', 'Highlighting keeps the text and agrees with how Python reads it',
    'Parsing any text, valid code or not, never fails, gives tokens that concatenate to exactly that text at their true positions, and properly nested, always closed layers; on code Python can tokenize every token, string and replacement field is recognised as what Python takes it. '
    'A line of a file is shown with exactly the lines the brackets and strings it opens or closes reach. '
    'Formatted output shows exactly the text, each character styled by the closest detail set for its type; splitting format codes keeps every character, however the text is cut.',
    ['inputs', 'programs', 'configurations'], 'every text, every sequence of python tokens, every assignment of details to token types, every way of chunking',
    'Tests parse a few hundred fixed snippets and look at one token or brace at a time.',
    ['scarletio/utils/highlight/matching.py', 'scarletio/utils/highlight/parser_context.py', 'scarletio/utils/highlight/utils.py', 'scarletio/utils/highlight/highlight_streamer.py', 'scarletio/utils/highlight/formatter_node.py', 'scarletio/utils/highlight/ansi.py', 'scarletio/utils/trace/expression_parsing/expression_info.py'],
    [('parsing', 'HighlightParserContext'), ('searching', 'search_layer_index and co'), ('lines', 'get_expression_info / FileInfo.get_line'), ('formatting', 'get_highlight_streamer / FormatterDetailANSI / FormatterDetailHTML'), ('splitting', 'stream_split_ansi_format_codes')],
    technique = 'generated text and code, differential to `tokenize`, and a model of a terminal and of a browser (Hypothesis)',
)
P(
    'C45', 'A rendered exception shows the whole exception, whatever raised it',
    'Rendering any exception ends, never fails, and shows each exception of its chain and cause groups once, in the order they happened, with its frames, the source lines of them as the files are now, its type and message; repeated frames are collapsed with the true count and nothing else is left out but what the filter drops. '
    'Hostile objects, names and messages, cyclic chains, broken sources and concurrent renderings do not change that; the pointer of a syntax error stands where the interpreter means it. '
    'The exception writer captures exactly the exceptions it is told to and lets the others pass.',
    ['programs', 'inputs', 'histories', 'schedules'], 'every program, exception object, chain of exceptions, source file and history of it, filter and highlighter',
    'Tests render a handful of fixed exceptions without chains, hostile objects, threads or changing files.',
    ['scarletio/utils/trace/trace.py', 'scarletio/utils/trace/rendering.py', 'scarletio/utils/trace/frame_group.py', 'scarletio/utils/trace/frame_grouping.py', 'scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py', 'scarletio/utils/trace/expression_parsing/file_info.py', 'scarletio/core/top_level/trace.py'],
    [('rendering', 'render_exception_into / render_frames_into'), ('writing', 'write_exception_sync / ExceptionWriterContextManager'), ('grouping', 'group_frames'), ('representation', 'get_exception_representation'), ('files', 'get_file_info / FileInfo.is_up_to_date')],
    technique = 'generated raising programs against a model from their tracebacks, differential to the interpreter, hostile objects, histories of files (Hypothesis)',
)
P(
    'C46', 'The asyncio extension synchronizes and composes tasks as asyncio does',
    'A program written for asyncio, which uses locks, events, conditions, semaphores, barriers, queues, futures, tasks and their compositions (gather, wait, wait_for, shield, as_completed, timeout), does the same on the extension: the same operations complete with the same results at the same time, the same waits stay blocked and the same ones are timed out or cancelled. '
    'Exclusion and fairness are kept whoever is cancelled or timed out and whenever.',
    ['schedules', 'histories', 'programs'], 'every program of tasks, order of their operations, cancellation and time limit',
    'Tests were ported for single operations of locks and conditions; the compositions and most of the rest have none, and asyncio as a reference can be compared on any program.',
    ['scarletio/ext/asyncio/asyncio.py'],
    [('locks', 'Lock / Condition / Semaphore / Barrier / Event'), ('queues', 'Queue / LifoQueue'), ('compositions', 'gather / wait / wait_for / shield / as_completed / timeout'), ('futures', 'Future / Task')],
    technique = 'generated task programs, differential to the asyncio of the standard library on virtual time (Hypothesis)',
)
P(
    'C47', 'Streams, processes and runners of the asyncio extension work as those of asyncio',
    'A stream reader of the extension returns the same data and the same errors for the same history of feeding and reading as the one of asyncio does. '
    'Through connections and servers opened with it everything written arrives once, in order and followed by the end of the stream, with the peers\' extra info available under its asyncio names. '
    'Runners, loops, threads and processes of it return (and raise) what the program they run does.',
    ['histories', 'inputs', 'schedules'], 'every history of feeds and reads, conversation over tcp and unix sockets, and program run by the runners',
    'There are no tests of these parts.',
    ['scarletio/ext/asyncio/asyncio.py', 'scarletio/core/protocols_and_transports/extra_info.py'],
    [('streams', 'StreamReader / StreamWriter'), ('connections', 'open_connection / start_server'), ('runners', 'run / Runner / run_until_complete / run_coroutine_threadsafe / to_thread'), ('processes', 'create_subprocess_exec / create_subprocess_shell')],
    technique = 'generated histories and conversations, differential to the asyncio of the standard library, byte-exact oracle (Hypothesis)',
)
P(
    'C48', 'Requests reach their target over the way asked for, and no other',
    'A request with a proxy reaches its target only through a tunnel opened for it at that proxy (encrypted to its end for https); the proxy gets its own credentials and headers, never those of the request, and nothing before it accepted, while the target never gets those of the proxy. '
    'A certificate or fingerprint which does not fit stops a request before anything is sent; requests with different targets, proxies or trust never share a connection; refusals of a proxy are raised with its status, and nothing is left open. '
    'Of the addresses of a name each is tried once, in turn, resolved again only after they expired, and the request fails only if none of them works.',
    ['histories', 'fault_sequences', 'inputs', 'configurations'], 'every history of requests, behaviour of proxies, configuration of trust and change of names and addresses',
    'Tests check the attributes of these objects; there is no test which does a request through a proxy.',
    ['scarletio/http_client/connector_tcp.py', 'scarletio/http_client/connector_base.py', 'scarletio/http_client/proxy.py', 'scarletio/http_client/ssl_fingerprint.py', 'scarletio/http_client/connection_key.py', 'scarletio/http_client/host_info_basket.py', 'scarletio/http_client/client_request.py'],
    [('tunnels', 'ConnectorTCP.create_proxy_connection'), ('direct', 'ConnectorTCP.create_direct_connection'), ('addresses', 'ConnectorTCP.resolve_host_iterator / HostInfoBasket'), ('pooling', 'ConnectorBase.connect / ConnectionKey'), ('fingerprint', 'SSLFingerprint.check')],
    technique = 'generated request histories against reference proxies, targets and name service on a simulated network (Hypothesis)',
)
P(
    'C49', 'Helpers of lists, descriptors, types and exports do what they stand for',
    'The changes of positions calculated for a move are those of the moved list, and the differences of lists, relative indexes and packed generators are the ones plain python gives. '
    'Properties of classes, cached ones, removed attributes, methodized types and base methods give on the class and on each instance what they are defined with, call their getters as often as needed and refuse everything else; types extended in place or turned to modules keep every member working as it was defined. '
    'Everyone who included a name gets the object exported with it, exactly once, whichever happens first.',
    ['inputs', 'histories', 'programs'], 'every list, class built of these members and history of accesses, exports and includes',
    'Only four of these have a test, with a single input each; nothing tests the descriptors, the type extension, the modules made from types and the exports.',
    ['scarletio/utils/utils.py', 'scarletio/utils/properties.py', 'scarletio/utils/type_methodizer.py', 'scarletio/utils/type_modulizer.py', 'scarletio/utils/removed_descriptor.py', 'scarletio/utils/keep_type.py', 'scarletio/utils/base_method.py', 'scarletio/utils/method_like.py', 'scarletio/utils/export_include.py'],
    [('lists', 'change_on_switch / list_difference / relative_index / un_map_pack / where'), ('descriptors', 'class_property / cached_property / name_property / RemovedDescriptor / methodize / BaseMethodDescriptor'), ('types', 'KeepType / modulize'), ('exports', 'export / include / include_with_callback / check_satisfaction')],
    technique = 'generated lists, classes and histories against a model in plain python (Hypothesis)',
)
P(
    'C50', 'Copies, proxies and conversions of functions act as the function',
    'A copied, postponed, proxied, bound or to coroutine converted function accepts the same calls, gives the same values and errors when it is called, sent into, thrown into, closed or awaited, and has the same metadata as the function it was made from, which is not changed by changing its copy. '
    'What kind a function or object is said to be (coroutine, generator, coroutine generator, awaitable) is what the interpreter treats it as; asking never fails. '
    'Overwritten attributes of a proxy are seen on that proxy and on its copies only, until deleted.',
    ['programs', 'inputs', 'histories'], 'every signature, body, kind of function, call, way of driving it and history of overwrites',
    'Tests proxy a few fixed functions without driving them; copies and conversions have no tests.',
    ['scarletio/utils/async_utils.py', 'scarletio/utils/function_tools.py', 'scarletio/utils/type_proxies/proxy_base.py', 'scarletio/utils/type_proxies/coroutine_type.py', 'scarletio/utils/type_proxies/coroutine_function_type.py', 'scarletio/utils/type_proxies/field_factories.py'],
    [('kinds', 'is_coroutine_function / is_coroutine / is_awaitable / is_generator'), ('conversion', 'to_coroutine'), ('copies', 'copy_func / alchemy_incendiary'), ('proxies', 'CoroutineFunctionTypeProxy / CoroutineTypeProxy')],
    technique = 'generated functions and ways of driving them, differential to the plain function and to inspect (Hypothesis)',
)
P(
    'C51', 'The editor shows what is typed and gives it back exactly',
    'After any history of keys, pastes, resizes and output written meanwhile, the terminal shows the edited lines with their prefixes, continuations, colors and cursor below that output, and nothing else; no key pressed and nothing written is lost, and what was on the terminal before stays. '
    'Pasted console sessions are taken without their prompts, and the history gives the earlier inputs in order. '
    'An input ends only when it is complete (or wrong, with its error), giving code which does what the text says, and leaves the terminal, its settings and the streams as they were.',
    ['histories', 'inputs'], 'every history of keys, pastes, resizes and writes on a terminal of any width',
    'Tests cover pure helpers and a handful of state differences; no test runs the editor on a terminal, presses a key or reads back what is shown.',
    ['scarletio/tools/asynchronous_interactive_console/editors/editor_advanced.py', 'scarletio/tools/asynchronous_interactive_console/editors/display_state.py', 'scarletio/tools/asynchronous_interactive_console/editors/prefix_trimming.py', 'scarletio/tools/asynchronous_interactive_console/editors/compilation.py', 'scarletio/tools/asynchronous_interactive_console/history.py', 'scarletio/tools/asynchronous_interactive_console/auto_completer.py'],
    [('editing', 'EditorAdvanced / DisplayState / History / trim_console_prefix / maybe_compile')],
    technique = 'generated sessions on a pseudo terminal against a terminal emulator and an editing model (Hypothesis)',
)
P(
    'C52', 'The console runs its inputs one after the other in its namespace',
    'Each input of the asynchronous console has exactly the effect of running its source in the namespace of the console, with what it awaits run on the event loop: the same values are shown, the same variables set, and a failure shows its traceback with the lines of the input and lets the console go on. '
    'An interrupted input is cancelled and does not affect the ones after it, and SystemExit ends the console with its exit message whether it is raised while awaiting or not. '
    'Prompts have the length the editor is told.',
    ['programs', 'histories'], 'every sequence of inputs, interruptions and exits',
    'There are no tests of the console.',
    ['scarletio/tools/asynchronous_interactive_console/console.py', 'scarletio/tools/asynchronous_interactive_console/editors/compilation.py'],
    [('running', 'AsynchronousInteractiveConsole.interact / run_code'), ('prefixes', 'AsynchronousInteractiveConsole.get_prefix_length')],
    technique = 'generated programs, differential to running them with a plain driver (Hypothesis)',
)
P(
    'C53', 'A type built from compound components is exactly the sum of its parts',
    'A type built from compound components, a base type and a body has every method, constant and slot these define and nothing more, each acting as where it was defined, whichever order the components are listed in. '
    'Conflicting definitions (two methods, different signatures or constants, a slot against something else) and anything only theorized are refused with TypeError. '
    'The result is a plain type: it can be instanced, inspected and inherited from, and building leaves its components as they were.',
    ['programs'], 'every set of components, base and body',
    'There are no tests of compound types.',
    ['scarletio/utils/compound_type.py'],
    [('built', 'CompoundMetaType.__build__ / build_type_structure'), ('components', 'CompoundMetaType.__create_component__ / Theory')],
    technique = 'generated type definitions in several component orders against a model of merging (Hypothesis)',
)
P(
    'C54', 'A failure nobody looked at is reported once, and no other is',
    'When a future or task failed and was dropped without anyone getting its result or exception (directly, by awaiting it or anything wrapping, shielding or chaining it), the failure is reported exactly once, and so is a future dropped while awaited; one which was looked at, silenced or cancelled is never reported, nor is one which can be looked at yet. '
    'A failing callback, handle, cycled function or closing generator is reported exactly once and nothing else is affected by it; exceptions met by an exception writing context manager are reported by the innermost one which includes and does not exclude them, and by no one if there is none, when they propagate. '
    'What is reported is written whole, with what belongs before and after it, from whichever thread.',
    ['histories', 'programs'], 'every way of failing, of looking at it or of leaving it, at any time',
    'Tests never collect an unretrieved failure (they silence them) and look at what is written only in a few fixed cases.',
    ['scarletio/core/traps/future.py', 'scarletio/core/traps/task.py', 'scarletio/core/traps/future_chaining.py', 'scarletio/core/event_loop/handles.py', 'scarletio/core/event_loop/cycler.py', 'scarletio/core/top_level/trace.py'],
    [('reports', 'Future.__del__ / Future.get_result / Future.get_exception / Future.silence'), ('callbacks', 'Handle._run / Cycler._run'), ('shielding', '_FutureChainer.__call__'), ('contexts', 'ExceptionWriterContextManager'), ('writing', 'write_exception_async / write_exception_maybe_async / write_exception_sync')],
    technique = 'generated programs of failures and of the ways to deal with them on virtual time, with a model of who got to know what (Hypothesis)',
)
P(
    'C55', 'Errors of missing attributes suggest what really is there',
    'The rendered error of a missing attribute says truly whether its type declares it, and suggests only existing attributes which are named alike: those of the same words in any order or casing always, first and together, and none which differs wholly. '
    'It mentions a variable exactly if one of the same name is visible where the error was raised, and if no attribute is named alike it suggests exactly the visible variables which have the attribute. '
    'Attributes, variables or listings which fail when looked at change nothing else.',
    ['inputs'], 'every set of attributes and visible variables',
    'Tests compare a handful of fixed names.',
    ['scarletio/utils/trace/exception_representation/exception_representation_attribute_error.py', 'scarletio/utils/trace/exception_representation/attribute_error_helpers.py', 'scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py', 'scarletio/utils/trace/exception_representation/suggestion/helpers_variables.py', 'scarletio/utils/rich_attribute_error.py'],
    [('naming', '_get_familiar_names / _iter_name_aliases'), ('variables', 'get_matching_variable_names_with_attribute'), ('showing', '_produce_exception_representation_attribute_error')],
    technique = 'generated types and scopes rendered for real, with bounds of an independent nearness as oracle (Hypothesis)',
)
