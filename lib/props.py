"""Single source of properties.jsonl and MANIFEST.json: python3 lib/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import registry

D = 'include/stdexec/__detail/'
E = 'include/exec/'
SCHED = 'the stable tests are compile-only or run one uncontrolled schedule; '
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


p('P01', 'Stop requests run each callback exactly once, and deregistration is safe',
  'For every history of request_stop, callback registration and callback destruction on an inplace_stop_source, exactly one request_stop call returns true, and every callback registered and not destroyed before it is run exactly once, on the requesting thread (or, if it registers after the request, on the registering thread before its constructor returns). The destructor of a callback returns only when that callback can neither start nor still be running on another thread, and returns without blocking when it is invoked from within the callback itself. stop_requested() is false before the winning request and true ever after, and no call hangs.',
  ['schedules', 'histories', 'programs'],
  'all interleavings of up to 3 threads requesting stop, registering and destroying callbacks, including callbacks that destroy themselves, request stop again or register others',
  SCHED + 'the races between remove, run and register need particular interleavings',
  ['include/stdexec/stop_token.hpp'],
  [('spin lock word and stop flag', 'inplace_stop_source::__lock_, __try_lock_unless_stop_requested_'),
   ('removed-during-callback handshake', 'inplace_stop_source::request_stop, __remove_callback_')],
  ['return of request_stop', 'callback invocation', 'return of callback constructor/destructor'])

p('P02', 'run_loop runs every scheduled task exactly once, in order, on the driving thread',
  'Every operation started on a run_loop scheduler completes exactly once, on a thread inside run() (or run_until-style driving), in FIFO order of the start calls, with set_value unless stop was requested on its receiver, in which case with set_stopped. run() returns only after finish() has been called and every operation started before that has completed, and it does return then: no wakeup is lost, under any interleaving of start, finish, stop requests and run. After run() has returned the loop and its operations may be destroyed at once.',
  ['schedules', 'histories'], 'all interleavings of producers, finish and run on one loop, including starts from inside running tasks and destroying the loop right after run()',
  SCHED + 'lost wakeups and use after return depend on where a producer is preempted',
  [D + '__run_loop.hpp', D + '__atomic_intrusive_queue.hpp', E + 'single_thread_context.hpp'],
  [('task queue and finishing flag', 'run_loop::__push_back_, run_loop::run, run_loop::finish')],
  ['set_value/set_stopped of scheduled operations', 'return of run()'])

p('P03', 'Intrusive concurrent queues lose, duplicate and reorder nothing',
  'Every item pushed to the multi-producer queues is handed to the consumer exactly once, items of one producer in the order in which it pushed them, and items whose pushes do not overlap in that order. The push that found the queue empty and idle is told so exactly when the consumer needs waking, so that no item is stranded. A popped node is never touched again by the queue.',
  ['schedules', 'histories'], 'all interleavings of 2-3 producers and one consumer over the multi-producer queues',
  SCHED + 'the windows between exchange and link, and between drain and idle, cannot be hit by tests on purpose',
  [D + '__intrusive_mpsc_queue.hpp', D + '__atomic_intrusive_queue.hpp', E + 'detail/atomic_intrusive_queue.hpp'],
  [('exchange/link of the tail', '__intrusive_mpsc_queue::push_back/pop_front'), ('head exchange', 'push_front/pop_all_reversed')])

p('P04', 'Every adaptor composition completes its receiver exactly once, after start',
  'For every expression built from the sender factories and adaptors, connecting and starting it once leads to exactly one completion call on the receiver, never before start and never after that, whatever the channels and threads on which its leaves complete and whether stop is requested. Each child operation is started at most once, only after its parent was started, and has completed before its parent completes; every operation state and stored result that was constructed is destroyed exactly once, not before its completion, and an operation that is never started has no effects. After the completion call returns, the operation state may already be destroyed and is not touched again.',
  ['programs', 'schedules', 'inputs'], 'random expression trees over all adaptors, random leaf behaviours (value, error, stopped, throwing, asynchronous on another thread, waiting for stop) and schedules',
  'tests fix a handful of small compositions and synchronous leaves',
  ['include/stdexec/__detail', 'include/exec'],
  [('operation states and receivers of each adaptor', D + '__basic_sender.hpp and the adaptor headers')])

p('P05', 'Completion-channel adaptors transform and route exactly what the child sent',
  'then, upon_error and upon_stopped apply their function once to exactly the values, error or stop signal of their own channel and forward every other completion unchanged; a function that throws yields set_error with that exception, once. just*, just_from, into_variant, into_tuple, stopped_as_optional, stopped_as_error, materialize/dematerialize and variant_sender deliver exactly the data given or sent, in order and on the specified channel, without losing, duplicating or moving from it early. Copies of a sender share no mutable state: connecting an lvalue leaves it reusable.',
  ['programs', 'inputs'], 'all channels, value counts and throwing/non-throwing functions, nested and repeated',
  'the stable tests only compile the headers; behaviour is not run',
  [D + '__then.hpp', D + '__upon_error.hpp', D + '__upon_stopped.hpp', D + '__just.hpp', D + '__into_variant.hpp', D + '__stopped_as_optional.hpp', D + '__stopped_as_error.hpp', E + 'materialize.hpp', E + 'just_from.hpp', E + 'into_tuple.hpp', E + 'variant_sender.hpp'],
  [('per-adaptor complete functions', '__impl::__complete of each adaptor')])

p('P06', 'let_* keep their arguments alive for the whole inner operation',
  'let_value, let_error and let_stopped call their function exactly once, with the child\'s results of their channel as lvalues, start the returned sender, and complete as it completes; other channels pass through. The stored results live, at stable addresses, until the inner operation has completed, and the child\'s operation state is not used after its completion. If the function, or connecting its result, throws, the operation completes with that exception, once.',
  ['programs', 'inputs', 'schedules'], 'all channels, sync and async children and inner senders, throwing functions, inner senders that refer to their arguments',
  'lifetime errors need an asynchronous inner operation and are silent in compile-only tests',
  [D + '__let.hpp'], [('argument storage and second operation state', '__let.hpp operation states')])

p('P07', 'when_all completes once, after all children, with the specified outcome',
  'when_all (and its variants) starts every child, completes exactly once and only after the last child has completed, whatever threads the children complete on. If all children send values (and stop was not requested) it completes with their concatenation in child order; otherwise with the error of the first child that failed, or with stopped if none failed; the first non-value completion, or a stop request on the receiver, requests stop of the others. It never hangs and never completes early, under any interleaving of child completions and stop requests.',
  ['schedules', 'programs', 'inputs'], 'all interleavings of child completions on different threads and a concurrent external stop request',
  SCHED + 'completion/stop races need exact placement',
  [D + '__when_all.hpp'], [('arrival count and state', '__when_all::__state::__arrive/__complete'), ('stop forwarding', '__forward_stop_request')])

p('P08', 'when_any delivers the first completion after all children are done',
  'when_any starts all of its children, records the completion of the first of them to finish, requests stop of the others, and completes exactly once, only when every child has completed, with the recorded result (or with stopped if stop was requested of it). An external stop request reaches every child. This holds for every interleaving of child completions, stop requests and the start itself.',
  ['schedules', 'programs'], 'all interleavings of child completions (before, during, after start) and external stop requests',
  SCHED + 'races among emplacement, stop callback and last arrival',
  [E + 'when_any.hpp'], [('emplaced flag and count', 'when_any __op_base::notify')])

p('P09', 'Work and completions run on the scheduler the expression names',
  'schedule(s), starts_on(s, x), continues_on(x, s), on(s, x) and on(x, s, f) run x, f and the completion on exactly the execution resource that the expression names, for every combination of resources and completion channel, and on returns to the resource it was started on. Results cross the transition intact (they are stored, not dangling), and a transition that itself fails or is stopped yields that error or stopped instead, once.',
  ['programs', 'schedules', 'inputs'], 'nested transitions among several contexts, all channels, failing and stopped schedulers',
  'no stable test executes a transition',
  [D + '__continues_on.hpp', D + '__starts_on.hpp', D + '__on.hpp', D + '__schedule_from.hpp', E + 'reschedule.hpp', D + '__affine.hpp'],
  [('stored completion and second operation', '__continues_on.hpp state')])

p('P10', 'Environments and stop requests reach exactly the operations they should',
  'A query made from inside an operation sees the nearest enclosing write_env (or the adaptor\'s own replacement) and otherwise the receiver\'s environment, whatever adaptors lie in between. A stop request on a receiver\'s token is seen by every running descendant except below an adaptor that replaces the token (unstoppable, when_all, stop_when, ...), where it is seen exactly as that adaptor specifies: stop_when merges an extra token with the receiver\'s, unless_stop_requested does not start its child once stop was requested. read_env delivers the queried value.',
  ['programs', 'schedules', 'configurations'], 'nesting of environment-changing and stop-token-replacing adaptors, stop requested before, during and after start',
  'tests compile the queries, they do not exercise nested propagation or racing stop requests',
  [D + '__write_env.hpp', D + '__read_env.hpp', D + '__stop_when.hpp', E + 'unless_stop_requested.hpp', D + '__unstoppable.hpp', D + '__env.hpp', E + 'env.hpp'],
  [('environment joining', '__env.hpp env/__join'), ('fused stop token', '__stop_when.hpp')])

p('P11', 'Repeating and sequencing adaptors run their steps in order, exactly as often',
  'sequence(a, b, ...) starts each sender only after the previous one completed with a value and completes as the last one does; repeat_n(s, n) runs s exactly n times, and repeat_until / repeat_effect_until run s until it yields true, each round a fresh operation started after the previous one was destroyed. The first error or stopped completion ends the whole with that completion, once, with no further round. This holds for any number of rounds without unbounded stack growth, with synchronous or asynchronous rounds.',
  ['programs', 'inputs', 'schedules'], 'n from 0 to large, failing round at any position, synchronous and asynchronous rounds',
  'tests in this build do not execute these adaptors',
  [E + 'sequence.hpp', D + '__sequence.hpp', E + 'repeat_n.hpp', E + 'repeat_until.hpp', E + 'repeat_effect_until.hpp'],
  [('re-connection of the child', 'repeat_* operation states')])

p('P12', 'finally runs its cleanup exactly once and preserves the original completion',
  'finally(a, b) runs b exactly once after a completes, on any channel, and then completes with a\'s completion, data intact; if b fails or is stopped, with b\'s completion instead. a\'s operation state is destroyed before b\'s completion is delivered only after its results were saved; b is never started before a completed.',
  ['programs', 'inputs', 'schedules'], 'all channel combinations of main and cleanup senders, sync and async',
  'behaviour not run by stable tests',
  [D + '__finally.hpp', E + 'finally.hpp'], [('stored result and final operation', 'finally operation state')])

p('P13', 'Counting scopes: join completes only when every association has ended',
  'simple_counting_scope and counting_scope admit an association exactly when the scope is neither closed nor joined at that point; each association is released exactly once, and join completes exactly once, after close-or-join has taken effect and the number of live associations has reached zero, never before and never not at all. counting_scope additionally delivers request_stop to every associated operation. After join completed (or if it was never used) destroying the scope is allowed; this holds under all interleavings of associate, release, close, request_stop and join.',
  ['schedules', 'histories'], 'all interleavings of several threads associating, releasing, closing and joining',
  SCHED + 'the packed state word\'s transitions race',
  [D + '__counting_scopes.hpp', D + '__scope_concepts.hpp', D + '__associate.hpp'],
  [('bit-packed count and state', '__base_scope __counting_scopes.hpp')])

p('P14', 'spawn, spawn_future and associate start work once and never lose or leak it',
  'spawn starts the sender exactly once iff the scope admits it and destroys its state exactly once after completion; spawn_future delivers the spawned operation\'s completion to its (single) consumer exactly once, whichever of completion, consumption, abandonment and stop request come first, and abandoning the future requests stop of the spawned operation. associate completes with stopped when refused and otherwise holds its association until the operation is over. In all interleavings memory obtained from the environment\'s allocator is returned to it, and the scope\'s association is released only after the state has been destroyed.',
  ['schedules', 'histories', 'programs'], 'all interleavings of completion, consumption, dropping and stop of a spawned future',
  SCHED + 'a three-way race on one atomic',
  [D + '__spawn.hpp', D + '__spawn_future.hpp', D + '__spawn_common.hpp', D + '__associate.hpp'],
  [('state machine', '__spawn_future.hpp __spawn_future_state')])

p('P15', 'async_scope tracks all nested work; on_empty completes only when it is empty',
  'exec::async_scope: nest, spawn and spawn_future run their work exactly once, on_empty/when_empty completes only at a moment when no work is outstanding and does complete once the work is done, and request_stop reaches all work present. spawn_future delivers the result exactly once, or cancels the work when dropped, in every interleaving.',
  ['schedules', 'histories'], 'all interleavings of spawning, completing, dropping futures, requesting stop and waiting for emptiness',
  SCHED, [E + 'async_scope.hpp'], [('active count and waiters under a mutex', 'async_scope.hpp __impl'), ('future state machine', '__future_state')])

p('P16', 'split, ensure_started and start_detached run the shared work once for all',
  'split starts its predecessor at most once however many operations are connected and started, and each of them receives the same completion exactly once, also when it is started after the predecessor finished. ensure_started starts eagerly, once, and delivers to its single consumer or discards when dropped, requesting stop; start_detached runs to completion and frees its state. Stop of one consumer cancels only that consumer (and the shared work when it was the last), and the shared state is destroyed exactly once after its last user, in all interleavings.',
  ['schedules', 'histories', 'programs'], 'all interleavings of starting, completing, stopping and dropping several consumers',
  SCHED + 'the waiter list is lock free',
  [E + 'split.hpp', E + 'ensure_started.hpp', E + 'detail/shared.hpp', E + 'start_detached.hpp', E + 'execute.hpp'],
  [('waiter list with tombstone', 'exec/detail/shared.hpp __shared_state')])

p('P17', 'static_thread_pool runs every task exactly once on a worker and drains',
  'Every operation started on a static_thread_pool scheduler completes exactly once on one of the pool\'s workers (the named worker for thread-affine schedulers, as long as fewer operations wait for it than its queue keeps to itself), and stop requested before it is started turns it into set_stopped. Bulk work over n indices, and the items of schedule_all, call the function for each index in 0..n-1 exactly once and complete after the last call, after which nothing of the operation is touched; an exception from a bulk call is delivered once as an error. No task is stranded while workers sleep, and destroying the pool (with or without request_stop) after its work is done joins all workers without hanging.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings of submission, stealing, sleeping, waking and shutdown for 1-3 workers and n from 0 upward',
  SCHED + 'lost wakeups between sleep and notify depend on exact interleavings',
  [E + 'static_thread_pool.hpp', E + 'thread_pool_base.hpp', E + 'detail/xorshift.hpp'],
  [('local/remote queues, steal, sleep state', 'static_thread_pool.hpp thread_state')])

p('P18', 'The work-stealing queue hands every element to exactly one taker',
  'For every history of owner pushes and pops and concurrent steals on the block-based work-stealing queue, every pushed element is returned by exactly one pop or steal, the owner sees its elements in LIFO order, each block\'s elements are stolen in FIFO order, and push reports full rather than overwriting. Wrap-around of blocks loses and repeats nothing.',
  ['schedules', 'histories'], 'one owner and up to two thieves over small block counts and sizes, with several wrap-arounds',
  SCHED, [E + 'detail/bwos_lifo_queue.hpp'], [('block grant/reclaim/takeover', 'lifo_queue::block_type')])

p('P19', 'Timed schedulers complete each timer once, never early; cancel is exact',
  'A timer started on timed_thread_scheduler completes exactly once: with set_value no earlier than its deadline, in deadline order for timers already queued, or with set_stopped if stop was requested first; a cancellation and an expiry never both happen and neither is lost. The intrusive heap pops entries in key order under any sequence of insertions and erasures. Shutting the context down never hangs.',
  ['schedules', 'inputs', 'histories'], 'all interleavings of start, stop request and expiry (virtual clock), random key sequences for the heap',
  'tests sleep for real time and fix one order',
  [E + 'timed_thread_scheduler.hpp', E + 'detail/intrusive_heap.hpp', E + 'timed_scheduler.hpp'],
  [('command queue, ready/stop flags', 'timed_thread_scheduler.hpp timed_thread_operation'), ('pairing heap', 'intrusive_heap.hpp')])

p('P20', 'The trampoline scheduler bounds recursion and runs every operation once',
  'An operation started on trampoline_scheduler completes exactly once on the starting thread, inline only while the nesting depth is below the maximum and otherwise after the running ones unwind, so that nesting never exceeds the maximum however many operations start one another. With stop requested it completes with set_stopped. Deferred operations run in the order in which they were deferred.',
  ['programs', 'inputs'], 'arbitrary recursion and fan-out patterns and maximum depths',
  'no stable test runs it', [E + 'trampoline_scheduler.hpp'], [('thread-local trampoline state', 'trampoline_state::drain')])

p('P21', 'parallel_scheduler and task_scheduler forward work and completions faithfully',
  'Work scheduled through parallel_scheduler or through a type-erased task_scheduler runs exactly once on the underlying backend or scheduler, completes exactly once on the channel the backend reports, honours stop requests from any kind of stop token, and bulk calls cover each index exactly once before completion, with the values of the predecessor. Equality, error delivery (an exception thrown by the function or a failing allocation is delivered as an error, once) and the lifetime of the backend, which every scheduler and operation not yet started keeps alive and which is released afterwards, are preserved through the erasure. All callers of get_parallel_scheduler get the same scheduler.',
  ['programs', 'schedules', 'inputs'], 'backends that complete inline or on other threads, with value, error or stopped; n from 0 upward',
  'no stable test runs it', [D + '__parallel_scheduler.hpp', D + '__parallel_scheduler_backend.hpp', D + '__parallel_scheduler_default_impl.hpp', D + '__task_scheduler.hpp', 'src'],
  [('receiver proxies', '__parallel_scheduler_backend.hpp')])

p('P22', 'bulk covers every index exactly once before it completes',
  'bulk, bulk_chunked and bulk_unchunked call the function over index ranges that partition 0..n-1: every index exactly once, in order when sequential, and complete with the child\'s values unchanged after the last call. An exception from the function ends the operation with that error, once; non-value completions of the child pass through with no call. fork_join starts every branch with the same values and joins them like when_all.',
  ['inputs', 'programs', 'schedules'], 'n from 0 upward, every throwing index, every child channel, policies seq/par',
  'no stable test runs it', [D + '__bulk.hpp', E + 'fork_join.hpp'], [('range splitting', '__bulk.hpp')])

p('P23', 'Coroutine tasks propagate results, stop, and affinity, and clean up exactly once',
  'A stdexec::task or exec::task runs when awaited or started, resumes on its scheduler after every co_await, propagates value, exception and stopped to its awaiter exactly once, and destroys its frame and locals exactly once on every path including cancellation. Actions registered with at_coroutine_exit / on_coroutine_stopped etc. run exactly once, in reverse order of registration, only on the dispositions they name, before the awaiting coroutine continues. Stop requests on the awaiter reach the awaited operations.',
  ['programs', 'schedules'], 'nested tasks completing with value, exception or stopped, inline or on other threads, with exit actions',
  'no stable test runs a coroutine', [D + '__task.hpp', E + 'task.hpp', E + 'at_coroutine_exit.hpp', E + 'on_coro_disposition.hpp'],
  [('final awaiter and continuation handles', '__task.hpp, exec/task.hpp promises')])

p('P24', 'Senders and awaitables convert into one another without losing a completion',
  'co_await of any single-value sender resumes the coroutine exactly once with the value, rethrows the error, or unwinds the coroutine as stopped, also when the sender completes synchronously inside the suspension or on another thread while suspending. An awaitable connected as a sender completes its receiver exactly once with the awaited result, exception, or stopped, and its coroutine frame is destroyed with the operation state.',
  ['schedules', 'programs'], 'sync/async completion racing with suspension, each channel',
  SCHED, [D + '__as_awaitable.hpp', D + '__connect_awaitable.hpp', D + '__with_awaitable_senders.hpp', D + '__awaitable.hpp'],
  [('suspension/completion handshake', '__as_awaitable.hpp __sender_awaiter')])

p('P25', 'Sequence senders deliver each item once, then complete once',
  'A sequence sender\'s operation calls set_next once for each of its items, in order, and completes once, after all of its items have completed. transform_each, merge, merge_each, iterate, empty_sequence, a plain sender as a sequence and any_sequence neither drop, duplicate nor reorder an item of one source; a source whose consumer stops after an item (or whose set_next throws) is told so. An error is not lost: merge_each stops the other sequences and delivers the first error as its last item (or as its own completion when the sequence of sequences failed), merge completes with it, and ignore_all_values completes with the first item that failed or stopped. Exceptions from subscribing, set_next or connecting an item arrive as errors. A stop request is visible to every source below. All this holds in all interleavings of concurrently running items.',
  ['programs', 'schedules', 'inputs'], 'item counts, sync/async items and sources, item errors/stops at any position, merged concurrent sources',
  'no stable test runs a sequence', [E + 'sequence_senders.hpp', E + 'sequence'],
  [('item receivers and counters', 'exec/sequence/*.hpp')])

p('P26', 'Type erasure preserves behaviour and lifetime',
  'any_sender, any_receiver_ref, any_scheduler, any_sequence_receiver_ref and exec::function forward connect, start, completions, queries and stop requests unchanged to and from the erased object. Copies, moves, swaps and destruction of the erasing wrappers construct and destroy the held object exactly once each, for objects stored inline and on the heap alike, and self-move and empty states are safe. A stop request through the erased receiver reaches the erased sender exactly when the outer token is stopped.',
  ['programs', 'histories'], 'sequences of copy/move/assign/swap/reset over inline and heap stored objects; completions on each channel',
  'no stable test runs it', [E + 'any_sender_of.hpp', E + 'function.hpp', D + '__any.hpp', D + '__receiver_ref.hpp', D + '__sender_ref.hpp', D + '__any_allocator.hpp'],
  [('vtables and storage', '__any.hpp')])

p('P28', 'sync_wait returns exactly when, and with what, the sender completed',
  'sync_wait blocks until its sender has completed, drives work scheduled on its run_loop on the waiting thread, and returns the values, throws the error, or returns empty when stopped. It never returns early, never hangs after completion from any thread, and the sender\'s operation is not touched after it returned.',
  ['schedules', 'inputs'], 'completion from another thread, from the loop or inline, on each channel, racing with the wait',
  SCHED, [D + '__sync_wait.hpp', D + '__run_loop.hpp'], [('finish from the receiver', '__sync_wait.hpp __receiver')])

p('P29', 'Supplied allocators are the ones used, and get every block back exactly once',
  'spawn, spawn_future, start_detached, ensure_started, split, exec::function and stdexec::task frames put their operation (or frame) into memory from the allocator which their environment, the sender\'s attributes or the allocator_arg argument supplies, chosen by the documented precedence (function: frame allocator, else allocator, else std::allocator), and adaptors hand the allocators of their receiver on to their child (write_env, then, let_value, task, function). Every block is deallocated exactly once, through the same allocator, with the size and alignment it was obtained with, after the last object in it is gone: on every completion channel, when an operation is dropped, and when an allocation, a uses-allocator construction or a connect throws part-way, which is reported and never terminates. The allocator types of the library (__any_allocator, __memory_resource_adaptor_t, __frame_allocator_t) return aligned storage of the requested size, disjoint from all other live storage, and compare equal iff what they wrap does.',
  ['programs', 'fault_sequences'], 'a failing allocation or throwing constructor at every position; all completion channels; nested adaptors with different allocators',
  'tests do not inject allocation failure, and check few combinations of environments', [E + '__frame_allocator.hpp', E + '__memory_resource_adaptor.hpp', E + 'get_frame_allocator.hpp', E + 'function.hpp', E + 'start_detached.hpp', E + 'detail/shared.hpp', D + '__memory.hpp', D + '__any_allocator.hpp', D + '__any.hpp', D + '__spawn.hpp', D + '__spawn_common.hpp', D + '__spawn_future.hpp', D + '__task.hpp', D + '__basic_sender.hpp', D + '__let.hpp'],
  [('choice of the allocator', '__spawn_common.hpp, function.hpp'), ('rebinding and deallocation', '__spawn*.hpp, __task.hpp, __any.hpp'), ('offset kept behind the block', '__memory_resource_adaptor.hpp, __any_allocator.hpp')])

p('P30', 'The io_uring context completes each operation once and loses no wakeup',
  'Every operation started on an io_uring scheduler, including timers, completes exactly once on the thread that runs the context, timers not before their deadline, and with set_stopped when cancelled. run_until_stopped / run_until_empty return exactly when stopped or empty, with everything completed, under all interleavings of submissions from other threads, stop requests and kernel completions.',
  ['schedules', 'histories'], 'all interleavings of remote submission, wakeup, stop and (emulated) kernel completions',
  SCHED + 'kernel timing is uncontrolled', [E + 'linux/io_uring_context.hpp', E + 'linux/safe_file_descriptor.hpp'],
  [('submission counter, wakeup eventfd', 'io_uring_context.hpp __context')])


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    checks, na = [], []
    for x in P:
        c = registry.PROPS.get(x['id'])
        if c is None:
            na.append(dict(property=x['id'], reason=registry.NOT_CLAIMED.get(x['id'], 'no check built yet')))
            continue
        checks.append(dict(property=x['id'], quick_cmd='python3 lib/check.py %s --tier quick' % x['id'],
                           thorough_cmd='python3 lib/check.py %s --tier thorough' % x['id'],
                           technique=c.get('technique', 'TLA+ specification model checked with TLC; traces recorded from the real code under a controlled scheduler validated against it with TLC'),
                           level=c.get('level', 'model_checking'),
                           level_note=c.get('note', registry.NOTE)))
    m = dict(version=1, setup_cmd='bash lib/setup.sh', checks=checks, not_applicable=na,
             notes='TLA+/TLC. No hooks in /repo: the sources are compiled with -fsanitize=thread and linked with rt/vsched.cpp, which implements the instrumentation interface as a controlled scheduler.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'claimed')


main()
