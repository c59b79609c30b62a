"""What each property's check consists of."""
BINS = {
    'scopes': dict(srcs=['scopes.cpp']),
    'ascope': dict(srcs=['ascope.cpp']),
    'shared': dict(srcs=['shared.cpp']),
    'bwos': dict(srcs=['bwos.cpp']),
    'erase': dict(srcs=['erase.cpp']),
    'sync_wait': dict(srcs=['sync_wait.cpp']),
    'alloc': dict(srcs=['alloc.cpp']),
    'pool': dict(srcs=['pool.cpp']),
    'parallel': dict(srcs=['parallel.cpp']),
    'trampoline': dict(srcs=['trampoline.cpp']),
    'timed': dict(srcs=['timed.cpp']),
    'queue': dict(srcs=['queue.cpp']),
    'run_loop': dict(srcs=['run_loop.cpp']),
    'stop': dict(srcs=['stop.cpp']),
    'sequence': dict(srcs=['seq.cpp', 'seq_k.cpp', 'seq_m.cpp']),
    # random sender trees
    'tree': dict(srcs=['dyn.cpp', 'k_basic.cpp', 'k_let.cpp', 'k_when.cpp', 'k_ctx.cpp', 'k_env.cpp', 'k_seq.cpp', 'k_bulk.cpp', 'k_any.cpp', 'k_coro.cpp', 's_tree.cpp']),
}


def tree(scn, mc, need, **kw):
    # the choices which make up a tree are part of the schedule: random exploration only
    return dict(groups=[dict(bin='tree', trace='TraceSenders', scenarios=scn,
                             opts=dict(dfs=[], dfs_thorough=[], shards=8 // len(scn) or 1))],
                mc=[dict(module='MCSenders', quick=['MCSenders%s.cfg' % m for m in mc],
                         thorough=['MCSenders%sT.cfg' % m for m in mc])], need_events=need, **kw)

PROPS = {
    'P01': dict(
        groups=[dict(bin='stop', trace='TraceStopSource')],
        mc=[dict(module='StopSource', quick=['MCStopSource.cfg','MCStopSourceLive.cfg'])],
        need_events=['run_b', 'dereg_ret', 'req_ret'],
    ),
    'P02': dict(
        groups=[dict(bin='run_loop', trace='TraceRunLoop')],
        mc=[dict(module='RunLoop', quick=['MCRunLoop.cfg'], thorough=['MCRunLoopT.cfg'])],
        need_events=['run', 'loop_ret', 'fin_ret', 'stop_ret'],
    ),
    'P03': dict(
        groups=[dict(bin='queue', trace='TraceQueue')], traces=dict(quick=5000),
        mc=[dict(module='MCQueue', quick=['MCQueue.cfg','MCQueueA.cfg'], thorough=['MCQueueT.cfg','MCQueueAT.cfg'])],
        need_events=['push_ret', 'take_ret', 'prep_ret', 'wait_ret'],
    ),
    'P04': tree(['mixed'], ['Basic', 'WhenAll'], ['cmp', 'des', 'cth', 'stope']),
    'P05': tree(['basic'], ['Basic'], ['cmp', 'fn', 'des']),
    'P06': tree(['let'], ['Let'], ['cmp', 'fn', 'cth', 'des']),
    'P07': tree(['whenall'], ['WhenAll'], ['cmp', 'stope', 'ss']),
    'P08': tree(['whenany'], ['WhenAny'], ['cmp', 'stope']),
    'P09': tree(['ctx'], ['Ctx'], ['ss', 'sc', 'cmp']),
    'P10': tree(['env'], ['Env'], ['sta', 'stope', 'cmp']),
    'P11': tree(['seq'], ['Seq'], ['sta', 'cmp']),
    'P19': dict(
        groups=[dict(bin='timed', trace='TraceTimers', scenarios=['two_starters', 'cancel', 'cancel_race', 'shutdown', 'chain', 'many']),
                dict(bin='timed', trace='TraceHeap', scenarios=['heap'], opts=dict(dfs=[], dfs_thorough=[]))],
        mc=[dict(module='MCTimers', quick=['MCTimers.cfg'], thorough=['MCTimersL.cfg','MCTimersT.cfg']), dict(module='Heap', quick=['MCHeap.cfg'])],
        need_events=['done', 'close_ret', 'stop_ret', 'pop', 'era'],
    ),
    'P13': dict(
        groups=[dict(bin='scopes', trace='TraceScopes:Simple', scenarios=['raw_s', 'last_s', 'unused_s']),
                dict(bin='scopes', trace='TraceScopes:Counting', scenarios=['raw_c', 'last_c', 'unused_c'])],
        mc=[dict(module='MCScopes', quick=['MCScopes.cfg'], thorough=['MCScopesT.cfg'])],
        need_events=['as_ret', 'rel_ret', 'j_done', 'gone'],
    ),
    'P17': dict(
        groups=[dict(bin='pool', trace='TraceJobs'),
                dict(bin='pool', trace='TraceJobs', scenarios=['sleepers', 'two_starters', 'nested', 'all', 'bulk'], opts=dict(stale=30, dfs=[]))],
        traces=dict(quick=4000), mc=[dict(module='MCPool', quick=['MCPool.cfg', 'MCPoolQ.cfg'], thorough=['MCPoolT.cfg'])],
        need_events=['done', 'fn_b', 'stop_ret'],
    ),
    'P21': dict(
        groups=[dict(bin='parallel', trace='TraceJobs')],
        traces=dict(quick=3500), mc=[],
        need_events=['done', 'fn_b', 'stop_ret', 'bk_done', 'eq'],
    ),
    'P20': dict(
        groups=[dict(bin='trampoline', trace='TraceTrampoline')],
        traces=dict(quick=6000), mc=[dict(module='MCTrampoline', quick=['MCTrampoline.cfg'], thorough=['MCTrampolineT.cfg'])],
        need_events=['run', 'ret', 'stop_ret'],
    ),
    'P18': dict(
        groups=[dict(bin='bwos', trace='TraceBwos'),
                dict(bin='bwos', trace='TraceBwos', scenarios=['takeover', 'wrap2', 'mix', 'retreat'], opts=dict(stale=30, dfs=[]))],
        traces=dict(quick=6000),
        mc=[dict(module='MCBwos', quick=['MCBwos.cfg', 'MCBwosQ.cfg'], thorough=['MCBwosT.cfg', 'MCBwosT4.cfg'])],
        need_events=['push_ret', 'pop_ret', 'st_ret'],
    ),
    'P14': dict(
        groups=[dict(bin='scopes', trace='TraceScopes:Simple', scenarios=['spawn_s', 'future_s', 'assoc_s']),
                dict(bin='scopes', trace='TraceScopes:Counting', scenarios=['spawn_c', 'future_c', 'assoc_c'])],
        mc=[dict(module='MCScopes', quick=['MCScopesW.cfg'], thorough=['MCScopesWT.cfg'])],
        need_events=['sta', 'cmp', 'f_done', 'sto', 'dea', 'w_thr'],
    ),
    'P15': dict(
        groups=[dict(bin='ascope', trace='TraceAsyncScope')],
        mc=[dict(module='MCAsyncScope', quick=['MCAsyncScope.cfg'], thorough=['MCAsyncScopeT.cfg'])],
        need_events=['sta', 'cmp', 'f_done', 'sto', 'e_done', 'e_run', 'w_thr'],
    ),
    'P16': dict(
        groups=[dict(bin='shared', trace='TraceShared')],
        mc=[dict(module='MCShared', quick=['MCShared.cfg'], thorough=['MCSharedT.cfg'])],
        need_events=['sta', 'cmp', 'f_done', 'sto', 'mk_thr', 'dea'],
    ),
    'P28': dict(
        groups=[dict(bin='sync_wait', trace='TraceSyncWait')], traces=dict(quick=5000),
        mc=[dict(module='MCSyncWait', quick=['MCSyncWait.cfg'], thorough=['MCSyncWaitT.cfg'])],
        need_events=['cmp', 'trun', 'thr', 'cth', 'des', 'ret'],
    ),
    'P22': tree(['bulk'], ['Bulk'], ['bk', 'cmp', 'sta'], traces=dict(quick=9000)),
    'P26': dict(
        groups=[dict(bin='tree', trace='TraceSenders', scenarios=['erase'], opts=dict(dfs=[], dfs_thorough=[], shards=6)),
                dict(bin='erase', trace='TraceErase', opts=dict(dfs=[], dfs_thorough=[]))],
        mc=[dict(module='MCErase', quick=['MCErase.cfg']), dict(module='MCSenders', quick=['MCSendersBasic.cfg'])],
        traces=dict(quick=9000), need_events=['cmp', 'sta', 'ss', 'look', 'swap', 'casg', 'masg'],
    ),
    'P23': tree(['task'], ['Task'], ['loc', 'ss', 'cmp', 'ax']),
    'P25': dict(
        groups=[dict(bin='sequence', trace='TraceSeqSenders', opts=dict(dfs=[], dfs_thorough=[], shards=2))],
        mc=[dict(module='MCSeqSenders', quick=['MCSeqSenders.cfg'], thorough=['MCSeqSendersT.cfg'])],
        need_events=['nd', 'cmp', 'ic', 'fin', 'nxx', 'ncx', 'icx'],
    ),
    'P29': dict(
        groups=[dict(bin='alloc', trace='TraceAlloc', opts=dict(dfs=[], dfs_thorough=[], shards=4))],
        mc=[dict(module='MCAlloc', quick=['MCAlloc.cfg'], thorough=['MCAllocT.cfg'])],
        need_events=['alf', 'at', 'fr', 'use', 'got', 'rel', 'cmp', 'thr', 'drop'],
    ),
    'P24': tree(['await'], ['Await'], ['loc', 'cmp', 'cth']),
    'P12': tree(['fin'], ['Fin'], ['sta', 'cmp']),
}

NOTE = ('The specification is model checked exhaustively for small constants; the binding to the code is by '
        'exhaustive-up-to-a-preemption-bound and randomised schedules of the scenarios in the harness, every distinct '
        'trace of which is checked against the specification. Assumes sequentially consistent interleavings of atomic '
        'operations (plus vector-clock race detection for the orderings), and trusts rt/vsched.cpp and TLC.')
NOT_CLAIMED = {}
