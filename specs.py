"""What each check explores. A stage is (harness entry point, preemption bound); `must` stages have to be
completed, `deep` stages follow while the time lasts. `codes`: the assertions the property owns (every other
kind of failure - panic, abort, deadlock, endless loop, invalid memory access - is always reported)."""
JOBS = 8
ASSUMPTIONS = [
    'sequentially consistent memory: weaker hardware orderings are not explored',
    'thread switches are taken before accesses to shared memory, at most the stated number of preemptions per run (switches at blocking points are free)',
    'the bitcode is compiled by rustc 1.75 (release, one codegen unit, overflow checks on) from /repo\'s current sources, its real dependencies and std; rustc and LLVM are trusted up to that point',
    'allocation never fails; addresses of distinct live objects differ and are compared symbolically only where the code compares them',
    'bounds: the stated number of operations, messages (8), actors (2), threads (4) per history; capacities none, 1 and 2',
]
def S(*hs): return [(h, 0) for h in hs]
def T(p, *hs): return [('h_c_' + h, p) for h in hs]
CHEAP = 'select scoped cap respur lag giveup scancel mbdrop mbdrop_b stopself rcancel rcancel2 last last2 fair prio bcancel count'.split() # completed with two preemptions in a few seconds
def M(*hs): return [('h_c_' + h, 2 if h in CHEAP else 1) for h in hs]
def run(must, quick=(), thorough=(), cover=(1,), features=''):
    return dict(must=must, deep=dict(quick=list(quick), thorough=list(quick) + [x for x in thorough if x not in quick]), cover=list(cover), features=features)
CHECKS = {}
def check(pid, codes, bounds, *runs, **kw): CHECKS[pid] = dict(codes=codes, bounds=bounds, runs=list(runs), **kw)
def R(*hs): return [(int(h.split('-')[0]), int(h.split('-')[-1])) for h in hs]

H_UNI = 'unicast histories (h_uni_a: sends and receives; h_uni_c: also cancelled sends and receives; the number is the number of operations): capacities none, 1, 2, priorities all 2^32 values, payloads symbolic; '
H_BC = 'broadcast histories (h_bcast, h_bcast_m with a mailbox drop): broadcasts and unicasts of symbolic priority on one or two mailboxes, capacities none, 1, 2; '
H_DISC = 'disconnection histories (h_disc): sends, two mailboxes with waiting, cancelled and handed-over receives, strong addresses, drops; capacities none, 1; '
H_RUN = 'event-loop histories (h_run): one or two xtra::run loops polled in any order or dropped, messages that stop one or all, broadcasts, symbolic priorities; '
H_RESP = 'response histories (h_resp): awaited, detached and unwanted responses, suspended handlers, abandoned handlers, undispatched messages, mailbox drop; '
H_REF = 'address histories (h_refs): clone, drop, downgrade, either, message channel, upgrade of up to 4 handles and 3 mailboxes; '
H_NEST = 'nested histories (h_nest): a handler that runs select, join or yield_once on its own context while unicast and broadcast messages come, next to another, lagging mailbox; capacities none, 1, 2; '
H_RECV = 'several receives (h_recv): up to three receives on one or two mailboxes, polled and abandoned at any time, between unicast and broadcast messages of any priority and the drop of the last strong address; '
H_LONG = 'long histories of few choices (h_long_uni: 14 messages, one urgent, one given up, capacities none, 1, 3, 8, 17; h_long_bc: 7 messages on four mailboxes; h_long_rx: up to 8 waiting receives, one abandoned); '
H_OWN = 'a message that owns the last strong address, a mailbox, a waiting receive or a waiting send, and is handled, dropped undispatched or half-way (h_drop_own); '
H_BULK = 'large numbers (h_bulk_many: 300 messages, mailboxes, waiting receives, addresses, joiners or waiting senders at once, one priority symbolic; h_bulk_cap: every capacity from 0 to 2^64-1, symbolic, against 16 (thorough: 40) unicasts or broadcasts, some of which are given up); '
H_PAIR = 'any two (h_c_pair) or three (h_c_tri) of fifteen operations (send, broadcast, receive, abandon, drop, clone, upgrade, join, stop) on a thread each, on an actor in any of six states, which then goes on until nothing is left; '
H_C = H_PAIR + 'threads (h_c_*): two to four threads of senders, actors, cancellations and drops, every interleaving up to the stated number of preemptions; '

check('C01', R('100-199', '600-699', '1100-1199', '2301-2303'), H_LONG + H_RECV + H_NEST + H_UNI + H_DISC + H_RESP + H_RUN + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_uni', 'h_long_rx', 'h_recv_4', 'h_nest_4', 'h_uni_c5', 'h_disc_6', 'h_resp_4', 'h_run_3') + M('pair') + T(0, 'tri') + M('2s1a', '1s2a', 'pull', 'stopself', 'rcancel', 'scancel', 'same', 'cap', 'giveup'), S('h_uni_c6', 'h_disc_7') + T(2, '1s2a', 'pull'), S('h_uni_a7', 'h_run_4', 'h_resp_5') + T(2, '2s1a') + T(1, 'stopall') + S('h_uni_c7')))
check('C02', R('200-299', '600-699', '2309'), H_LONG + H_RECV + H_NEST + H_BC + H_RUN + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_bc', 'h_recv_4', 'h_nest_4', 'h_bcast_4', 'h_bcast_m4') + M('pair') + T(0, 'tri') + M('bcancel', 'bcast1', 'bcast2', 'mixed', 'clone', 'lag', 'same'), T(2, 'clone', 'bcast1') + S('h_bcast_5'), S('h_bcast_m5', 'h_bcast_6') + T(2, 'bcast2'), cover=[1, 2, 3, 4, 5]))
check('C03', R('300-399'), H_LONG + H_RECV + H_NEST + H_UNI + H_BC + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_uni', 'h_long_bc', 'h_long_rx', 'h_recv_4', 'h_nest_4', 'h_uni_a5', 'h_bcast_4') + M('fair', '1s2a', 'pull'), S('h_uni_a6') + T(2, 'pull', '1s2a') + S('h_bcast_5'), S('h_bulk_more', 'h_uni_c6', 'h_uni_a7', 'h_bcast_6')))
check('C04', R('400-499', '904-906', '909', '912'), H_LONG + H_RECV + H_UNI + H_BC + H_RUN + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_uni', 'h_long_bc', 'h_recv_4', 'h_uni_a5', 'h_bcast_4', 'h_run_4', 'h_stopall_full') + M('prio', 'fair'), S('h_uni_a6', 'h_bcast_5'), S('h_bcast_m5', 'h_run_5', 'h_uni_a7', 'h_bcast_6')))
check('C05', R('500-599', '600-699', '1500-1599'), H_LONG + H_UNI + H_BC + H_DISC + H_RESP + H_BULK + H_C,
      run(S('h_bulk_many', 'h_bulk_cap_16', 'h_long_uni', 'h_long_bc', 'h_long_rx', 'h_uni_c5', 'h_bcast_4', 'h_bcast_m4', 'h_disc_6', 'h_resp_4') + M('fair', 'bcancel', 'scancel', 'cap', 'lag'), S('h_uni_c6', 'h_bcast_5'), S('h_bcast_m5', 'h_bulk_cap_40', 'h_uni_c7', 'h_bcast_6')))
check('C06', R('600-701', '705', '707-708', '736-737', '747', '784', '776-778', '1608', '819', '822', '834', '1880-1881', '2086-2087'), H_LONG + H_RECV + H_NEST + H_UNI + H_BC + H_DISC + H_RUN + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_uni', 'h_long_bc', 'h_long_rx', 'h_recv_4', 'h_nest_4', 'h_uni_c5', 'h_bcast_m4', 'h_disc_6', 'h_run_3') + M('pair') + T(0, 'tri') + M('fair', 'prio', 'bcancel', 'select', 'sink', '2s1a', '1s2a', 'bcast1', 'bcast2', 'mixed', 'scancel', 'clone', 'pull', 'mbdrop', 'mbdrop_b', 'stopself', 'rcancel', 'rcancel2', 'last', 'last2', 'cap', 'same', 'respur', 'lag', 'giveup'),
          T(2, 'pair', '1s2a', 'pull', 'same', 'mixed', 'clone', 'bcast1', '2s1a'), S('h_run_4', 'h_bcast_m5') + T(1, 'tri', 'stopall') + T(2, 'bcast2', 'scancel', 'stopself', 'rcancel2') + T(3, 'pull', '1s2a')))
H_PAN = 'panic histories (h_panic, h_panic_life): handlers, clones, started and stopped that panic, with messages, joiners and waiting senders about; '
check('C07', R('700-799', '2104', '2113', '2115-2118', '2167', '2169', '2172', '2174-2177', '114', '600-699', '1100-1199', '2305-2308'), H_DISC + H_RUN + H_RESP + H_PAN + H_BULK + H_C,
      run(S('h_bulk_many', 'h_disc_6', 'h_run_3', 'h_life', 'h_resp_4', 'h_panic_life', 'h_panic_4') + M('pair') + T(0, 'tri') + M('mbdrop', 'mbdrop_b', 'stopself', 'last'), T(2, 'pair') + S('h_disc_7'), S('h_run_4', 'h_resp_5') + T(1, 'tri') + T(3, 'mbdrop', 'mbdrop_b', 'stopself')))
check('C08', R('800-899', '2010', '600-699', '1000-1099', '1401-1406', '2143-2154'), H_OWN + H_RECV + H_REF + 'sinks of every origin (h_sink); ' + H_DISC + H_RUN + H_BULK + H_C,
      run(S('h_bulk_many', 'h_drop_own', 'h_recv_5', 'h_refs_4', 'h_sink_5', 'h_disc_6', 'h_disc_e5', 'h_run_3', 'h_life') + M('pair') + T(0, 'tri') + M('last', 'last2', '2s1a', '1s2a', 'bcast1'), T(2, 'pair') + S('h_refs_5', 'h_disc_7'), T(1, 'tri') + T(3, 'last', 'last2') + S('h_refs_6', 'h_run_4')))
check('C09', R('900-999', '600-699', '1000-1099', '1406'), H_RUN + 'h_stopall_full: a full mailbox and a busy actor, symbolic priorities; ' + H_C,
      run(S('h_run_4', 'h_stopall_full') + M('pair') + T(0, 'tri') + M('stopall'), S('h_run_5'), S('h_run_6') + T(2, 'stopall'), cover=[1, 2, 3, 4, 5, 6]))
check('C10', R('100-199', '600-699', '826', '900-1199'), H_RUN + 'h_life: start-up failing, start-up and stop suspended; ' + H_BULK + H_C,
      run(S('h_bulk_many', 'h_run_4', 'h_life') + M('2s1a', 'stopself', 'last'), S('h_run_5'), S('h_run_6') + T(2, '2s1a')))
check('C11', R('118', '700-799', '1100-1199'), H_LONG + H_NEST + H_RESP + H_UNI + H_RUN + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_uni', 'h_nest_4', 'h_resp_4', 'h_detach_a', 'h_detach_c', 'h_uni_c5', 'h_run_3') + M('pair') + T(0, 'tri') + M('2s1a', 'mixed', 'stopself', 'giveup'), S('h_resp_5') + T(2, 'mixed'), S('h_resp_6', 'h_run_4') + T(2, '2s1a') + T(1, 'stopall'), cover=[1, 2, 3, 4, 5, 6, 7]))
check('C12', R('1200-1299', '652'), 'h_join: histories of up to three waiters and scoped tasks, made through every kind of handle, polled, completed and abandoned, over two mailboxes; h_c_join: waits being set up while mailboxes go; h_c_scoped: a scoped task that completes meanwhile; ' + H_DISC + H_REF + H_RESP + H_BULK + H_C,
      run(S('h_bulk_many', 'h_join_4', 'h_disc_6', 'h_refs_4', 'h_resp_4') + T(2, 'join', 'join2', 'joinrun', 'scoped') + T(1, 'mbdrop', 'pair') + T(0, 'tri'), T(3, 'join', 'join2', 'joinrun', 'scoped') + T(2, 'mbdrop') + S('h_disc_7', 'h_refs_5'), T(3, 'mbdrop') + S('h_resp_5', 'h_join_5', 'h_join_6'), cover=[1, 2, 3, 4, 5]))
check('C13', R('1300-1399'), 'h_eq: every triple of either-addresses (and the strong and weak ones and the channels made from them) over two actors and both strengths, every order of the two actors\' addresses',
      run(S('h_eq')))
check('C14', R('1400-1499', '801-802', '808'), H_NEST + H_REF + H_DISC + H_RUN + H_RESP + H_C,
      run(S('h_nest_4', 'h_refs_4', 'h_disc_6', 'h_disc_e5', 'h_run_3', 'h_resp_4', 'h_life') + M('pair') + T(0, 'tri') + M('last', 'count'), S('h_refs_5', 'h_disc_e6', 'h_disc_7'), S('h_refs_6', 'h_run_4', 'h_resp_5') + [], cover=[1, 2, 3]))
check('C15', R('1500-1599', '521'), H_LONG + H_RECV + H_NEST + H_UNI + H_BC + H_DISC + H_RESP + H_RUN + 'h_stopall_full: requests to stop in a full mailbox; ' + H_BULK + H_C,
      run(S('h_bulk_many', 'h_bulk_cap_16', 'h_long_uni', 'h_long_bc', 'h_long_rx', 'h_recv_4', 'h_nest_4', 'h_uni_c5', 'h_bcast_4', 'h_bcast_m4', 'h_disc_6', 'h_resp_4', 'h_refs_4', 'h_run_3', 'h_stopall_full') + M('pair') + T(0, 'tri') + M('rcancel', 'same', 'cap'), S('h_uni_c6', 'h_bcast_5', 'h_run_4'), S('h_bcast_m5', 'h_bcast_6')))
check('C16', R('1600-1699', '503-504', '510-512', '600-699', '302', '402', '404', '105-106', '117', '541-542', '637-638', '2302-2303', '1502'), H_LONG + H_UNI + H_BC + H_BULK + H_C,
      run(S('h_bulk_cap_16', 'h_long_uni', 'h_uni_c5', 'h_bcast_4') + M('pair') + T(0, 'tri') + M('bcancel', 'scancel'), [] + S('h_uni_c6', 'h_bcast_5'), T(3, 'scancel') + S('h_bcast_6', 'h_uni_c7'), cover=[1, 2, 4]))
check('C17', R('217-219', '1700-1799', '100-199', '600-699', '805', '832', '1509', '2313'), H_LONG + H_RECV + H_DISC + H_UNI + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_rx', 'h_recv_5', 'h_disc_6', 'h_uni_c5') + M('pair') + T(0, 'tri') + M('rcancel', 'rcancel2'), [] + S('h_disc_7', 'h_uni_c6'), T(3, 'rcancel', 'rcancel2') + S('h_uni_c7'), cover=[1, 2, 3, 6, 7]))
check('C18', R('124-125', '657', '1142-1146', '2328', '1800-1899'), H_NEST + 'h_sel: histories of messages that do or do not stop the actor, over select, join and yield_once with a future that is woken, completes or waits, hand-driven; h_c_select: the future completed by one thread while another sends a message, tells the actor to stop or drops the last address; ',
      run(S('h_nest_5', 'h_sel_4') + T(2, 'select'), T(3, 'select') + S('h_sel_5'), S('h_sel_6'), cover=[1, 2, 3, 4, 5, 6, 7]))
check('C19', R('1900-1999'), 'h_evil: messages, responses and futures whose destructor (or Clone, when broadcast) drops addresses and mailboxes, sends or queries, destroyed (or cloned) at every point of a history; h_c_evil: the same racing with receives and mailbox drops; ',
      run(S('h_evil_4') + T(2, 'evil_s', 'evil_m'), T(3, 'evil_s', 'evil_m') + S('h_evil_5'), S('h_evil_6'), cover=[1, 2, 3, 4, 5]))
check('C20', R('2000-2099'), 'h_sink: histories of ready/send/flush/close on up to two sinks of every origin, receives, drops; h_c_sink: a sink, the actor and another sender (or the end of the mailbox) on threads; ',
      run(S('h_sink_5') + T(1, 'sink'), S('h_sink_6') + T(2, 'sink'), S('h_sink_7'), cover=[1, 2, 3, 4]))
check('C21', R('2100-2199'), 'h_panic: histories of ordinary and panicking unicast and broadcast messages of symbolic priority over two event loops, each panic (in a handler, or in the Clone of a broadcast message) caught as an executor would; h_panic_life: panics in started and stopped, at once or after a suspension; h_panic_own: what the panicking handler owns (the last strong address, a mailbox, a waiting receive or send); h_c_panic: the same with threads',
      run(S('h_panic_own', 'h_panic_life', 'h_panic_4') + M('panic'), S('h_panic_5'), S('h_panic_6'), cover=[1, 2, 3]))
check('C22', R('1-2399'), H_OWN + H_RESP,
      run(S('h_drop_own', 'h_resp_4'), S('h_resp_5'), S('h_resp_6'), cover=[1, 2, 3, 4, 5, 6, 7]))
check('C23', R('2300-2399', '2120', '2127'), H_LONG + 'h_leak: the histories of all other harnesses, counting heap allocations; ' + H_UNI + H_BC + H_DISC + H_RUN + H_RESP + H_BULK + H_C,
      run(S('h_bulk_many', 'h_long_uni', 'h_leak_uni_4', 'h_leak_chan_4', 'h_leak_disc_5', 'h_leak_dchan_4', 'h_leak_bcast_3', 'h_leak_run_3', 'h_leak_resp_3', 'h_leak_refs_4', 'h_leak_sel_3', 'h_leak_sink_4', 'h_leak_evil_3', 'h_leak_panic_3', 'h_leak_join_4', 'h_leak_nest_3', 'h_leak_recv_4',
            'h_uni_c5', 'h_bcast_m4', 'h_disc_6', 'h_resp_4') + M('pair') + T(0, 'tri') + M('bcancel', 'mbdrop', 'mbdrop_b', 'rcancel', 'scancel', 'last', 'cap', 'lag', 'giveup'), S('h_leak_resp_4', 'h_leak_uni_5', 'h_leak_bcast_4', 'h_leak_disc_6', 'h_leak_run_4', 'h_panic_4'), S('h_bcast_m5', 'h_disc_7', 'h_panic_5') + T(1, 'stopall')))
check('C24', R('1-2399', '2400-2499'), 'feature `instrumentation` on. h_instr: histories of unicast and broadcast messages sent inside and outside of spans, waiting, received, handled at once or with suspension, abandoned, over one or two mailboxes, with a subscriber that records every span, one that filters the library\'s spans, and none; the other histories once more with the recording subscriber: ' + H_UNI + H_BC + H_DISC + H_RUN + H_RESP + H_C,
      run(S('h_instr_4', 'h_uni_c4', 'h_bcast_4', 'h_resp_3', 'h_disc_5', 'h_run_3', 'h_panic_3') + M('2s1a', 'mixed', 'stopself', 'bcast1'), S('h_resp_4', 'h_uni_c5', 'h_disc_6'), T(2, '2s1a', 'mixed', 'bcast1') + S('h_instr_5'), cover=[1, 2, 3, 4, 5, 6, 7], features='instr'))
check('C25', R('1-1799', '2301-2323', '2500-2599'), 'the unicast, disconnection and address histories through strong, weak and either message channels (h_chan, h_dchan, h_refs), judged by the same model as for addresses; ' + H_REF,
      run(S('h_chan_4', 'h_dchan_5', 'h_refs_4', 'h_detach_c', 'h_eq'), S('h_dchan_6', 'h_chan_5', 'h_refs_5'), S('h_chan_6', 'h_refs_6'), cover=[1, 2, 3]))
check('C27', R('2700-2799'), 'h_spawn: one or two actors on one mailbox (capacity none or 1), spawned through each of the four functions onto a stand-in for the runtime that polls the spawned tasks in any order (tasks are cancelled or detached by dropped handles as by the real runtimes), messages, stops, drop of the address; ',
      run(S('h_spawn_6'), S('h_spawn_7'), S('h_spawn_8'), cover=[1, 2, 3, 4, 5], features='spawn'))
check('C26', R('2600-2699'), 'h_derive: type definitions of every kind with up to 2 (thorough: 3) parameters (the number in the name), each a lifetime, type or const parameter with no bound, bounds, ?Sized, a default or an attribute, five where clauses, three visibilities, a raw identifier; the output of the derive function is parsed and compared clause by clause; the macro runs as an ordinary library on proc_macro2 token streams; ',
      run(S('h_derive_0', 'h_derive_1', 'h_derive_2'), [], S('h_derive_3'), cover=[1, 2, 3], features='derive'))
check('C28', R('2800-2899'), 'h_proto: histories of polls, priorities (all 2^32 values), drops, receives and repeated polls on a send, broadcast, channel send or detached send, next to another message; capacities none and 1; ',
      run(S('h_proto_4', 'h_proto_5'), S('h_proto_6'), S('h_proto_7'), cover=[1, 2, 3, 4, 5]))
check('C29', R('2900-2999'), 'h_grow: two operations (of 18: sends, broadcasts, receives, joins, scoped, detached, selected, sink items, event loops, clones, whole deliveries) begun and given up in turn, nested or overlapping, or begun once and polled, 70 times (h_grow_more: 150), with or without others waiting; h_grow_live: one run, select, join or loop of yield_once that handles 70 messages (h_grow_live_more: 400) of one of 7 kinds; mailbox full, empty, bounded or not; priorities up to 8; live heap after the 10th and the last time differs by at most 20 allocations and 1200 bytes; ',
      run(S('h_grow_one', 'h_grow_live', 'h_grow_two'), S('h_grow_live_more', 'h_grow_more'), cover=[1, 2, 3, 4, 5]))
for p_ in ('C01', 'C02', 'C03', 'C05', 'C08', 'C15'):
    CHECKS[p_]['runs'][0]['must'].append(('h_bulk_64k', 0))
    CHECKS[p_]['bounds'] += 'h_bulk_64k: 66000 unicast messages (unbounded, or a mailbox with room for just these), broadcasts, or strong addresses; '
UNW = {'uni_4': 'C01 C05 C06 C11 C15 C16 C17 C23', 'disc_5': 'C01 C06 C07 C08 C12 C14 C17 C23', 'bcast_4': 'C02 C05 C06 C15 C16 C23', 'run_3': 'C01 C08 C10 C11 C23', 'resp_4': 'C07 C11 C22 C23',
       'refs_4': 'C08 C12 C14 C23', 'recv_4': 'C01 C02 C06 C08 C15 C17', 'join_4': 'C12', 'sink_4': 'C08 C20'}
for u_, ps_ in UNW.items():
    for p_ in ps_.split():
        CHECKS[p_]['runs'][0]['must'].append(('h_unw_' + u_, 0))
        if 'h_unw' not in CHECKS[p_]['bounds']: CHECKS[p_]['bounds'] += 'h_unw: shorter such histories in which whatever is given up is destroyed by a panic that unwinds its owner; '
# what a single path may take; the default is 6e7 instructions; these are stopped by the time
MAX_STEPS = {'h_bulk_64k': 10 ** 12, 'h_grow_live_more': 10 ** 12}
MAX_SECS = {'h_bulk_64k': 60, 'h_bulk_cap_16': 200} # for a tree that is slow with that many
CODES = {}
