"""Which scenario, at which bound, decides which property."""

OUTSIDE = [
    'threads, operations per thread and capacity are those written in the scenario; longer histories are outside the bound',
    'at most `rounds` turns per thread in a round-robin schedule (every interleaving that fits, all preemption points at '
    'atomic operations, locks, parking and wake-ups)',
    'retry loops of the threads are cut at the unroll bound (u_in inner, u_out outer): longer waits are outside the bound',
    'values follow sequential consistency; data races are decided by happens-before over the actual memory orderings',
    'parking_lot mutex slow path, std park/unpark, the allocator and the clock are models of their documented contracts',
    'LLVM optimisation (opt) and llc are trusted; element types are the instantiations in the scenario',
]

SCEN = {}
PLAN = {}


def S(props, name, rounds=(3,), thorough=None, flavours=None, tag=None, **kw):
    """register scenario `name` (for each suffix in flavours) under the properties;
    tag distinguishes runs of one scenario with different options"""
    names = [name + f + ('#' + tag if tag else '') for f in (flavours or [''])]
    for n in names:
        d = dict(rounds=list(rounds), **kw)
        if thorough:
            d['rounds_thorough'] = list(thorough)
        assert SCEN.get(n, d) == d, n
        SCEN[n] = d
        for p in ([props] if isinstance(props, str) else props):
            if n not in PLAN.setdefault(p, []):
                PLAN[p].append(n)


NR = dict(race=False)
Q = ('_d', '_s')

# ------------------------------------------------------------------ queues
for c in '123':
    S('C01', 'c01_spsc%s' % c, (2, 3), (4, 5), Q, opts=NR)
    S('C01', 'c01_wrap%s' % c, (2, 3), (4,), Q, opts=NR)
for c in '12':
    S('C01', 'c01_mpsc%s' % c, (2, 3), (4,), Q, opts=NR)
    S('C01', 'c01_mpmc%s' % c, (2,), (3,), Q, opts=NR)
    S('C01', 'c01_spmc%s' % c, (2, 3), (4,), Q, opts=NR)
for c in '123':
    S(['C01', 'C03', 'C07'], 'hist%s' % c, (1,), None, Q, opts=dict(race=False, u_seq=12))

# after any number of earlier laps
for c in '123':
    S(['C01', 'C03', 'C07'], 'laps%s' % c, (2,), (3,), ('_s',), opts=NR)

# ---------------------------------------------------------------- channels
F4 = ('_ad', '_as', '_bd', '_bs')
FA = ('_ad', '_as')
FB = ('_bd', '_bs')


def C(pa, pb, name, rounds, thorough=None, **kw):
    """one scenario of all four flavours, under different properties for async and blocking"""
    S(pa, name, rounds, thorough, FA, opts=NR, **kw)
    S(pb, name, rounds, thorough, FB, opts=NR, **kw)


S('C11', 'claps1', (2,), (3,), ('_as', '_bs'), opts=NR)
S('C11', 'claps2', (2,), (3,), ('_as', '_bs'), opts=NR, tier='thorough')
S('C12', 'clapx', (2, 3), (4,), ('_as', '_bs'), opts=NR)
C(['C08', 'C11'], ['C09', 'C11'], 'fifo1', (2,), (3,))
C(['C08', 'C11'], ['C09', 'C11'], 'fifo2', (2,), (2, 3), tier='thorough')
C(['C10', 'C11'], ['C10', 'C11'], 'two1', (2,), (3,))
C(['C10', 'C11'], ['C10', 'C11'], 'two2', (2,), (2, 3), tier='thorough')
C(['C10'], ['C10'], 'twor1', (2,), (3,))
C(['C08'], ['C09'], 'wake2', (2,), (3,))
C(['C08', 'C11'], ['C09', 'C11'], 'leave2', (2,), (3,))
C(['C08', 'C11'], ['C09', 'C11'], 'leave0', (3,), (4,))
C(['C08', 'C11'], ['C09', 'C11'], 'clone1', (2,), (3,))
S('C10', 'full1', (2,), (3,), FA, opts=NR)
S('C10', 'full1', (3,), (3, 4), FB, opts=NR)
C(['C10'], ['C10'], 'full2', (2,), (3,))
C(['C12', 'C15'], ['C12', 'C15'], 'shut1', (3,), (3, 4))
S('C12', 'shut2', (2,), (3,), FA, opts=NR)
S('C12', 'shut2', (2, 3), (3, 4), FB, opts=NR)
# a parked thread may wake up without reason
SP = dict(race=False, spurious_park=True)
S('C09', 'fifo1', (2,), (2, 3), FB, tag='sp', opts=SP, tier='thorough')
S(['C09'], 'leave0', (2, 3), (4,), FB, tag='sp', opts=SP)
S(['C09'], 'wake2', (2,), (3,), FB, tag='sp', opts=SP)
S('C10', 'full1', (2,), (3,), FB, tag='sp', opts=SP)
S('C12', 'shut1', (2, 3), (4,), FB, tag='sp', opts=SP)

# ------------------------------------------------------- waiting async tasks
for n in ('cancel_a', 'cancel_b', 'cancel_c', 'cancel_d', 'cancel_e'):
    S(['C13'] + (['C12'] if n == 'cancel_e' else []), n, (3,), (4,), FA, opts=NR)
S(['C12', 'C13'], 'cancel_f', (3,), (4,), FA, opts=NR)
S('C08', 'pwait', (2,), (3,), FA, opts=NR)
S('C08', 'pmigrate', (2,), (3,), FA, opts=NR)
S(['C09', 'C11'], 'iter2', (2,), (3,), FB, opts=NR)
S(['C10', 'C13'], 'migrate', (3,), (4,), FA, opts=NR)
for n in ('rmigrate', 'rwait'):
    S('C08', n, (3,), (4,), FA, opts=NR)
S(['C08', 'C13'], 'rcancel', (3,), (4,), FA, opts=NR)
S('C12', 'shutw', (3,), (4,), FA, opts=NR)
S('C10', 'fullw', (3,), (4,), FA, opts=NR)
S(['C10', 'C13'], 'shist1', (1,), None, FA, opts=NR)
for n in ('shist0', 'shist2', 'shist1x', 'shist2x'):
    S(['C10', 'C13'], n, (1,), None, FA, opts=NR, tier='thorough')
S('C10', 'order', (1,), None, FA, opts=NR)

# --------------------------------------------------------------- sequential
for n in ('errs1', 'errs2'):
    S('C15', n, (1,), None, F4, opts=NR)
S('C15', 'errcls', (1,), opts=NR)
S('C15', 'errq', (1,), opts=NR)
S('C17', 'closed_s', (1,), None, F4, opts=NR)
S('C17', 'closed_c', (2, 3), (4,), F4, opts=NR)
S(['C03', 'C11'], 'chist1', (1,), None, F4, opts=NR)
S(['C11'], 'chist2', (1,), None, F4, opts=NR, tier='thorough')
S('C16', 'split', (2, 3), (4,), ('_as', '_bs'), opts=NR)

# --------------------------------------------------------------------- time
for n in ('trecv', 'trecv2', 'tsend', 'tsend2'):
    S(['C14', 'C15'] if n in ('trecv', 'tsend') else 'C14', n, (2, 3), (3, 4), FB, opts=NR)
S(['C14', 'C15'], 'tsendr', (2, 3), (3, 4), FB, opts=NR)
S('C14', 'tsteal', (2, 3), (3, 4), FB, opts=NR)
S(['C14', 'C15'], 'terrs', (1,), None, FB, opts=NR)
for n in ('tpr', 'tps', 'tpp'):
    S('C14', n, (2, 3), (4,), FB, opts=dict(race=False, clock='prompt'))
for n in ('tmaxr', 'tmaxs'):
    S('C14', n, (2, 3), (4,), FB, opts=NR)
for n in ('trecv3', 'tsend', 'tsendr'):
    S('C14', n, (2,), (3,), FB, tag='sp', opts=SP)

# ----------------------------------------------------------------- progress
for n in ('prog1', 'prog2', 'hold1', 'hold2'):
    S('C04', n, (2, 3), (4,), Q, opts=dict(race=False), nofinish=True)
for n in ('self1', 'self2'):
    S('C04', n, (1,), None, Q, opts=dict(race=False))

# an operation in progress finishes although everybody else has stopped
SA = dict(race=False, solo='any')
for n in ('prog1', 'hold1'):
    S('C04', n, (2,), (3,), Q, tag='solo', opts=SA, nofinish=True)
S('C04', 'c01_mpmc1', (2,), (3,), Q, tag='solo', opts=SA)
S('C04', 'cprogx', (2,), (3,), F4, tag='solo', opts=SA)

# ---------------------------------------------------------------- unwinding
for n in ('unwtx', 'unwref'):
    S('C18', n, (2,), (3,), F4, opts=NR)
S('C18', 'unwtx2', (2,), (3,), F4, opts=NR)
S('C18', 'unwrx', (2, 3), (4,), F4, opts=NR)
for n in ('unwq1', 'unwq2'):
    S('C18', n, (1,), None, Q, opts=NR)

# wakers that use the channel
S('C22', 'rewk_c2', (1,), None, FA, opts=NR, tier='thorough')
for n in ('rewk_c0', 'rewk_c1', 'redrop'):
    S(['C19', 'C22'], n, (1,), None, FA, tag='nostd', config='nostd', opts=NR)
for n in ('rewk_c0', 'rewk_c1', 'rewk_c3', 'rewk_r0', 'rewk_r1', 'rewk_r3', 'redrop', 'rercv0', 'rercv1', 'rercv2'):
    S('C22', n, (1,), None, FA, opts=NR)

# user code that panics
UW = dict(config='unwind', opts=NR)
S('C18', 'pclr', (3,), (4,), FA, **UW)
S('C18', 'pcls', (3,), (4,), FA, **UW)
S('C18', 'pclc', (1,), None, FA, **UW)
S('C18', 'pwkr', (2,), (3,), FA, **UW)
S('C18', 'pwks', (3,), (4,), FA, **UW)
S('C18', 'pdie', (2,), (3,), F4, **UW)
S('C18', 'pdier', (2,), (3,), F4, **UW)
for n in ('pwith1', 'pwith2'):
    S('C18', n, (1,), None, Q, **UW)
for n in ('pel1', 'pel2', 'pdr1', 'pdr2'):
    S('C18', n, (1,), None, Q, **UW)

# ------------------------------------------------- capacity, full and empty
for n in ('cap', 'capc'):
    S('C03', n + '1', (2, 3), (4,), Q, opts=NR)
    S('C03', n + '2', (2, 3), (4,), Q, opts=NR)
for n in ('truth1', 'truth2', 'truth3', 'truthm1', 'truthm2'):
    S('C03', n, (2, 3), (4,), Q, opts=NR)
for n in ('ctruth1', 'ctruth2'):
    S('C03', n, (2, 3), (4,), F4, opts=NR)
for n in ('len1', 'len2', 'len3'):
    S('C07', n, (2, 3), (4,), Q, opts=NR)
for n in ('cprog1', 'cprog2', 'cprogw'):
    S('C04', n, (2,), (3,), F4, opts=NR, nofinish=True)
S('C03', 'zero', (1,), None, Q + F4, config='std-rel', opts=dict(race=False, expect_panic=True), nofinish=True)

# ------------------------------------------------------ elements, recycling
for n in ('own1', 'own2', 'own3'):
    S('C05', n, (1,), None, Q, opts=NR)
for n in ('ownc1', 'ownc2'):
    S('C05', n, (2, 3), (4,), Q, opts=NR)
for n in ('cown1', 'cown2'):
    S('C05', n, (1,), None, F4, opts=NR)
S('C05', 'cownc1', (2,), (3,), F4, opts=NR)
for n in ('cowns1', 'cowns2'):
    S('C05', n, (2, 3), (4,), F4, opts=NR)
for c in '123':
    S('C05', 'lapso%s' % c, (1,), None, ('_s',), opts=NR)
S('C05', 'cownf', (1,), None, FA, opts=NR)
for n in ('rec1', 'rec2'):
    S('C06', n, (1,), None, Q, opts=NR)
for n in ('recc1', 'recc2'):
    S('C06', n, (2, 3), (4,), Q, opts=NR)
for n in ('recch1', 'recch2'):
    S('C06', n, (2,), (3,), F4, opts=NR)
S('C06', 'recp', (1,), None, ('_ad', '_bd'), opts=NR)
for n in ('vec', 'str', 'deq', 'heap', 'q', 'map', 'set'):
    S('C06', 'wcap_' + n, (1,), opts=NR)
for n in ('rec_arc', 'rec_def'):
    S('C06', n, (1,), opts=NR)

# --------------------------------------------------------------- data races
RC = {}
for n in ('c01_spsc1', 'c01_spsc2', 'c01_wrap1', 'c01_wrap2', 'c01_mpsc1', 'c01_mpsc2', 'c01_spmc1', 'c01_spmc2', 'c01_mpmc1', 'ownc1', 'cap1'):
    S('C02', n, (2,), (2, 3), Q, tag='race', opts=RC)
for n in ('excl1', 'excl2'):
    S('C02', n, (2, 3), (2, 3), Q, opts=NR)
for n in ('wake2', 'leave0', 'clone1', 'full1', 'shut1', 'cowns1', 'cownc1'):
    S('C02', n, (3,) if n == 'full1' else (2,), (2, 3), F4, tag='race', opts=RC)
S('C02', 'leave2', (2,), (2, 3), F4, tag='race', opts=RC, tier='thorough')
for n in ('full1', 'shut1'):
    S('C02', n, (3,) if n == 'full1' else (2,), (2, 3), FB, tag='racesp', opts=dict(spurious_park=True))
for n in ('cancel_a', 'cancel_b', 'cancel_c', 'cancel_d', 'cancel_e', 'migrate', 'rmigrate', 'rwait', 'rcancel', 'shutw', 'fullw'):
    S('C02', n, (3,) if n == 'fullw' else (2,), (2, 3), FA, tag='race', opts=RC)
S('C02', 'split', (2,), (2, 3), ('_as', '_bs'), tag='race', opts=RC)
for n in ('tsend', 'trecv'):
    S('C02', n, (2,), (2, 3), FB, tag='race', opts=RC)

# ------------------------------------------------------------------- no_std
for n in ('c01_spsc2', 'c01_mpsc1', 'c01_spmc1'):
    S('C19', n, (2,), (2, 3), Q, tag='nostd', config='nostd', opts=RC)
for n in ('hist2', 'own1'):
    S('C19', n, (1,), None, Q, tag='nostd', config='nostd', opts=NR)
for n in ('wake2', 'leave2', 'full1', 'shut1', 'clone1'):
    S('C19', n, (2,), (2, 3), FA, tag='nostd', config='nostd', opts=NR)
S('C19', 'fifo1', (2,), (2, 3), FA, tag='nostd', config='nostd', opts=NR, tier='thorough')
for n in ('cancel_a', 'cancel_b', 'cancel_c', 'cancel_d', 'cancel_e', 'migrate', 'rmigrate', 'rwait', 'rcancel', 'shutw', 'fullw'):
    S('C19', n, (2,), (2, 3), FA, tag='nostd', config='nostd', opts=RC)
S('C19', 'order', (1,), None, FA, tag='nostd', config='nostd', opts=NR)

# --------------------------------------------------------------- allocation
NA = dict(race=False, noalloc=True)
for n in ('c01_wrap2', 'c01_mpsc1'):
    S('C21', n, (2,), (2, 3), Q, tag='na', opts=NA)
for n in ('full1', 'shut1', 'clone1', 'leave0'):
    S('C21', n, (2,), (2, 3), F4, tag='na', opts=NA)
for n in ('cancel_a', 'migrate', 'rwait', 'fullw'):
    S('C21', n, (2,), (2, 3), FA, tag='na', opts=NA)
for n in ('tsend', 'trecv'):
    S('C21', n, (2,), (2, 3), FB, tag='na', opts=NA)
S('C21', 'na_q', (1,), opts=NA)
S('C21', 'na_ch', (1,), None, ('_as', '_bs'), opts=NA)

# ------------------------------------------------------------ endless loops
# the others have finished or sleep: the remaining thread finishes or falls asleep
SL = dict(race=False, solo='live')
for n in ('rmigrate', 'rwait', 'rcancel'):
    S('C08', n, (2,), (3,), FA, tag='live', opts=SL)
S('C08', 'leave0', (2,), (3,), FA, tag='live', opts=SL)
S('C09', 'leave0', (2,), (3,), FB, tag='live', opts=SL)
for n in ('cancel_a', 'cancel_b', 'cancel_c', 'cancel_d'):
    S('C13', n, (2,), (3,), FA, tag='live', opts=SL)
for n in ('migrate', 'fullw'):
    S('C10', n, (2,), (3,), FA, tag='live', opts=SL)
S('C12', 'shutw', (2,), (3,), FA, tag='live', opts=SL)
S('C12', 'shut1', (2,), (3,), F4, tag='live', opts=SL)
S('C10', 'full1', (2,), (3,), FB, tag='live', opts=SL)
S('C14', 'tsteal', (2,), (3,), FB, tag='live', opts=SL)

S('C12', 'shutf', (2,), (3,), F4, opts=NR)
S('C12', 'shutf', (2,), (3,), F4, tag='live', opts=SL)
S('C10', 'steal', (2,), (3,), F4, opts=NR)
S('C10', 'steal', (2,), (3,), F4, tag='live', opts=SL)

# ------------------------------------------------------------- larger rings
for c in '4578':
    S(['C01', 'C03', 'C07'], 'ring' + c, (1,), None, Q, opts=dict(race=False, u_seq=12))

# ------------------------------------------------------------- weak memory
# one store, chosen freely, may stay invisible to other threads for as long as the memory model allows
WK = dict(race=False, weak=True)
for n in ('wake2', 'leave0', 'clone1'):
    S('C08', n, (2,), (3,), FA, tag='weak', opts=WK)
    S('C09', n, (2,), (3,), FB, tag='weak', opts=WK)
for n in ('rmigrate', 'rwait', 'rcancel'):
    S('C08', n, (2,), (3,), FA, tag='weak', opts=WK)
S('C08', 'pwait', (2,), None, FA, tag='weak', opts=WK, tier='thorough')
for n in ('c01_spsc1', 'c01_spsc2', 'c01_wrap1', 'c01_mpsc1', 'c01_spmc1', 'c01_mpmc1'):
    S('C01', n, (2,), (3,), Q, tag='weak', opts=WK)
S('C05', 'ownc1', (2,), (3,), Q, tag='weak', opts=WK)
S('C05', 'cowns1', (2,), (3,), F4, tag='weak', opts=WK)
S('C11', 'leave2', (2,), (2,), F4, tag='weak', opts=WK, tier='thorough')
S('C11', 'leave0', (3,), (4,), F4, tag='weak3', opts=WK)
S('C10', 'full1', (3,), (3,), FB, tag='weak', opts=WK)
S('C10', 'full1', (3,), None, FA, tag='weak', opts=WK, tier='thorough')
S('C10', 'migrate', (2,), (3,), FA, tag='weak', opts=WK)
S('C10', 'fullw', (3,), (4,), FA, tag='weak', opts=WK)
S('C12', 'shut1', (2,), (3,), F4, tag='weak', opts=WK)
S('C12', 'shutw', (2,), (3,), FA, tag='weak', opts=WK)
for n in ('cancel_a', 'cancel_b', 'cancel_c', 'cancel_d', 'cancel_e'):
    S('C13', n, (2,), (3,), FA, tag='weak', opts=WK)
for n in ('tsend', 'trecv', 'tsendr'):
    S('C14', n, (2,), (3,), FB, tag='weak', opts=WK)
S('C16', 'split', (2,), (3,), ('_as', '_bs'), tag='weak', opts=WK)
for n in ('c01_mpsc1', 'c01_spmc1'):
    S('C19', n, (2,), (3,), Q, tag='nostdweak', config='nostd', opts=WK)
S('C19', 'fullw', (3,), (4,), FA, tag='nostdweak', config='nostd', opts=WK)
for n in ('wake2', 'shut1', 'cancel_a', 'cancel_b', 'cancel_d', 'migrate', 'rwait', 'shutw'):
    S('C19', n, (2,), (3,), FA, tag='nostdweak', config='nostd', opts=WK)
# data races in such executions
RW = dict(weak=True)
for n in ('c01_spsc1', 'c01_mpsc1', 'c01_spmc1', 'c01_mpmc1', 'ownc1'):
    S('C02', n, (2,), (3,), Q, tag='raceweak', opts=RW)
for n in ('leave0', 'shut1', 'cowns1'):
    S('C02', n, (2,), (3,), F4, tag='raceweak', opts=RW)
for n in ('cancel_a', 'rmigrate', 'migrate', 'rwait', 'shutw'):
    S('C02', n, (2,), (3,), FA, tag='raceweak', opts=RW)
