"""What each engine is compiled from, and which engines decide which property."""
BASE = '-std=c++14 -O0 -w -fsanitize=address -I$REPO/include -I$SIM'
COV = BASE + ' -fsanitize-coverage=trace-pc-guard'
CORE = BASE.replace('-O0', '-O1')
WRAP = ' '.join('-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'strdup'))
LINK = '-fsanitize=address -fsanitize-coverage=trace-pc-guard %s -l:libyaml.a' % WRAP

ENGINES = {
    'hist': {
        'objs': [('$SIM/%s.cc' % f, COV.replace('=trace', '=func,trace')) for f in ('hist', 'hist_shared', 'hist_unsafe', 'hist_skinny', 'hist_sim', 'routes_shared', 'routes_unsafe', 'routes_skinny', 'routes_sim', 'equal_shared', 'equal_unsafe', 'equal_skinny', 'equal_sim')] +
                [('$SIM/%s.cc' % f, CORE) for f in ('rc', 'damage', 'simalloc', 'simcore')],
        'link': LINK,
    },
    'wire': {
        'objs': [('$SIM/%s.cc' % f, COV) for f in ('wire', 'wire_shared', 'wire_skinny')] +
                [('$SIM/%s.cc' % f, CORE) for f in ('rc', 'simalloc', 'simcore')],
        'link': LINK,
    },
}

# Conversions between native types and values.
ENGINES['casts'] = {
    'objs': [('$SIM/casts_%s.cc' % f, COV) for f in ('seq_shared', 'seq_skinny', 'map_shared', 'map_skinny', 'misc_shared', 'misc_skinny', 'deep_shared', 'deep_skinny', 'shared', 'skinny')] +
            [('$SIM/%s.cc' % f, CORE) for f in ('casts', 'rc', 'simalloc', 'simcore')],
    'link': LINK,
}

# The library's owning building blocks by themselves.
ENGINES['own'] = {
    'objs': [('$SIM/own_world.cc', COV.replace('=trace', '=func,trace'))] + [('$SIM/%s.cc' % f, CORE) for f in ('own', 'rc', 'simalloc', 'simcore')],
    'link': LINK,
}

# The C interface: its own sources, compiled from the working tree.
ENGINES['capi'] = {
    'objs': [('$REPO/src/%s.cc' % f, COV) for f in ('generic', 'heap', 'buffer')] +
            [('$SIM/%s.cc' % f, COV.replace('-O0', '-O1')) for f in ('capi_safe', 'capi_unsafe', 'capi_world')] +
            [('$SIM/%s.cc' % f, CORE) for f in ('capi', 'damage', 'simalloc', 'simcore')],
    'link': LINK,
}

# The threads engine: the library under the compiler's thread instrumentation, served by
# the simulator's own runtime (thrt.cc) instead of the compiler's.
TSAN = ('-std=c++14 -w %s -fsanitize=thread -I$REPO/include -I$SIM -D_GLIBCXX_EXTERN_TEMPLATE=0 '
        '-fno-builtin-memcmp -fno-builtin-strlen -fno-builtin-strcmp -fno-builtin-memchr')
PLAIN = '-std=c++14 -w -O2 -I$REPO/include -I$SIM'
TLINK = WRAP + ' ' + ' '.join('-Wl,--wrap=' + f for f in ('memcmp', 'strlen', 'strcmp', 'memchr')) + ' -l:libyaml.a -lpthread'
ENGINES['threads'] = {
    'objs': [('$SIM/%s.cc' % f, TSAN % '-O1') for f in ('thr_shared', 'thr_skinny', 'thtree')] +
            [('$SIM/%s.cc' % f, PLAIN) for f in ('thrt', 'threads', 'simcore')],
    'link': TLINK,
}

ENGINES['cthreads'] = {
    'objs': [('$REPO/src/%s.cc' % f, TSAN % '-O1') for f in ('generic', 'heap', 'buffer')] +
            [('$SIM/%s.cc' % f, TSAN % '-O1') for f in ('cthr', 'thtree')] +
            [('$SIM/%s.cc' % f, PLAIN) for f in ('thrt', 'cthreads', 'simcore')],
    'link': TLINK,
}

HRULE = ('One evaluation is one simulated run: a seeded history of operations over up to eight handles of every kind '
         '(mutable, finalized, packet, views, typed wrappers, iterators, raw bytes) executed against the real library under one of four '
         'reference counters, with seeded allocation failures; after every operation every live handle is read in full and compared with its '
         'own reference value. Runs are distinct by the hash of their sequence of (operation, kinds of all live handles, operands).')

WRULE5 = ('One evaluation is one simulated run: senders encode seeded values, a simulated channel on virtual time loses, duplicates, delays, overlaps and reorders the '
          'chunks and partitions, receivers take delivery through one of nine ways into exactly-sized (misaligned, stale, reused) memory, convert and re-send '
          'what they hold; every receiver is read in full against the value that was sent. Runs are distinct by the hash of their sequence of (operation, operands, clock).')
WRULE6 = ('One evaluation is one simulated run of up to sixty packets corrupted in transit (bit flips, lost and spliced parts, lying offsets, sizes, counts, types and key prefixes, '
          'aliased entries); each is validated by every form of validation on a step budget proportional to its length, with everything around it poisoned, and if accepted '
          'read through every accessor. Runs are distinct by the hash of their sequence of (operation, operands).')
WRULE7 = ('One evaluation is one simulated run: packets appended to a simulated disk with syncs, crashes that tear the last writes at any byte, and recovery after each; and every proper '
          'prefix (all of them up to 400 bytes, a sample beyond) of seeded packets. Runs are distinct by the hash of their sequence of (operation, operands).')
WSTUB = ['network: simulated channel on virtual time', 'disk: simulated append-only file with synced length', 'the allocator: simulated, over AddressSanitizer']

TRULE = ('One evaluation is one simulated execution of two to four threads, each with its own seeded program over its own handles to values shared with the others (copies, '
         'children, converted and wrapped forms, values handed over); a seeded schedule decides every switch at atomic operations and plain accesses and which older '
         'value a weak atomic load returns; every library access is checked for being ordered by happens-before and within live storage, every thread compares what it '
         'reads with its own reference, and storage must be released when all handles are gone. Runs are distinct by the hash of the schedule followed and the programs run.')
TSTUB = ['the scheduler: seeded, one thread at a time, switches at any instrumented access', 'the memory model: happens-before clocks and store histories for atomics, with seeded stale loads',
         'the allocator: simulated, never reuses storage within a run, seeded contents, injected failures', 'red-black tree helpers of libstdc++: the same algorithm, compiled as instrumented code']

CRULE = ('One evaluation is one simulated run: a seeded history of calls of the C interface (typed and generic forms, both counters, variadic construction, conversions, text, raw bytes, '
         'iterators, deliberately mismatched handles) over up to eight handles, with seeded allocation failures; every call\'s code and message is compared with the outcome the reference '
         'model allows, and after every operation every live handle is read in full through the C and through the C++ interface. Runs are distinct by the hash of their sequence of (operation, kinds of the live handles, operands).')
CRULE15 = ('One evaluation is one simulated run: a seeded history in which values are handed between the C and the C++ interface in both directions (copied, moved, children of one side held by '
           'the other), changed and destroyed on either side in any order, with seeded allocation failures; after every operation every handle of both sides is read in full through both interfaces, '
           'and storage must be released when both are done. Runs are distinct by the hash of their sequence of (operation, kinds of the live handles, operands).')

CTRULE = ('One evaluation is one simulated execution of two to four threads calling the C interface, each with its own seeded program of succeeding and failing calls over its own handles to values '
          'shared with the others; a seeded schedule decides every switch at atomic operations and plain accesses and which older value a weak atomic load returns; every failing call\'s code and message is '
          'compared with what it says when alone and re-read while the others run, every thread compares what it reads with its own reference, and every library access is checked for being ordered by '
          'happens-before and within live storage. Runs are distinct by the hash of the schedule followed and the programs run.')

XRULE = ('One evaluation is one simulated run: a seeded history of conversions between native objects of 45 types (numbers, text, every standard sequence, set and map, optionals, variants, tuples, '
         'times, user types, handles, nested in each other) and up to six live handles of every kind, under two counters, with seeded allocation failures: values made from natives, stored into live '
         'values, read back, refused and compared in both directions, against a model of every type; after every operation every live handle is read in full. '
         'Runs are distinct by the hash of their sequence of (operation, kinds of the live handles, native type, style).')

ORULE = ('One evaluation is one simulated run: a seeded history of operations on four optionals, four variants and five owning pointers of one of six families (skinny, unsafe, and shareable over four '
         'counters) whose objects can lead to one another, with constructors, assignments and allocations failing; every object made, copied, moved, assigned and destroyed is registered by address, and after '
         'every operation every holder is read and counted against a model. Runs are distinct by the hash of their sequence of (operation, what is held, operands).')

CHECKS = {
    'C20': {'parts': [('own', 'C20', 1)], 'rule': ORULE, 'stub': ['the allocator: simulated, seeded contents, injected failures, over AddressSanitizer', 'the objects held: instrumented types whose constructors and assignments fail when the seed says'],
            'technique': 'deterministic simulation with fault injection: seeded histories of the owning types with failing constructors and allocations, against a model and a registry of live objects',
            'note': 'Seeded search over simulated histories; the types held are two instrumented classes, int and std::string. Trusts the model, AddressSanitizer and the compiler. Compiled as C++14, where the library uses its own optional and variant.'},
    'C17': {'parts': [('casts', 'C17', 1)], 'rule': XRULE, 'note': 'Seeded search over simulated histories of conversions by the real library for a list of 45 native types; other types are not covered. Trusts the reference model of each type, AddressSanitizer and the compiler.'},
    'C13': {'parts': [('cthreads', 'C13', 1)], 'rule': CTRULE, 'stub': TSTUB, 'quick': 50, 'states': 'hash of the schedule followed (every switch taken, its place and every stale load)'},
    'C12': {'parts': [('capi', 'C12', 1)], 'rule': CRULE},
    'C15': {'parts': [('capi', 'C15', 1)], 'rule': CRULE15},
    'C02': {'parts': [('threads', 'C02', 1)], 'rule': TRULE, 'stub': TSTUB, 'quick': 50, 'states': 'hash of the schedule followed (every switch taken, its place and every stale load)'},
    'C01': {'parts': [('hist', 'C01', 1)], 'rule': HRULE},
    'C03': {'parts': [('hist', 'C03', 1)], 'rule': HRULE},
    'C04': {'parts': [('hist', 'C04', 1)], 'rule': HRULE},
    'C05': {'parts': [('wire', 'C05', 1)], 'rule': WRULE5, 'stub': WSTUB},
    'C06': {'parts': [('wire', 'C06', 1)], 'rule': WRULE6, 'stub': WSTUB},
    'C07': {'parts': [('wire', 'C07', 1)], 'rule': WRULE7, 'stub': WSTUB},
    'C08': {'parts': [('hist', 'C08', 1)], 'rule': HRULE},
    'C09': {'parts': [('hist', 'C09', 1)], 'rule': HRULE},
    'C10': {'parts': [('hist', 'C10', 1)], 'rule': HRULE},
    'C11': {'parts': [('hist', 'C11', 1)], 'rule': HRULE},
    'C14': {'parts': [('hist', 'C14', 1)], 'rule': HRULE},
    'C16': {'parts': [('hist', 'C16', 1)], 'rule': HRULE},
    'C19': {'parts': [('hist', 'C19', 1)], 'rule': HRULE},
    'C18': {'parts': [('hist', 'C18', 1)], 'rule': HRULE},
}

NOTES = {
    'states': 'hash of (operation, kinds of the live handles, simulator state); for C08 also the value encoded',
    'time': 'steps are control-flow edges executed inside the library (trace-pc-guard) in these runs; the library keeps no clock, so ticks '
            'count simulated channel, disk and scheduler events',
    'real': ['all of include/dart (compiled from the working tree)', 'RapidJSON', 'libyaml', 'libstdc++ containers and shared_ptr'],
    'stub': ['the allocator (operator new/delete, malloc family, posix_memalign): simulated, seeded contents, injected failures, over AddressSanitizer'],
    'assume': ['the compiler, AddressSanitizer runtime and libstdc++ behave as documented',
               'seeded search: what was not generated was not checked'],
}
