"""What each check runs: cases per shard and test (quick, thorough round), variants, and how its cases count."""
TYPES = ('Types: hand-written ones, some 230 generated from the seed, and compositions made at run time (structs with tags, arrays, pointers); '
         'values with lengths at chunk, power-of-two and limit boundaries. ')
BLOCKS = 'Also values of up to 1 MiB with sizes near multiples of powers of two, and faults there. '
HUGE = 'Streams or values of more than 2^32 bytes. '
MODEL = 'the reference model (harness/ref) states the SSZ specification correctly; it shares no code with zssz'
DOMAIN = 'types within the domain of DESIGN.md: exported serialized fields, no recursion, maximum length below 2^62'

CHECKS = {
    'C01': dict(quick=160000, thorough=60000, rule=TYPES + BLOCKS + 'Non-trivial: a composite type, compared byte for byte with the reference encoding.',
                technique='property-based testing, differential against a reference encoder', assumptions=[MODEL, DOMAIN]),
    'C02': dict(quick=60000, thorough=40000, rule=TYPES + BLOCKS + 'Non-trivial: non-empty encoding, with variable-size parts or a destination filled with another value.',
                technique='property-based testing, round trip into fresh and reused destinations', assumptions=[DOMAIN]),
    'C03': dict(huge=(60, 100), fuzz=240, quick=120000, thorough=60000, rule=TYPES + BLOCKS + HUGE + 'Byte strings: valid, valid with exactly one structural fault, mutated, random; plus enumeration of short strings. '
                'Non-trivial: length between the minimum and maximum of the type.',
                technique='property-based testing with structured mutation, differential against a strict reference decoder', assumptions=[MODEL, DOMAIN]),
    'C04': dict(huge=(200, 400), fuzz=240, quick=160000, thorough=60000, rule=TYPES + BLOCKS + HUGE + 'Byte strings as in C03. Non-trivial: length between the minimum and maximum of the type.',
                technique='property-based testing, dry check against decoding', assumptions=[DOMAIN]),
    'C05': dict(huge=(1, 1), quick=80000, thorough=40000, rule=TYPES + BLOCKS + HUGE + 'Non-trivial: more than one node or chunk.',
                technique='property-based testing, differential against an explicit Merkle tree', assumptions=[MODEL, DOMAIN]),
    'C06': dict(quick=60000, thorough=40000, rule=TYPES + 'Non-trivial: a struct with at least two serialized fields.',
                technique='property-based testing, differential and metamorphic (last field changed)', assumptions=[MODEL, DOMAIN]),
    'C07': dict(huge=(2000, 4000), quick=120000, thorough=50000, rule=TYPES + BLOCKS + HUGE + 'Non-trivial: a variable-size value above its minimum size, or a value at its exact minimum or maximum.',
                technique='property-based testing, differential against computed figures; extremal values', assumptions=[MODEL, DOMAIN]),
    'C08': dict(fuzz=240, quick=80000, thorough=40000, rule=TYPES + BLOCKS + 'Inputs: zeros, ones, random, small length words. Non-trivial: decodes to a value beyond the minimum size.',
                technique='property-based testing: totality, validity, determinism of fuzz-mode decoding', assumptions=[MODEL, DOMAIN]),
    'C09': dict(quick=60000, thorough=40000, rule=TYPES + BLOCKS + 'Readers: byte by byte, random and empty reads, errors with or after the last bytes, cut at any position; streams of messages. '
                'Non-trivial: a reader other than one that delivers everything at once, or one that is cut.',
                technique='property-based testing with reader fault injection', assumptions=[DOMAIN]),
    'C10': dict(quick=36000, thorough=12000, level='fault_enumeration',
                rule=TYPES + BLOCKS + 'For each value, every position at which the writer can fail (sampled beyond 400 bytes), with and without an early error. '
                'Non-trivial: the writer fails after a non-empty, incomplete prefix.',
                technique='property-based testing with enumeration of writer faults', assumptions=[MODEL, DOMAIN]),
    'C11': dict(quick=100000, thorough=40000, rule='Leaf counts up to some thousands, limits up to 2^64-1, several keyed hash functions; all counts and limits up to 40. '
                'Non-trivial: at least two leaves or one level.',
                technique='property-based testing, differential against an explicit sparse Merkle tree',
                assumptions=['the explicit tree of harness/ref is the intended one']),
    'C12': dict(quick=80000, thorough=40000, rule='Leaf counts and limits as in C11, indices of leaves, padding next to them and far padding; all up to 20. '
                'Non-trivial: at least one level.',
                technique='property-based testing, verification of proofs against the root',
                assumptions=['the explicit tree of harness/ref is the intended one']),
    'C13': dict(quick=120000, thorough=60000, rule='Byte strings up to some hundred bytes, all strings of up to two bytes, limits and lengths near 0, the string length and 2^64. '
                'Non-trivial: at least one byte.',
                technique='property-based and model-based testing (list of bits)', assumptions=['a plain list of bits is the intended model']),
    'C14': dict(quick=15000, thorough=20000, rule=TYPES + 'Types with omitted, squashed or embedded fields, compared with their flat form; arbitrary content in omitted fields. '
                'Non-trivial: the flat type differs and the bytes are not empty, or omitted memory exists.',
                technique='property-based testing, metamorphic (flattened type)', assumptions=[DOMAIN]),
    'C15': dict(quick=40000, thorough=20000, rule='Compositions around types claimed by a custom factory (fixed and variable-size codecs, inside and outside of structs, squashed, behind pointers), '
                'failing factories, and wrapping factories that claim nothing. Non-trivial: a claimed type is reachable.',
                technique='property-based testing, differential against the reference model with the same custom rules', assumptions=[MODEL, DOMAIN]),
    'C16': dict(quick=30000, thorough=20000, rule='Histories of initialisations with keyed hash functions and computations between them. Non-trivial: a function other than SHA-256, or a switch.',
                technique='stateful property-based testing, differential under random hash functions', assumptions=[MODEL, DOMAIN]),
    'C17': dict(rule='Mixes of operations by 2 to 48 goroutines on shared definitions and values, under the race detector and without; first uses of fresh definitions by several goroutines at once; operations on both ends of a pipe, and others while some wait in a callback. Non-trivial: every case.',
                technique='property-based concurrency testing under the Go race detector, differential with sequential results',
                variants=[dict(name='race', race=True, procs=4, quick=1200, thorough=2500), dict(name='plain', procs=8, quick=3000, thorough=6000, shards=4)],
                assumptions=['the race detector sees the accesses made by zssz; schedules are those of the Go scheduler on 8 cores', DOMAIN]),
    'C18': dict(rule=TYPES + 'Guarded memory around destinations and slices, snapshots of values and inputs, garbage collections during and after decoding, '
                'local variables as objects while the stack moves, with Go\'s pointer checking (race build) and with freed memory overwritten (clobberfree). Non-trivial: memory beyond the object itself is involved.',
                technique='property-based testing with memory guards, pointer checking and garbage collection',
                variants=[dict(name='main', run='TestDecode|TestRead|TestStack', quick=16000, thorough=40000), dict(name='race', race=True, procs=2, quick=1500, thorough=4000),
                          dict(name='gc', run='TestGC|TestStack', quick=3000, thorough=6000, env={'GODEBUG': 'clobberfree=1'})],
                assumptions=[DOMAIN, 'reads outside of the object without visible effect are only noticed by pointer checking']),
    'C19': dict(quick=60000, thorough=30000, rule=TYPES + 'Also types with limits up to 2^40 and zero-size elements. Inputs: faulty, random, hostile offsets; declared lengths equal to, below and '
                'far above the available bytes. Non-trivial: at least one byte, or a declared length other than the true one.',
                technique='property-based testing and fuzzing with an allocation meter', mem=12,
                assumptions=['the allocation meter (runtime statistics) sees all allocations; the bound has a type-dependent constant factor']),
    'C20': dict(rule=TYPES + 'The same requests (encode, size, roots, figures, print; decode and dry check of valid, faulty and wrongly declared bytes; fuzz mode; trees and branches; bitfields) '
                'to builds for mips and mips64 (big-endian, 32 and 64 bits, on a simulated machine) and 386, answers compared byte for byte with the native ones; further cases of the 386 build against the model. '
                'Non-trivial: the type has series of multi-byte basic elements, or the request is about trees or bits.',
                technique='property-based testing, differential across platforms (simulated big-endian machines, 32-bit build)',
                variants=[dict(name='main', run='^TestGuest', quick=5000, thorough=15000, mem=90, guests=('386', 'mips', 'mips64')),
                          dict(name='386', arch='386', skip='^TestGuest', quick=16000, thorough=25000)],
                assumptions=[MODEL, DOMAIN, 'the simulated MIPS machine (harness/mips) executes as a real one does']),
    'C21': dict(quick=60000, thorough=30000, rule=TYPES + 'Any pointers nil; several indent strings. Non-trivial: a composite type.',
                technique='property-based testing, parsing the output back', assumptions=[DOMAIN]),
    'C22': dict(quick=40000, thorough=25000, rule='Go types composed of supported and unsupported kinds, tags, and declarations that are wrong or unusual. Non-trivial: a composite type.',
                technique='property-based testing of generated Go types, differential against reference rules', assumptions=[MODEL, 'types are not recursive']),
    'C23': dict(quick=8000, thorough=15000, rule=TYPES + 'Histories of 5 to 44 operations over up to 5 objects of up to 3 types; histories with operations inside of the callbacks of others and with callbacks that panic. Non-trivial: at least two decodes into used objects, or a callback that ran an operation or panicked.',
                technique='stateful model-based testing', assumptions=[MODEL, DOMAIN]),
    'C24': dict(quick=60000, thorough=40000, mem=90, shards=8, rule='Values with leaves of up to 6 GiB of reserved, unfilled memory; one offset of most is moved to 2^32-4 .. 2^32+2; fixed parts and element counts beyond 2^32. '
                'Non-trivial: an offset within 4 of or beyond 2^32, or a total beyond 2^32.',
                technique='property-based testing with reserved memory, differential against an expected stream',
                assumptions=['the inside of large parts is compared at its ends only']),
    'C25': dict(quick=24000, thorough=15000, rule=TYPES + 'Pairs of types for one SSZ type: registered (some 80) or derived (pointers, defined types, other structs); values passed by value and by pointer. '
                'Non-trivial: two different types and a non-empty encoding, or a value passed by value.',
                technique='property-based testing, metamorphic over representations', assumptions=[DOMAIN]),
    'C26': dict(quick=40000, thorough=80000, rule='Histories of up to 24 operations with up to 4 nested scopes over inputs of up to 300 bytes, readers as in C09, some able to seek; amounts near the span, the end of the '
                'input and 2^64. Writers that fail anywhere. Non-trivial: at least one byte and more than one operation.',
                technique='stateful model-based testing (position in the input, bytes written)', assumptions=['a position in a byte string is the intended model']),
    'C27': dict(quick=40000, thorough=25000, rule=TYPES + 'Definitions put together from constructors chosen at random among those that fit each part. Non-trivial: at least one part made by '
                'another constructor than the factory would take, and a non-empty encoding; or a type that a constructor has to refuse.',
                technique='property-based testing, differential against the reference model with randomly chosen constructors', assumptions=[MODEL, DOMAIN]),
    'C28': dict(quick=20000, thorough=20000, rule=TYPES + BLOCKS + 'Preferably types with limits far above what values hold. Leaf counts up to 5000 with limits up to 2^64-1. Non-trivial: more than one part or such a limit; '
                'for Merkle trees at least one leaf and a limit above 1.',
                technique='property-based testing with counting hash functions and an allocation meter', mem=12,
                assumptions=['the allocation meter (runtime statistics) sees all allocations', DOMAIN]),
}
