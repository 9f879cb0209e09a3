"""Per property: build variant, number of seeds per tier, evidence texts."""
REAL = ['igakit Python modules', 'igakit Fortran kernels and f2py wrappers (compiled from the tree)', 'CPython', 'numpy']
IO_STUB = ['libc file calls pass through the fault layer to files in a RAM directory', 'array allocator: counting allocator with injected failures',
           'signal delivery: scheduled at a chosen bytecode or disk operation']
IO_ASSUME = ['writes persist in the order issued (prefix of the write sequence plus a torn last write)', 'the file system itself returns what was written']


def _c(quick, thorough, rule, level='exploration', variant='plain', real=None, stubs=None, assumptions=None, timeout=120):
    return {'variant': variant, 'seeds': {'quick': quick, 'thorough': thorough}, 'rule': rule, 'level': level,
            'real': real or REAL, 'stubs': stubs or [], 'assumptions': assumptions or [], 'timeout': timeout}


CONFIG = {
    'S01': _c(4000, 400000, 'a seed gives a geometry, a save call and random disk/interrupt/allocation fault programs; one run per program; distinct: outcome and full operation trace; non-trivial: a fault fired', stubs=IO_STUB, assumptions=IO_ASSUME),
    'S02': _c(1500, 100000, 'a seed gives old content and a save; one run per crash point (operation boundary, torn write), full-disk byte, interrupt; distinct: file kind, size and cut point', stubs=IO_STUB, assumptions=IO_ASSUME),
    'S03': _c(3500, 300000, 'a seed gives a stored file and random read fault programs; one run per program; distinct: outcome and full operation trace; non-trivial: a fault fired', stubs=IO_STUB, assumptions=IO_ASSUME),
    'S04': _c(1500, 100000, 'a seed gives a stored file and damages (bit flips, replaced numbers and counts, cuts); one run per damage; distinct by kind and damage; non-trivial: bytes changed', stubs=IO_STUB, assumptions=IO_ASSUME),
    'S05': _c(4000, 400000, 'a seed gives a save or load call, possibly with unacceptable arguments, and fault programs; distinct: outcome and operation trace; non-trivial: a fault fired or the call raised', stubs=IO_STUB, assumptions=IO_ASSUME),
}

THR_STUB = ['thread scheduling: one baton, handed over at chosen bytecodes, kernel basic blocks and disk operations']
CONFIG['S06'] = _c(700, 60000, 'a seed gives 2-3 save/load calls sharing writer and geometries, random schedules and per-thread disk faults; distinct: executed switch sequence and faults; non-trivial: at least one switch', stubs=IO_STUB + THR_STUB, assumptions=IO_ASSUME)
CONFIG['T01'] = _c(800, 60000, 'a seed gives a shared geometry, 2-3 threads of queries and random schedules; distinct: executed switch sequence; non-trivial: at least one switch', stubs=THR_STUB + ['drawing backend: records what it is asked to draw'])
CONFIG['T02'] = _c(800, 60000, 'a seed gives two shared geometries, 2-3 threads that edit clones or build new geometries, and random schedules; distinct: executed switch sequence; non-trivial: at least one switch', stubs=THR_STUB)

FLT_STUB = ['array allocator: counting allocator with injected failures', 'signal delivery: interrupt made pending at a chosen bytecode of igakit']
CONFIG['F01'] = _c(3500, 300000, 'a seed gives a geometry, earlier edits and one edit; one run per interrupt or allocation failure; distinct: edit, geometry, fault and outcome; non-trivial: the fault hit', stubs=FLT_STUB)
CONFIG['F02'] = _c(3000, 200000, 'a seed gives a construction with its inputs and follow-up edits; one run per interrupt or allocation failure; distinct: construction, inputs, fault and outcome; non-trivial: the fault hit', stubs=FLT_STUB)
CONFIG['T03'] = _c(2500, 200000, 'a seed gives a series of calls whose arguments are watched, with interrupts and allocation failures, or threads that share the argument objects under random schedules; distinct: calls, fault and outcome, or executed switch sequence; non-trivial: the fault hit or a switch happened', stubs=FLT_STUB + THR_STUB)

MEM_STUB = ['memory: numpy array data, malloc and the stack are handed out filled with a chosen leftover pattern']
CONFIG['F03'] = _c(3500, 300000, 'a seed gives a session of calls and other calls that run before; one run per world (leftover pattern, earlier and failing calls, repetition), compared bit for bit with a clean process; distinct: world and results; non-trivial: leftover pattern or earlier calls', stubs=MEM_STUB + FLT_STUB)
CONFIG['F04'] = _c(2500, 200000, 'a seed gives a session with damaged geometries and files, replaced arguments, allocation failures and interrupts, on kernels compiled with index checks; distinct: session results and step counts; non-trivial: at least one fault or bad argument', variant='bounds', stubs=FLT_STUB)
CONFIG['F05'] = _c(4000, 400000, 'a seed gives a session; one run per injected fault, after which every array block must be released; distinct: session, fault and outcome; non-trivial: the fault hit', stubs=FLT_STUB)

CONFIG['G01'] = _c(3500, 200000, 'a seed gives initial geometries and a history of modelling operations with faults; one run per history; distinct: operations and resulting geometries; non-trivial: at least one injected fault', stubs=FLT_STUB)
CONFIG['P01'] = _c(3000, 200000, 'a seed gives geometries, plotters and a history of backend selections, drawing calls and changes of what can be loaded, with faults, or threads with their own plotters under random schedules; distinct: history with outcomes, or executed switch sequence; non-trivial: a fault hit or a switch happened', stubs=FLT_STUB + THR_STUB + ['backends: recording stand-ins, the real null and matplotlib (agg) backends, the real mayavi backend on a stand-in for mayavi'])
CONFIG['G02'] = _c(6000, 300000, 'a seed gives a history of primitives, transformation objects (made, changed, inverted, copied, composed with each other) and their application to geometries, with faults; distinct: operations and resulting geometries and matrices; non-trivial: at least one injected fault', stubs=FLT_STUB)
CONFIG['G03'] = _c(5000, 300000, 'a seed gives geometries and a history of operations that change their knots, with faults, and knot queries and basis tables after each; distinct: operations and resulting geometries; non-trivial: at least one injected fault', stubs=FLT_STUB)
CONFIG['S07'] = _c(5000, 200000, 'a seed gives paths, writers, geometries and a history of saves, loads, edits, file operations of the user, faults, crashes and restarts; one run per history; distinct: steps with outcomes; non-trivial: at least one fault or crash', stubs=IO_STUB, assumptions=IO_ASSUME)
