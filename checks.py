"""Jobs of every property.  One job = one symbolic execution of a harness (harness/*.cpp) with the repository's real sources."""
from functools import cache
from driver import Unit, Job
CAPINC = ['arg-capture-io/include', 'rtl/include']
@cache
def cap(): return Unit('cap', ['arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp', 'rtl/src/capture.cpp'], ['cap.cpp'], CAPINC)
@cache
def inst(): return Unit('inst', ['rtl/src/instrumentation.cpp'], ['inst.cpp'], CAPINC)
@cache
def graph(): return Unit('graph', ['sdfg/src/graph/graph.cpp'], ['graph.cpp'], ['sdfg/include'])
@cache
def helpers(): return Unit('helpers', [], ['helpers.cpp'], ['sdfg/include', 'rtl/include'])
@cache
def rpc(): return Unit('rpc', ['rpc/src/passes/rpc/rpc_context.cpp', 'rpc/src/passes/rpc/daisytuner_rpc_context.cpp', 'rpc/src/util/utils_curl.cpp'], ['rpc.cpp'], ['rpc/include'])

SDFGINC = ['v:symshim', 'sdfg/include', 'rtl/include', 'arg-capture-io/include']
@cache
def sym(): return Unit('sym', ['v:symshim/symengine.cpp', 'v:symshim/isl.cpp'] + ['sdfg/src/symbolic/%s.cpp' % f for f in 'assumptions conjunctive_normal_form extreme_values maps polynomials series sets symbolic utils'.split()] + ['sdfg/src/types/%s.cpp' % f for f in 'array function pointer scalar structure tensor utils'.split()], ['sym.cpp'], SDFGINC, pch='sdfg_pch.h', partial=True)

@cache
def opt():
    import os; from driver import REPO
    fs = sorted(os.path.relpath(os.path.join(r, f), REPO) for r, _, ff in os.walk(REPO + '/sdfg/src') for f in ff if f.endswith('.cpp') and 'visualizer' not in r)
    return Unit('opt', ['v:symshim/symengine.cpp', 'v:symshim/isl.cpp', 'arg-capture-io/src/base64.cpp'] + fs, ['opt.cpp'], SDFGINC, pch='sdfg_pch.h', partial=True)

def J(u, h, cfg=None, t=120, reach=('end',), only=None, **k): return Job(u, 'h_' + h, cfg, t=t, reach=list(reach), only=only, **k)
def Q(*a, **k): return J(*a, only='quick', **k)
def TH(*a, **k): return J(*a, only='thorough', **k)

PROPS = {}
def prop(pid, jobs, bounds, assumptions=(), budget=600, reach=()): PROPS[pid] = {'jobs': jobs, 'bounds': bounds, 'assumptions': list(assumptions), 'budget': budget, 'reach': reach} # reach: witnesses at least one job must reach

# ---------------------------------------------------------------- argument capture
def b64():
    u = cap(); return [Q(u, 'b64_rt', {'max': 24}), Q(u, 'b64_dec', {'max': 5}, t=200), J(u, 'b64_long', t=200), TH(u, 'b64_rt', {'max': 60}, t=600), TH(u, 'b64_dec', {'max': 8}, t=700)]
prop('C01', b64, 'byte strings up to 24 bytes (thorough 60), every byte symbolic; 27 lengths from 48 to 3000 with the first, middle and last byte symbolic; decoder input up to 5 arbitrary characters (thorough 8)')

def inline():
    u = cap(); return [J(u, 'inline', t=200), J(u, 'keys'), J(u, 'big', {'inline': 1, 'lo': 0, 'hi': 14}, t=200), TH(u, 'inline', {'steps': 2, 'maxd': 3, 'maxv': 2, 'nidx': 4}, t=700), TH(u, 'inline', {'steps': 3, 'maxd': 1, 'maxv': 1}, t=700)]
prop('C02', inline, 'histories of 2 captures (thorough 3), 1-2 dimensions (thorough 3) of 0..2, symbolic bytes; all 2^66 pairs of (argument index, phase) keys')

def index():
    u = cap(); L = [J(u, 'index', {'inv': i, 'el0': e, 'file0': f}, t=200, reach=['end', 'file' if f else 'inline']) for i in (0, 1) for e in (0, 1) for f in (0, 1)] + [J(u, 'index_version')] + [J(u, 'index_nums', {'which': w}, t=200) for w in range(4)]
    L += [J(u, 'rtl_dims', t=200), J(u, 'rtl_raw', t=200), J(u, 'big', {'inline': 1, 'lo': 4, 'hi': 12}, t=200), J(u, 'rtl_wide', {'steps': 2}, t=300)]
    L += [TH(u, 'index', {'steps': 3, 'inv': 1, 'el0': e, 'file0': f, 'file1': g}, t=700, reach=['end']) for e in (0, 1) for f in (0, 1) for g in (0, 1)]
    return L
prop('C03', index, '2 captures (thorough 3) over 2 elements, 2 argument indices, both phases, inline or file, with and without a zero dimension, symbolic bytes; invocation numbers 0 / 1 / 10; argument index -130..130, every primitive type 0..18, dimension values 0..300, one varied at a time; runtime captures with 1-4 extents of 0..2 and raw sizes 0,1,31,32,33,40')

def faults():
    u = cap(); return [J(u, 'faults', t=200, reach=['ok', 'fail']), J(u, 'index_faults', t=200, reach=['ok', 'fail']), J(u, 'read_raw'), J(u, 'rtl_faults', t=200, reach=['ok', 'fail'])]
prop('C04', faults, 'every subset of failing directory creation, open, write and close calls during one capture / one index write; raw reads of 0..4 bytes from files of 0..4 bytes or missing files; null data pointers', ['a failing write leaves a prefix of the data, as POSIX permits; the file system model is rt/vfs.cpp'])

def strategies():
    u = cap(); L = [J(u, 'rtl', {'strategy': s, 'envdir': e, 'argdir': a, 'steps': 2, 'ncap': 1}, t=200) for s in range(6) for e, a in ((0, 0), (1, 1))] + [J(u, 'rtl', {'envdir': e, 'argdir': 1 - e, 'steps': 1, 'ncap': 1}, t=200) for e in (0, 1)] + [J(u, 'invoke', {'steps': 3}, t=200), J(u, 'rtl', {'strategy': 2, 'envdir': 0, 'argdir': 1, 'steps': 3, 'ncap': 1}, t=400), J(u, 'rtl_long', {'n': 300}, t=300)]
    L += [TH(u, 'invoke', {'steps': 5}, t=600)] + [TH(u, 'rtl', {'strategy': s, 'envdir': 0, 'argdir': 0, 'steps': 4, 'ncap': 1}, t=700) for s in (1, 2)]
    return L
prop('C05', strategies, 'all 6 settings of the strategy variable, base directory from environment / argument / default; 2-3 invocations (thorough 4) of 2 regions; one history of 300 invocations')

def distinct():
    u = cap(); L = [J(u, 'rtl', {'strategy': s, 'envdir': 0, 'argdir': 1, 'steps': st, 'ncap': 2}, t=300) for s, st in ((1, 2), (2, 2), (1, 1))] + [J(u, 'keys'), J(u, 'rtl', {'strategy': 2, 'envdir': 0, 'argdir': 1, 'steps': 1, 'ncap': 3}, t=300)]
    L += [J(u, 'rtl_long', {'n': 120}, t=300), J(u, 'rtl_wide', {'steps': 3, 'nargs': 5}, t=300)]; L += [TH(u, 'rtl', {'strategy': 2, 'envdir': 0, 'argdir': 1, 'steps': 3, 'ncap': 2}, t=700)]; return L
prop('C06', distinct, 'up to 2 invocations (thorough 3) of regions 1 and 11 with up to 3 captures of arguments 1 and 11 in both phases (digit strings chosen so that an ambiguous concatenation of name parts collides), symbolic bytes; every file read back at the end of the history')

def sizes():
    u = cap(); return [J(u, 'rtl_dims', t=200), J(u, 'rtl_raw', t=200), J(u, 'huge', {'bits': 12}, t=200), *[J(u, 'big', {'lo': a, 'hi': a + 4}, t=300) for a in (6, 10, 14, 18)], J(u, 'big', {'lo': 22, 'hi': 24}, t=300), J(u, 'big', {'lo': 24, 'hi': 26}, t=300), TH(u, 'rtl_dims', t=300), TH(u, 'huge', {'bits': 20}, t=700)]
prop('C07', sizes, '1-4 extents of 0..2 with symbolic bytes; sizes up to 2^62 bytes built from up to 4 extents (two symbolic up to 4096, thorough 2^20, the others 1, 3 or 2^20) with the data itself not modelled', ['beyond 64 KiB only the number of bytes handed to the file system is modelled, not their values'])

# ---------------------------------------------------------------- instrumentation
def life():
    u = inst(); return [J(u, 'lifecycle', {'agg': a, 'cpuev': c}, t=300) for a in (0, 1) for c in (0, 1)] + [J(u, 'lifecycle', {'agg': 0, 'cpuev': 1, 'pre': 0, 'steps': 4, 'cnt': 3}, t=300)] + [TH(u, 'lifecycle', {'agg': a, 'cpuev': 1, 'steps': 4, 'lo': l, 'cnt': 4}, t=700) for a in (0, 1) for l in (0, 2)]
prop('I01', life, '13 regions of 3 kinds, 11 of them run and finalised beforehand; then every history of 3 steps (thorough 4) over 6 representative regions, each step initialising, running or finalising one region', ['a region is not initialised again while it is being executed by an outer activation of itself'])
def trace():
    u = inst(); R = dict(reach=['end', 'nested']); L = [J(u, 'trace', {'sc': 0, 'st': 0, 'steps': 2, 'kind0': k}, t=300, **R) for k in range(3)] + [J(u, 'trace', {'full': 1, 'kind0': a, 'kind1': b, 'file': 1, 'cpuev': 3, 'cudaev': 2}, t=200, real=True, **R) for a, b in ((0, 1), (1, 0), (0, 0), (2, 0))]
    L += [J(u, 'trace', {'full': 1, 'kind0': 1, 'kind1': b, 'file': 1, 'cpuev': 2, 'cudaev': 3}, t=200, real=True, **R) for b in (1, 2)] + [J(u, 'overlap', {'agg': 0, 'rot': r, 'steps': 5}, t=200) for r in range(2)]
    L += [J(u, 'trace', {'sc': 0, 'st': 0, 'steps': 2, 'cpuev': 4, 'cudaev': 4, 'file': 1, 'full': 1}, t=200, **R)]
    L += [J(u, 'trace', {'full': 0, 'kind0': 0, 'kind1': 2, 'file': 0, 'cpuev': 0, 'cudaev': 0}, t=200, real=True, **R)]; L += [TH(u, 'trace', {'sc': 0, 'st': 0, 'steps': 3, 'kind0': k, 'kind1': 1, 'file': 0, 'full': 1}, t=700, **R) for k in range(3)]
    return L
prop('I02', trace, '2 regions of every kind, 0-2 counters per kind, histories of 2 activations (thorough 3) sequential, repeated, nested or never run; timestamps and counter values symbolic in [0, 2^40] steps')
def stats():
    u = inst(); L = [J(u, 'stats', {'n': n, 'ev': e, 'kind': k}, t=300, real=True) for n in (1, 2, 3) for e, k in ((0, 0), (1, 0), (1, 1))] + [J(u, 'agg', {'sc': 0, 'st': 0, 'steps': 2, 'kind0': k}, t=300) for k in range(3)] + [J(u, 'agg', {'steps': 1}, t=200, real=True), *[J(u, 'overlap', {'agg': 1, 'rot': r, 'steps': 5}, t=200) for r in range(2)], J(u, 'stats', {'n': 300, 'sc': 0, 'st': 0, 'ev': 1}, t=200), J(u, 'agg', {'sc': 0, 'st': 0, 'steps': 2, 'cpuev': 4, 'cudaev': 4, 'file': 1, 'full': 1}, t=200)]
    L += [TH(u, 'overlap', {'agg': 1, 'steps': 7}, t=600)]; L += [TH(u, 'stats', {'n': 4, 'ev': 1, 'kind': k}, t=700, real=True) for k in (0, 1)] + [TH(u, 'agg', {'sc': 0, 'st': 0, 'steps': 3, 'kind0': k, 'kind1': 1, 'file': 0, 'full': 1}, t=700) for k in range(3)]
    return L
prop('I03', stats, 'statistics of 1-3 executions (thorough 4) with symbolic durations and counter differences up to 2^40 each; 2 regions of every kind with 0-2 counters in histories of 2 activations (thorough 3); one concrete history of 300 executions', ['floating-point arithmetic of the statistics is encoded over the reals: rounding is outside the claim'])
def static():
    u = inst(); return [J(u, 'static', {'n': n}, t=200, real=True) for n in (1, 2, 3)] + [J(u, 'static', {'n': 2, 'entered': 0}, t=200, real=True), J(u, 'static_nonfinite')] + [TH(u, 'static', {'n': 4}, t=700, real=True)]
prop('I04', static, 'up to 3 reports (thorough 4) of 2 metrics on 2 regions, by increment or by value, values symbolic in +-2^40 (quarters for metrics); non-finite values', ['floating-point arithmetic of the statistics is encoded over the reals: rounding is outside the claim'])
prop('I05', lambda: [J(inst(), 'strings', {'agg': a}, t=200) for a in (0, 1)] + [J(inst(), 'static_nonfinite')], 'every metadata string field, 6 texts with quotes, backslashes and control characters, both report modes; non-finite metric values')
prop('I06', lambda: [J(inst(), 'config', reach=['exit'])], 'every missing library symbol, missing library, missing or mismatching version, unknown region ids, null metadata')
prop('I07', lambda: [J(inst(), 'threads', {'agg': a}, t=200) for a in (0, 1)], '2 threads, every pair of entry points on the same or different regions, both report modes; lock-set analysis over all shared accesses', ['data races are decided by lock sets (Eraser discipline) on the accesses of two concurrent calls, and confirmed by ThreadSanitizer before they are reported'])

# ---------------------------------------------------------------- integer helpers of generated code
prop('M01', lambda: [J(helpers(), 'pow', {'exp': e}, t=200) for e in range(41)] + [J(helpers(), 'pow_neg')], 'exponents 0..33, 63, 64, 100, 65536, 2^30, 2^31-2, 2^31-1; every base whose power is representable (exponents of 100 and above: bases -1, 0, 1 case by case); every base with every negative exponent')
prop('M02', lambda: [J(helpers(), 'minmax')], 'all pairs of 32- and 64-bit integers')

# ---------------------------------------------------------------- graph algorithms
GB = 'all directed graphs (with self loops) on up to 4 vertices, all multigraphs of 4 edges on 3 vertices in every insertion order, all forward-edge DAGs on 5 vertices; a chain / binary tree / two chains on 6-7 vertices (thorough 9) plus any 2 edges; thorough: all multigraphs of 5 edges on 3 vertices and 4 edges on 4 vertices, all DAGs on 5 vertices with every root, graphs on 5 vertices with a fixed set of edges'
GA = ['graph shapes are split by the executor into concrete shapes (the containers walk them), so the solver decides which shapes are feasible and the property is decided on each of them']
def gjobs(h, dag=True, **k):
    def f():
        u = graph(); reach = k.get('reach', ['end'])
        L = [J(u, h, {'n': 3, 'loops': 1}, t=100), *([J(u, h, {'n': 1, 'loops': 1}, t=100)] if h != 'paths' else []), J(u, h, {'n': 3, 'mode': 1, 'm': 4, 's0': 0}, t=200), J(u, h, {'n': 3, 'mode': 1, 'm': 4, 's0': 1}, t=200), J(u, h, {'n': 3, 'mode': 1, 'm': 4, 's0': 2}, t=200)] + [J(u, h, {'n': 4, 'loops': 1, 'nfix': 3, 'fix': x}, t=200) for x in range(8)]
        if dag: L.append(J(u, h, {'n': 5, 'dag': 1, 'roots': 1}, t=200))
        L += [J(u, h, {'n': n, 'mode': 2, 'm': 2, 'tree': t, 'roots': 1}, t=200, reach=['end'] if h != 'paths' else []) for n, t in ((7, 0), (7, 1), (6, 2))] + [TH(u, h, {'n': 9, 'mode': 2, 'm': 2, 'tree': t, 'roots': 1}, t=500, reach=[]) for t in (0, 1, 2)]
        L += [TH(u, h, {'n': 3, 'mode': 1, 'm': 5, 's0': x}, t=500) for x in range(3)] + [TH(u, h, {'n': 5, 'dag': 1}, t=500)] + [TH(u, h, {'n': 4, 'mode': 1, 'm': 4, 's0': x}, t=500) for x in range(4)]
        L += [TH(u, h, {'n': 5, 'loops': 0, 'nfix': 8, 'fix': x, 'roots': 1}, t=600) for x in (0, 0x35, 0xb1, 0xff)]
        return L
    return f
prop('G01', gjobs('dom'), GB, GA)
prop('G02', gjobs('pdom'), GB + '; graphs without an exit vertex are outside the precondition', GA)
prop('G03', gjobs('topo'), GB, GA)
prop('G04', gjobs('scc'), GB, GA)
prop('G05', gjobs('wcc'), GB, GA)
prop('G06', gjobs('dfs'), GB, GA)
prop('G07', gjobs('back'), GB, GA)
prop('G08', gjobs('paths'), GB, GA)
prop('G09', gjobs('views'), GB, GA)

# ---------------------------------------------------------------- string and set helpers
prop('H01', lambda: [J(helpers(), 'is_number'), J(helpers(), 'parse', {'max': 4}, t=200), J(helpers(), 'parse_lit'), TH(helpers(), 'is_number', {'max': 9}, t=300), TH(helpers(), 'parse', {'max': 6}, t=500)], 'strings of up to 5 arbitrary characters (thorough 9); signed decimal literals of up to 4 digits (thorough 6); 11 boundary literals')
prop('H02', lambda: [J(helpers(), 'split'), J(helpers(), 'join'), J(helpers(), 'endswith'), J(helpers(), 'sets'), TH(helpers(), 'split', {'max': 9}, t=600)], 'strings of up to 6 characters (thorough 9) over the delimiter and two other letters, 3 delimiters, with and without earlier content; joins of up to 3 elements of up to 2 arbitrary characters; sets over 4 elements', ['an empty delimiter is outside the precondition'])

# ---------------------------------------------------------------- remote optimiser client
prop('R01', lambda: [J(rpc(), 'auth', t=200, reach=['end', 'found']), J(rpc(), 'token_bytes', t=200), TH(rpc(), 'token_bytes', {'max': 7}, t=500)], 'every combination of unset / empty / set job token, access token, home directory, token file and session file; file contents of up to 4 arbitrary bytes (thorough 7)')
prop('R02', lambda: [J(rpc(), 'ctx', t=200)], 'every combination of credential sources and server variables, with and without earlier configuration')
prop('R03', lambda: [J(rpc(), 'file', {'how': h}, t=200) for h in range(4)] + [J(rpc(), 'file_bad'), J(rpc(), 'auto'), J(rpc(), 'header', t=200), TH(rpc(), 'header', {'max': 8}, t=500)], 'configuration files with every member absent / string / empty / other type, read directly or through the variable, before or after defaults; header variables of up to 5 arbitrary characters (thorough 8)')
prop('R04', lambda: [J(rpc(), 'post', {'anystatus': 1}, t=200), J(rpc(), 'post', t=300), J(rpc(), 'post_fail', {'maxchunks': 1}, t=200), TH(rpc(), 'post', {'maxchunks': 3}, t=600)], 'every status 0..999, every transport error code 1..98, responses delivered in up to 2 chunks (thorough 3) of up to 3 arbitrary bytes')

OPN = 'add sub mul div mod min max abs pow zext trunc'.split(); OP = {n: i for i, n in enumerate(OPN)}
def ops(*n): return sum(1 << OP[x] for x in n)
def value(h):
    def f():
        u = sym(); L = [J(u, h, {'op': OP[o], 'range': 6}, t=200) for o in 'add sub mul min max abs'.split()] + [J(u, h, {'op': OP[o], 'range': 3}, t=200) for o in ('zext', 'trunc')] + [J(u, h, {'op': OP['div'], 'ops': ops(*OPN[:8])}, t=200)]
        L += [J(u, h, {'op': OP['mod'], 'ops': ops(o), 'range': 4}, t=200) for o in OPN[:8]] + [J(u, h, {'op': OP['pow'], 'ops': ops(*OPN[:8]), 'range': 3}, t=200)]
        return L
    return f
SB = 'expressions of two nested operations out of + - * / % min max abs pow zext_i64 trunc_i32 over two symbols and two constants (leaf and constant choices split, symbol values symbolic in -6..6, products of three and casts -3..3)'; SA = ['SymEngine is not installed: docc runs on the stand-in in symshim/, which reproduces its canonical forms (1568 of the 1591 SDFG tests of the repository pass on it)', 'values that overflow 64 bits are outside']
def deep(h): return [TH(sym(), h, {'depth': 3, 'op': OP[o], 'ops': ops('add', 'sub', 'mul', 'min', 'max'), 'leaves': 0x0b, 'range': 3}, t=700) for o in 'add sub mul min max'.split()] + [TH(sym(), h, {'op': OP[o], 'leaves': 0x1ff, 'range': 20}, t=700) for o in 'add sub mul min max abs'.split()]
prop('S01', lambda: value('value')() + deep('value'), SB + '; thorough: three nested operations out of + - * min max, and all constants with values in -20..20', SA)
prop('S02', lambda: value('simplify')() + deep('simplify'), SB + '; thorough as S01', SA)
prop('S03', lambda: [J(sym(), 'subs', {'op': o, 'how': h, 'range': 3, 'nop': n, 'ops': ops('add', 'mul', 'div')}, t=300) for o in range(7) for h, n in ((0, 0), (1, 0), (1, 2))] + [TH(sym(), 'subs', {'op': o, 'how': h, 'range': 3, 'nop': n}, t=700) for o in (0, 2, 5, 7, 9) for h, n in ((0, 2), (0, 5), (1, 5))], 'replacing a symbol by, or a subterm of value, in expressions of two nested operations (inner: + * /); symbol values -3..3; thorough: all inner operations, products and minima as new terms', SA)
prop('S04', lambda: [J(sym(), 'bounds', {'sc': k, 'fn': f, 'op': o, 'ops': ops('add', 'div', 'abs', 'zext', 'trunc'), 'range': 6}, t=300) for k in (0, 3, 7) for f in range(3) for o in (0, 2, 3, 4, 7, 9, 10)] + [J(sym(), 'bounds', {'sc': k, 'fn': f, 'op': o, 'ops': ops('add', 'sub', 'mul', 'min', 'max'), 'range': 6}, t=300) for k in range(8) for f in range(3) for o in (0, 1, 2, 5, 6)] + [TH(sym(), 'bounds', {'sc': k, 'fn': f, 'op': o, 'ops': ops('add', 'mul', 'min', 'max'), 'range': 4, 'depth': 3, 'leaves': 0x0b}, t=700) for k in (0, 2, 5, 6) for f in (0, 1) for o in (0, 2, 6)], 'expressions as in S01 under eight sets of assumptions (constant, half-open, parametric, chained and contradicting-sign ranges); every value within the ranges, -6..6; thorough: three nested operations', SA)
prop('S05', lambda: [J(sym(), h, {'cop': c}, t=300) for h in ('cond', 'cnf') for c in range(4)] + [TH(sym(), h, {'cop': c, 'range': 60}, t=700) for h in ('cond', 'cnf') for c in range(4)], 'conditions of up to three atoms (six relations between a symbol and a symbol, a constant or a sum), joined by and / or / not in every nesting; symbol values -6..6 (thorough -60..60)', SA)
prop('S06', lambda: [J(sym(), 'affine', {'range': 4}, t=300), J(sym(), 'affine', {'gen': 1, 'range': 3, 'op': 2}, t=300), J(sym(), 'inverse', {'range': 4}, t=300), J(sym(), 'polydiv', {'range': 4}, t=300), J(sym(), 'polydiv', {'range': 2, 'sq': 1}, t=300), TH(sym(), 'polydiv', {'range': 4, 'sq': 1}, t=700), TH(sym(), 'affine', {'gen': 1, 'range': 3, 'op': 0, 'depth': 3, 'ops': ops('add', 'sub', 'mul')}, t=700)], 'affine forms a*x+b*y+c with constant and parametric coefficients, general expressions of two operations; values -4..4', SA)
prop('S07', lambda: [J(sym(), 'series', {'sc': k, 'range': 4}, t=300) for k in (0, 2, 5, 7)] + [TH(sym(), 'series', {'sc': k, 'range': 9}, t=700) for k in range(8)], 'update expressions of one and two operations under four sets of assumptions (thorough eight); values -4..4 (thorough -9..9)', SA)
prop('S08', lambda: [J(sym(), 'delin', {'shape': k, 'pb': b}, t=300) for k in range(6) for b in (0, 1) if (k, b) != (2, 0)], 'six shapes of linearised subscripts over two or three loop symbols with parametric and constant extents; every value of symbols and parameters within the loop ranges', SA + ['a shape whose bounds compare 0 * infinity is refused with an exception, which counts as no result'])
prop('S11', lambda: [J(sym(), 'type_assumption', t=300)], 'all nine integer types and all their values')
def LARGE(): return [sym(), opt()]
GLOBAL_ASSUMPTIONS = [
 'the encoded program is the LLVM IR clang 19 produces at -O1 from /repo (with sanitizer traps for signed overflow, shifts, bounds, division, booleans and enums); code generation below the IR is outside',
 'libstdc++ headers are encoded as written; libstdc++/libc parts that exist only as binaries (exceptions, iostreams, stdio, strtod/printf, filesystem, dlopen) are models in /verif/rt and /verif/stubs, checked against the native library by replaying sampled paths',
 'curl and PAPI are the recording stand-ins in the harnesses; nlohmann_json and Boost.Graph are encoded from the installed headers',
]

# ---------------------------------------------------------------- passes and transformations: translation validation
_J, _TH = J, TH
def J(*a, reach=(), **k): return _J(*a, reach=reach, **k) # transformations may refuse: the property states what must be reached
def TH(*a, reach=(), **k): return _TH(*a, reach=reach, **k)
RE = ('applied', 'refused', 'end')
def bit(*k): return sum(1 << x for x in k)
TA = SA + ['pointer arguments of different names do not overlap', 'maps of the original program are free of conflicts and give the same memory in ascending, descending and interleaved order; the induction variable of a map has no value after it', 'inputs on which the original program itself reads unset memory, leaves its arrays, overflows, divides by zero or exceeds the step bound are outside']
PB = 'array elements -1000000..1000000 (scalars and loop bounds symbolic in the stated ranges), arrays of 9..36 elements'
def for2map():
    u = opt(); L = [J(u, 'for2map', {'stmt': bit(k), 'widx': bit(w), 'init': 1, 'up': 1, 'cond': 1, 'post': 1, 'maporder': 3}, t=300) for k in range(7) for w in range(7)]
    L += [J(u, 'for2map', {'stmt': bit(k), 'widx': 0x0b, 'ridx': 0x0d, 'init': 7, 'up': 2, 'cond': 1, 'post': 1, 'maporder': 3}, t=300) for k in range(7)] + [J(u, 'for2map', {'stmt': 6, 'widx': 1, 'ridx': 1, 'init': 3, 'up': bit(k), 'post': 15, 'maporder': 3}, t=300) for k in range(4)]
    L += [J(u, 'nest', {'xf': 8, 'kind': 1, 'cond': 1, 'post': 1, 'imp': 1, 'init': 1, 'stmt': bit(k), 'maporder': 3}, t=300) for k in range(6)]
    return L + [TH(u, 'for2map', {'stmt': bit(k), 'up': bit(x), 'cond': c, 'maporder': 3, 'post': 1}, t=700) for k in range(7) for x in range(4) for c in (0x2e, 0x50)]
prop('T01', for2map, 'loops over two arrays with seven kinds of bodies, seven write and read subscripts, four steps, seven conditions, N in -1..4, three execution orders of the resulting map; two-deep nests; ' + PB, TA, reach=RE)
def loopnorm():
    u = opt(); L = [J(u, 'loopnorm', {'stmt': bit(k), 'widx': 0x09 if x == 0 else 1, 'ridx': 0x02, 'up': bit(x), 'post': 1, 'init': 7 if x == 2 else 3}, t=300) for k in range(7) for x in range(4)] + [J(u, 'loopnorm', {'stmt': 2, 'widx': 1, 'ridx': 1, 'up': bit(x)}, t=300) for x in range(4)]
    return L + [J(u, 'nest', {'xf': 9, 'kind': 1, 'post': 1, 'imp': 1, 'dep': 16, 'stmt': bit(k)}, t=300) for k in (0, 2, 4)] + [TH(u, 'loopnorm', {'stmt': bit(k), 'up': bit(x), 'post': 1}, t=700) for k in range(7) for x in range(4)]
prop('T02', loopnorm, 'loops with three starts, four steps, seven conditions and seven kinds of bodies, N in -1..4; two-deep nests with rectangular and triangular bounds; ' + PB, TA + ['a loop that ends when its variable equals its bound is assumed to meet it'], reach=RE)
def nests():
    u = opt(); E = {'init': 1, 'up': 1, 'cond': 1, 'post': 1}; L = []
    for k in (1, 2, 8): L += [J(u, 'nest', dict(E, xf=0, kind=k, stmt=bit(s), imp=7 if s == 1 else 1), t=300) for s in range(6)]
    L += [J(u, 'nest', {'xf': 0, 'kind': 4, 'stmt': 1, 'dep': 16, 'imp': 1, 'init': 1, 'up': 1, 'post': 1}, t=300)]
    for x in (1, 2): L += [J(u, 'nest', dict(E, xf=x, kind=1, stmt=bit(s), cond=15 if s == 1 else 1, up=3, imp=1, tile=3 if s == 2 else 2), t=300) for s in range(6)]
    L += [J(u, 'nest', dict(E, xf=3, kind=1, stmt=bit(s), imp=1, skew=q), t=300) for s, q in ((0, 1), (1, 2), (2, 1), (3, 1), (4, 1), (5, 2))] + [J(u, 'nest', dict(E, xf=x, ols=o, kind=1, stmt=bit(s), imp=1), t=300) for x in (6, 7) for s, o in ((0, 0), (2, 0), (2, 1), (3, 0), (3, 1), (4, 1), (5, 0), (5, 1))]
    L += [J(u, 'nest', dict(E, xf=1, kind=1, stmt=4, imp=1, jinit=1, jcond=1, post=7, init=3, cond=15), t=300)]
    L += [J(u, 'nest', {'xf': 0, 'kind': 4, 'stmt': 1, 'dep': 4, 'init': 1, 'up': 1, 'cond': 1, 'jinit': 1, 'jcond': 1, 'imp': 1, 'post': 1}, t=200, reach=[], expect={'id': 'interchange-for-over-map', 'match': 'same memory'})]
    return L + [TH(u, 'nest', {'xf': x, 'kind': k, 'stmt': bit(s), 'post': 1, 'imp': 7 if s in (1, 3) else 1, 'Nhi': 4}, t=700) for x in (0, 1, 2, 3, 6, 7) for k in ((1, 2, 8) if x == 0 else (1, 10)) for s in range(6)]
prop('T03', nests, 'two-deep nests (for and map, rectangular and triangular, three positions of extra statements, nine dependence distances, six bodies), N and M in 0..3; tile sizes 2 and 3, skew 1 and 2; ' + PB, TA, reach=RE)
def fusion():
    u = opt(); return [J(u, 'pair', {'cons': bit(c), 'second': s, 'cidx': x, 'bound': 1, 'gap': 1, 'init': 1, 'src': 3 if x == 1 else 1}, t=300) for c in range(4) for s in (1, 2) for x in (1, 6, 8)] + [J(u, 'pair', {'cons': 1, 'second': 1, 'cidx': 3, 'widx': 3, 'init': 3, 'up': 1, 'jinit': 3, 'jup': 1, 'bound': 3, 'gap': 3}, t=300)] + [J(u, 'pair', {'preset': 1, 'gap': 1, 'typed': 1, 'cons': 1, 'widx': 1, 'ridx': 1, 'cidx': 1, 'init': 1, 'up': 1}, t=200, reach=[], expect={'id': 'fusion-partial-domain', 'match': 'same memory'})] + [TH(u, 'pair', {'cons': bit(c), 'second': s, 'gap': g}, t=700) for c in range(4) for s in (1, 2) for g in (1, 2)]
prop('T04', fusion, 'a producing map and a consuming loop or map over N or M in 0..3 elements with five write, two read and four consumer subscripts, two starts and steps each; elements the producer does not write have no value; ' + PB, TA, reach=RE)
NST = 24; PO = {'out': 7}
def scal(passes, quick2=(), extra=()):
    def f():
        u = opt(); L = []
        for p in passes: L += [J(u, 'scalars', dict({'n': 1, 'st': m}, **p), t=300) for m in (0xff, 0xff00, 0xff0000)]
        for p, first, st in quick2: L += [J(u, 'scalars', dict({'n': 2, 'out': 2, 'first': first, 'st': st}, **p), t=300)]
        for p in passes: L += [TH(u, 'scalars', dict({'n': 2, 'first': k}, **p), t=700) for k in range(NST)]
        return L + [J(u, h, c, **k) for h, c, k in extra]
    return f
PS = lambda k: {'pass': k}
def q2(passes, firsts, st): return [(p, k, st) for p in passes for k in firsts]
SCB = '24 kinds of statements in four variants each (arithmetic through scalars and arrays, symbol assignments, nested loops, branches, while loops, early returns) between a fixed prologue and one of three epilogues; one statement in all combinations, selected pairs of two (thorough: all pairs); a in 0..3, b in -2..3, array elements 0..3'
prop('T05', scal([PS(0), PS(1), PS(2), PS(12)], q2([PS(0), PS(1)], (3, 4, 6, 10, 13, 16), bit(0, 4, 10))), SCB, TA, reach=RE)
prop('T06', scal([PS(3), PS(4), PS(5), PS(6), PS(9)], q2([PS(3), PS(4), PS(5)], (0, 4, 12, 13, 15), bit(1, 9, 15))), SCB, TA, reach=RE)
def wh(u): return [J(u, 'scalars', {'n': 1, 'pass': 11, 'st': bit(20), 'var': 7}, t=300), J(u, 'scalars', {'n': 1, 'pass': 11, 'st': bit(20), 'var': 8, 'out': 1}, t=300, reach=[], expect={'id': 'do-while-to-for', 'match': 'same memory'})]
def control():
    f = scal([PS(7), PS(8), PS(10)], q2([PS(7), PS(8), PS(10)], (5, 16, 17, 19), bit(13, 17, 19)))()
    f += [J(opt(), 'scalars', {'n': 1, 'pass': 11, 'st': m}, t=300) for m in (0xff, 0xff00, 0xef0000)] + wh(opt())
    return f + [TH(opt(), 'scalars', {'n': 2, 'pass': 11, 'first': k, 'st': 0xefffff}, t=700) for k in range(NST) if k != 20]
prop('T08', control, SCB, TA, reach=RE)
prop('T12', scal([{'pass': 15, 'pipe': q} for q in range(4)], q2([{'pass': 15, 'pipe': 2}], (4, 13, 16, 20), bit(0, 15, 17))), SCB, TA, reach=('applied', 'end'))
# generated code
def gen():
    u = opt(); L = []
    for cpp in (0, 1):
        def G(h, t=300, **k): L.append(J(u, 'gen_' + h, dict(k, cpp=cpp), t=t))
        s, us = ({'ity': 0xef}, {'ity': 0xee}) if not cpp else ({}, {})
        G('ops', lo=0, n=1, **({} if cpp else {'ity': 0x7ef, 'oty': 0x7ef}))
        for lo, n in ((1, 7), (8, 8), (16, 6)): G('ops', lo=lo, n=n)
        for lo, n in ((22, 2), (25, 2), (29, 3), (32, 2), (35, 3), (41, 3), (44, 3), (51, 1)): G('ops', lo=lo, n=n, **s)
        G('ops', lo=24, n=1, ity=0xfb if cpp else 0xeb); G('ops', lo=24, n=1, ity=4, const=2)
        for lo, n in ((27, 2), (34, 1), (38, 3), (47, 4)): G('ops', lo=lo, n=n, **us)
        G('expr', where=0); G('expr', where=1)
        for e in (0, 1, 6, 9): G('expr', where=2, e=bit(e), lo=1 + (e == 6))
        for e in (0x7, 0xf8, 0xf00, 0x7000, 0x1f8000): G('expr', where=3, e=e)
        for k in range(13): G('mem', k=k)
        for m in (0xff, 0xff00, 0xff0000): G('scalars', n=1, st=m)
        if cpp: G('pair', cons=1, cidx=1, bound=1, gap=1, init=1, src=1); G('nest', kind=2, post=1, imp=1, dep=16, stmt=4)
        else: G('nest', kind=2, post=1, imp=1, dep=16, stmt=1); G('pair', cons=2, cidx=1, bound=1, gap=1, init=1, src=1)
    L.append(J(u, 'gen_ops', {'lo': 27, 'n': 1, 'ity': 16, 'wide': 1, 'const': 1, 'cpp': 0}, t=200, expect={'id': 'c-uint8-signed-char', 'match': 'same memory'}))
    for cpp in (0, 1):
        L.extend([TH(u, 'gen_scalars', {'n': 2, 'first': k, 'cpp': cpp}, t=700) for k in range(NST)] + [TH(u, 'gen_expr', {'where': 2, 'e': bit(e), 'cpp': cpp}, t=700) for e in range(12)])
        L.extend([TH(u, 'gen_nest', {'kind': k, 'post': 1, 'imp': 1, 'stmt': bit(s), 'cpp': cpp}, t=700) for k in (1, 2, 8) for s in range(6)] + [TH(u, 'gen_pair', {'cons': bit(c), 'second': s, 'gap': 1, 'cpp': cpp}, t=700) for c in range(4) for s in (1, 2)])
    return L
prop('T11', gen, 'every tasklet code over 8- to 64-bit signed and unsigned integers (32-bit products of two variables only by constants), bool, float and double; 22 symbolic expressions and 12 conditions in assignments, branches, loop bounds and subscripts over a, b, n in -5..5; 13 memory programs (globals, structures, references, nested arrays, heap and stack allocation, memory copies, calls, math functions, managed storage, returns, null pointers); statements, nests and producer/consumer pairs of the other families; ' + PB,
     TA + ['the C and C++ rules used by the interpreter of the emitted text: int is 32 bits, char signed, two\'s complement, LP64 layout', 'one block is executed from its printed text; formatting, CUDA and C++ typing of pointers are outside'], reach=('end',))
def ser():
    u = opt(); L = []
    def G(h, t=300, **k): L.append(J(u, h, dict(k, ser=1), t=t))
    for k in range(13): G('gen_mem', k=k)
    G('gen_ops', lo=0, n=1, ity=0x110, oty=0x110); [G('gen_ops', lo=lo, n=n) for lo, n in ((1, 7), (8, 8), (16, 6))]; [G('gen_ops', lo=lo, n=n, ity=0x10) for lo, n in ((22, 11), (33, 11), (44, 8))]
    for w in range(4): G('gen_expr', where=w)
    for m in (0x3f, 0xfc0, 0x3f000, 0xfc0000): G('gen_scalars', n=1, st=m)
    G('gen_nest', kind=2, post=1, imp=1, dep=16, stmt=1); G('gen_nest', kind=2, post=1, imp=1, dep=16, stmt=4); G('gen_pair', cons=1, cidx=1, bound=1, gap=1, init=1, src=1)
    for a in (1, 2): G('ser_deco', later=2, ten=a, de=1); G('ser_deco', later=2, ten=a, de=2, al=1, text=1, cat=a, packed=a, var=a, link=a)
    G('ser_deco', later=1, ten=2, al=1, var=1)
    for k in (0, 5, 9): G('gen_mem', k=k, text=1, alsoclone=1)
    L.extend([TH(u, 'gen_scalars', {'n': 2, 'first': k, 'ser': 1}, t=700) for k in range(NST)] + [TH(u, 'gen_nest', {'kind': k, 'post': 1, 'imp': 1, 'stmt': bit(s), 'ser': 1}, t=700) for k in (1, 2, 8) for s in range(6)] + [TH(u, 'gen_ops', {'lo': l, 'n': 6, 'ser': 1}, t=700) for l in range(0, 54, 6)] + [TH(u, 'gen_mem', {'k': k, 'ser': 1, 'text': 1, 'alsoclone': 1}, t=700) for k in range(13)] + [TH(u, 'ser_deco', {'ser': 1, 'later': l, 'cat': bit(c)}, t=700) for l in (1, 2) for c in range(4)])
    return L
prop('T10', ser, 'the programs of T11 (every tasklet code, expressions and conditions in every place, 13 memory programs, statements, nests, pairs) plus one program with every kind of decoration: symbolic alignment, line and column numbers (text form: below 4), storage types with sizes and both allocation kinds, structures (packed or not), function types (variadic or not), externals of both linkages, schedule types of every category with properties (given at creation or set later), tensor memlets, metadata', TA + ['expressions are compared as printed text and by what the program computes; the JSON library is executed, its number and text forms only on part of the programs', 'containers whose name is a constant of the expression parser (E, I, pi, oo) and the sizes of non-scalar types inside expressions are outside'], reach=('end',))
