"""The check of each property, in terms of the runner in check.py."""
import json, os, random
import cli
from check import HARN, NCPU, REPO, VERIF, log

CHECKS = {}
BIG = 2**32 + 1004


def check(pid):
    def reg(f):
        CHECKS[pid] = f
        return f
    return reg


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f'known: property={pid} '):
                out.append('KNOWN-FINDING: ' + line[len('known: '):].strip())
    return out


def programs(r, name, progs):
    p = os.path.join(r.work, name + '.prog')
    with open(p, 'w') as f:
        f.write('\n'.join(progs) + '\n')
    return p


def simple(r, mode, module, variants=('plain', 'asan'), infile=None, **kw):
    """Record with each build, let TLC judge."""
    r.build(*variants)
    for v in variants:
        files = r.drive(mode, v, infile=infile)
        if v == variants[0]:
            r.sample(files)
        r.traces(module, files, label=f' ({v})', **kw)


def flbwt_models(r, invariants):
    for a, n in ((2, 13), (3, 9), (4, 7)) if r.thorough else ((2, 9), (3, 6), (4, 5)):
        r.model('MCFlbwt', invariants='NotStuck ' + invariants, A=a, N=n)


def lockstep(r, invariants):
    """The library's stages against the machine Flbwt.tla, on every small text."""
    pairs = []
    for k in (3, 2, 5):
        c = r.cfg('TracePipeline', 'NoMisuse ' + invariants, A=k)
        pairs += [(f, c) for f in r.drive('lockstep', 'plain', opt=str(k), tag=f'-{k}', shards=8 if r.thorough else 4)]
    r.traces('TracePipeline', pairs)


@check('C01')
def c01(r):
    r.model('Cert', **({'N': 10} if r.thorough else {}))
    r.build('plain', 'asan')
    flbwt_models(r, 'ResultOK DecodesOK NothingLeft WritesInBucket')
    lockstep(r, 'Induced')
    simple(r, 'bwt', 'TraceBwt')
    r.model('MCRunLF', **({'P': 3, 'N': 6} if r.thorough else {}))
    r.settle()
    r.huge(('string', 'give', [(98, 1), (97, BIG), (98, 1), (97, 1), (98, 1)]),     # a substring, a bucket and the result beyond 2^32
           ('string', 'keep', [(1, 1), (0, 2), (200, BIG), (0, 1), (1, 1), (0, 1)]))
    if r.thorough:
        r.huge(('string', 'give', [(97, BIG)]), ('string', 'keep', [(255, BIG), (0, 1)]))
        r.huge(('string', 'give', [(99, 1), ((97, 98), BIG // 2 + 5), ((97, 99), BIG // 8), (98, 1)]), need=16)   # more than 2^31 S* substrings: the 40-bit width
        r.huge(('string', 'give', [(0, BIG), (255, 3)]), ('string', 'give', [(7, BIG // 2), (9, BIG // 2), (7, 1), (8, 1)]))


def files(r, part, prop, invariants, variants):
    """Scenarios of the file machine, acted out on real files and judged."""
    r.model('MCFile', invariants='NotStuck ' + invariants, **({'N': 3} if r.thorough else {}))
    prog = programs(r, 'file', r.generate('FileGen', **({'A': 3, 'N': 3} if r.thorough else {})))
    c = r.cfg('TraceFile', P=f'"{prop}"')
    r.build(*variants)
    for v in variants:
        fs = r.drive('file', v, infile=prog, opt=part)
        if v == variants[0]:
            r.sample(fs)
        r.traces('TraceFile', fs, cfg=c, label=f' ({v})')


@check('C02')
def c02(r):
    files(r, 'good', 'C02', 'Written Decodes LengthOK', ('plain', 'asan'))
    r.model('MCRunLF')
    r.settle()
    r.huge(('file', '', [(1, 1), (0, BIG), (2, 1), (0, 1), (3, 1)]))


@check('C03')
def c03(r):
    r.model('MCWidths')
    r.model('MCSais', invariants='Fits', **({'N': 10, 'FreeMax': 2} if r.thorough else {}))
    simple(r, 'widths', 'TraceWidths')
    if r.thorough:    # more S* substrings than 2^31: the 40-bit width by itself
        r.settle()
        r.huge(('string', 'keep', [((97, 98), BIG // 2 + 5), (97, 1)]), need=20)


@check('C04')
def c04(r):
    if r.thorough:
        r.model('MCSais', N=12)
        r.model('MCSais', N=9, FreeMax=12)
        r.model('MCSais', K=3, N=8, FreeMax=4)
        r.model('MCSaisDeep', Level=4)
    else:
        r.model('MCSais', N=9)
        r.model('MCSais', N=7, FreeMax=6)
        r.model('MCSaisDeep', Level=2)
    r.model('MCShapes', **({'N': 16} if r.thorough else {}))
    simple(r, 'sais', 'TraceSais')


def run_stages(r, kind, prop):
    """The first stages on texts of more than 2^32 bytes, as runs."""
    r.model('MCRunStages')
    r.model('MCRunStages', A=2, N=10 if r.thorough else 8)
    r.settle()
    texts = [[(98, BIG), (97, 1), (98, 1), (97, 3), (98, 2), (97, 1), (98, 1)],                # the head and a bucket
             [(98, 1), (97, 2), (98, 3), (97, 1), (98, 2), (97, BIG), (98, 1), (97, 9)]]       # a substring, and what is stored behind it
    r.huge(*[(kind, '-', t) for t in texts], module='TraceStages', cfg=r.cfg('TraceStages', P=f'"{prop}"'))
    if r.thorough:
        r.huge((kind, '-', [(0, 2), (255, BIG), (0, 1), (7, 5), (0, BIG // 2), (1, 1), (0, 3)]),
               (kind, '-', [(5, 1), (0, BIG // 2), (7, BIG // 2 + 9), (0, 4), (7, 1), (2, 3), (3, 1), (0, 1)]), need=16,
               module='TraceStages', cfg=r.cfg('TraceStages', P=f'"{prop}"'))
        r.huge((kind, '-', [(9, 1), (8, BIG), (9, 1), (8, BIG + 1), (9, 1), (8, BIG), (9, 2)]), need=27,     # long names that differ late, and one twice
               module='TraceStages', cfg=r.cfg('TraceStages', P=f'"{prop}"'))


@check('C05')
def c05(r):
    r.model('Cert', **({'N': 10} if r.thorough else {}))
    flbwt_models(r, 'DecompositionOK')
    lockstep(r, 'Decomposed')
    simple(r, 'decomp', 'TraceDecomp')
    run_stages(r, 'decomp', 'C05')


@check('C06')
def c06(r):
    r.model('Cert', **({'N': 10} if r.thorough else {}))
    flbwt_models(r, 'NamesOK ShortenedOK')
    lockstep(r, 'Named Shortened')
    simple(r, 'names', 'TraceNames')
    run_stages(r, 'names', 'C06')


@check('C07')
def c07(r):
    r.model('Cert', **({'N': 10} if r.thorough else {}))
    flbwt_models(r, 'LRowOK QueueOrder EntryOK WritesInBucket ResultOK NothingLeft')
    lockstep(r, 'Induced')
    simple(r, 'induce', 'TraceInduce')
    r.model('MCRunLF')
    r.settle()
    rows = [(98, 1), (97, BIG), (98, 1), (97, 1), (98, 1)], [(98, BIG), (97, 1), (98, 2), (97, 2), (99, 1)]    # S* rows, rows of L-type beyond 2^32
    if r.thorough:
        r.huge(*[('induce', w, t) for w in (40, 48, 56, 64) for t in rows], need=10)
    else:
        r.huge(('induce', 40, rows[1]), ('induce', 48, rows[0]), ('induce', 56, rows[1]), need=10)


@check('C08')
def c08(r):
    r.model('MCHashTable', **({'MaxOps': 6} if r.thorough else {'MaxOps': 4}))
    progs = r.generate('HashGen', **({'Steps': 7} if r.thorough else {}))
    if r.thorough:
        random.Random(r.seed).shuffle(progs)
        progs = progs[:12000]
    simple(r, 'dict', 'TraceDict', infile=programs(r, 'dict', progs))


@check('C09')
def c09(r):
    r.model('MCHashTable', **({'MaxOps': 5} if r.thorough else {'MaxOps': 4}))
    simple(r, 'record', 'TraceRecord')


@check('C10')
def c10(r):
    r.model('MCPackedArray', **({'W': 5} if r.thorough else {}))
    simple(r, 'packed', 'TracePacked')


@check('C11')
def c11(r):
    r.model('MCQueue', **({'Q': 4, 'MaxLen': 10} if r.thorough else {}))
    progs = r.generate('QueueGen', Steps=3)
    more = r.generate('QueueGen', Steps=5 if r.thorough else 4)
    random.Random(r.seed).shuffle(more)
    progs += more[:20000 if r.thorough else 1500]
    simple(r, 'queue', 'TraceQueue', infile=programs(r, 'queue', progs))


@check('C12')
def c12(r):
    r.model('SplitInt')
    r.model('SplitInt', MI=0, HI=3 if r.thorough else 2)
    r.model('MCWidths')
    simple(r, 'split', 'TraceSplit')


@check('C13')
def c13(r):
    files(r, 'bad', 'C13', 'Rejected', ('plain', 'asan'))


@check('C14')
def c14(r):
    files(r, 'fault', 'C14', 'Complete', ('plain',))
    if r.thorough:    # an output cut short beyond 2^32 bytes
        r.settle()
        r.huge(('short', BIG - 4, [(1, 1), (0, BIG), (2, 1)]))


@check('C18')
def c18(r):
    r.model('Cli', **({'MaxArgs': 5} if r.thorough else {}))
    progs = r.generate('CliGen', **({'MaxArgs': 4} if r.thorough else {}))
    tool, ref = r.programs('tool', os.path.join(REPO, 'examples'), 'ref', os.path.join(HARN, 'cli'))
    cs = cli.calls(progs, r.seed, r.thorough)
    outs = [os.path.join(r.work, f'cli-{k}.nd') for k in range(NCPU)]

    def shard(k):
        with open(outs[k], 'w') as f:
            for c in cs[k::NCPU]:
                f.write(json.dumps(cli.one(c, tool, ref, os.path.join(r.work, f'cli{k}'))) + '\n')
    list(r.pool.map(shard, range(NCPU)))
    log(f'ran {len(cs)} calls of the tool')
    r.sample(outs)
    r.traces('TraceCli', outs)


@check('C15')
def c15(r):
    r.model('Ownership', invariants='NotStuck TextKept TextGone', **({'MaxMoves': 6} if r.thorough else {}))
    simple(r, 'own', 'TraceOwn', variants=('plain', 'asan', 'fine'))


@check('C16')
def c16(r):
    r.model('Isolation', **({'Len_': 4} if r.thorough else {}))
    r.refuted('Isolation', 'IsolationShared.cfg')
    progs = r.generate('IsoGen') + r.generate('IsoGen', Procs='{1, 2, 3}', Len_='3' if r.thorough else '2')
    infile = programs(r, 'iso', progs)
    r.build('plain', 'fine', 'tsan')
    for mode, v in (('sched', 'fine'), ('history', 'plain'), ('pairs', 'plain'), ('history', 'fine'), ('parallel', 'plain'), ('parallel', 'tsan')):
        files = r.drive('iso', v, infile=infile, opt=mode, tag='-' + mode, shards=2 if mode == 'parallel' else NCPU)
        r.sample(files, n=1)
        r.traces('TraceIso', files, label=f' ({mode}, {v})')


@check('C17')
def c17(r):
    r.model('Ownership', invariants='NotStuck EndClean', **({'MaxMoves': 6} if r.thorough else {}))
    r.model('MCFile', invariants='AllReleased NotStuck')
    prog = programs(r, 'file', r.generate('FileGen'))
    c = r.cfg('TraceFile', P='"C17"')
    r.build('plain')
    files = r.drive('life', 'plain')
    r.sample(files)
    r.traces('TraceLife', files)
    for mode in ('sais', 'induce'):     # the stages by themselves
        r.traces('TraceLeft', r.drive(mode, 'plain'), label=f' ({mode})')
    for part in ('good', 'bad', 'fault') if r.thorough else ('bad', 'fault'):
        r.traces('TraceFile', r.drive('file', 'plain', infile=prog, opt=part, tag='-' + part), cfg=c, label=f' ({part})')


@check('C19')
def c19(r):
    r.model('MCSpace', **({'MaxMoves': 4} if r.thorough else {}))
    flbwt_models(r, 'QueueBound')
    simple(r, 'space', 'TraceSpace', variants=('plain',))


@check('C20')
def c20(r):
    flbwt_models(r, 'StepBound')
    r.model('MCSais', invariants='StepBound NotStuck', **({'N': 11} if r.thorough else {'N': 9}))
    r.model('MCSaisDeep', invariants='StepBound NotStuck', Level=5 if r.thorough else 3)
    simple(r, 'work', 'TraceWork', variants=('fine',))
