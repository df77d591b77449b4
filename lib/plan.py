"""Which specifications decide which property, and with which bounds."""
import glob, json, os

from run import Failure
from tlc import run_tlc, ToolError


def tlc(module, name, consts, invariants=(), **kw):
    return dict(module=module, name=name, consts=consts, invariants=list(invariants), **kw)


def s(x):
    return '"%s"' % x


def c01(tier, seed):
    quick = tier == 'quick'
    fam = [
        'Mk(Small, {1, 32}, {"distinct"}, {0, 1}, Core, AllStores)',
        'Mk(Small, {5, 64, 100, 128}, {"mixed"}, {1}, Core, AllStores)',
        'Mk(Few, {2, 16, 32}, {"zero", "equal"}, {1}, Core, AllStores)',
        'Mk(Medium, {32}, {"seed%d"}, {1}, Core, AllStores)' % seed,
        'Mk(Wide \\cup Wider, {8}, {"distinct"}, {0, 1}, {"new", "new_with_config"}, {"vec", "disk"})',
        'Mk({<<2, 32768>>, <<2, 524288>>, <<4, 65536>>, <<8, 32768>>, <<8, 262144>>, <<16, 65536>>}, {7}, {"distinct"}, {1}, {"new_with_config"}, AllStores)',
        'Mk({<<2, 1048576>>, <<4, 1048576>>}, {5}, {"distinct"}, {1}, {"new_with_config"}, {"vec", "disk"})',
        'Mk({<<2, 8192>>, <<4, 16384>>, <<8, 32768>>, <<16, 65536>>}, {48, 100, 128}, {"distinct"}, {1}, {"new_with_config"}, AllStores)',
    ]
    if not quick:
        fam += ['Mk({<<2, 1048576>>, <<2, 2097152>>, <<4, 1048576>>, <<8, 2097152>>, <<16, 1048576>>}, {5}, {"distinct", "seed%d"}, {1}, {"new_with_config", "from_par_iter_with_config", "try_from_iter_with_config"}, AllStores)' % seed,
                'Mk({<<2, 524288>>, <<8, 262144>>, <<32, 32768>>, <<64, 262144>>}, {32}, {"distinct", "zero"}, {0, 1}, Core, AllStores)']
    return dict(features=['k_tree'], tlc=[
        tlc('TreeBuild', 'build', {'Arities': '{2, 4, 8, 16}', 'MaxLeaves': '64' if quick else '256', 'Chunk': '16'},
            ['NoBadValue', 'DoneExact', 'RowOrder']),
        tlc('GenTree', 'shapes', {'Cases': ' \\cup '.join(fam), 'TableMax': '1024'}, ['WellDefined', 'Emit'], workers=1),
    ])


def c02(tier, seed):
    quick = tier == 'quick'
    fam = [
        'Mk(Few, {1, 5, 32}, {"distinct", "mixed"}, {0, 1}, AllCtors, AllStores)',
        'Mk({<<16, 256>>, <<2, 1024>>, <<2, 2048>>, <<4, 4096>>, <<8, 4096>>}, {8, 32}, {"seed%d"}, {1}, AllCtors, AllStores)' % seed,
        'Mk({<<2, 8192>>, <<4, 16384>>, <<8, 32768>>}, {13}, {"distinct"}, {0}, AllCtors, AllStores)',
        'Mk({<<2, 524288>>, <<8, 262144>>}, {5}, {"distinct"}, {1}, {"from_par_iter", "from_par_iter_with_config", "try_from_iter", "from_byte_slice_with_config"}, {"vec", "disk"})',
    ]
    if not quick:
        fam += ['Mk({<<2, 524288>>, <<8, 262144>>, <<2, 1048576>>, <<4, 262144>>}, {8}, {"distinct"}, {1}, AllCtors, AllStores)',
                'Mk({<<64, 4096>>, <<128, 16384>>}, {32}, {"distinct"}, {0, 1}, AllCtors, AllStores)']
    return dict(features=['k_tree'], tlc=[
        tlc('GenTree', 'ctors', {'Cases': ' \\cup '.join(fam), 'TableMax': '256'}, ['WellDefined', 'Emit'], workers=1),
    ])


PROOF = ['WellDefined', 'Emit']


def gen_proof(name, kind, seed, fam, **kw):
    return tlc('GenProof', name, {'Cases': ' \\cup '.join(fam), 'Seed': str(seed), 'Kind': s(kind)}, PROOF, workers=1, **kw)


def c04(tier, seed):
    quick = tier == 'quick'
    small = 'Singles(2, 64) \\cup Singles(4, 64) \\cup Singles(8, 64) \\cup Singles(16, 256)'
    runs = [
        tlc('ProofGen', 'gen', {'Shapes': '{Shape(2, 2, 0, 0), Shape(2, 16, 0, 0), Shape(2, 128, 0, 0), Shape(4, 4, 0, 0), Shape(4, 64, 0, 0), Shape(8, 64, 0, 0), Shape(16, 16, 0, 0)}'}, ['Exact', 'Closes', 'PathIsDigits']),
        gen_proof('small', 'proof', seed, ['Mk(%s, {5, 32, 128}, {"distinct"}, {0, 1}, TRUE, 1)' % small,
                                           'Mk(%s, {16}, {"mixed", "equal"}, {1}, TRUE, 1)' % small]),
        gen_proof('medium', 'proof', seed, ['Mk({Shape(2, 512, 0, 0), Shape(4, 256, 0, 0), Shape(8, 512, 0, 0)}, {32}, {"seed%d"}, {1}, TRUE, 4)' % seed]),
        gen_proof('large', 'proof', seed, ['Mk({Shape(2, 4096, 0, 0), Shape(2, 32768, 0, 0), Shape(4, 65536, 0, 0), Shape(8, 32768, 0, 0), Shape(16, 65536, 0, 0)}, {8}, {"distinct"}, {0, 1}, FALSE, 1)',
                                           'Mk({Shape(32, 32, 0, 0), Shape(32, 1024, 0, 0), Shape(64, 4096, 0, 0), Shape(128, 128, 0, 0), Shape(128, 16384, 0, 0)}, {8}, {"distinct"}, {1}, FALSE, 1)',
                                           'Mk({Shape(256, 256, 0, 0), Shape(256, 65536, 0, 0), Shape(512, 512, 0, 0), Shape(1024, 1024, 0, 0)}, {8}, {"distinct"}, {1}, FALSE, 1)']),
    ]
    if not quick:
        runs.append(gen_proof('deep', 'proof', seed, ['Mk({Shape(2, 4096, 0, 0), Shape(4, 4096, 0, 0), Shape(8, 4096, 0, 0), Shape(16, 4096, 0, 0)}, {32}, {"seed%d"}, {0, 1}, TRUE, 16)' % seed, 'Mk({Shape(2, 1048576, 0, 0), Shape(4, 1048576, 0, 0), Shape(8, 262144, 0, 0)}, {8}, {"distinct"}, {1}, FALSE, 1)'], heap='4g', timeout=3000))
    return dict(features=['k_proof', 'k_session'], tlc=runs + sessions('full', tier, seed))


def forge(name, shapes, leaf0='all', vals='distinct', mode=1, vmode=None, moves=1, rich=True, plan='free', **kw):
    return tlc('Forge', name, {'Shapes': shapes, 'Leaf0': s(leaf0), 'Vals': s(vals), 'Mode': str(mode),
                               'ValMode': str(mode if vmode is None else vmode), 'MaxMoves': str(moves),
                               'Rich': 'TRUE' if rich else 'FALSE', 'Plan': s(plan)}, ['Judge'], view='View', **kw)


def sims(tier, seed, shapes, depth):
    """Random walks of the adversary, longer than what is enumerated."""
    k = 6 if tier == 'quick' else 150
    return [forge('walk%d' % j, shapes, mode=1 - j, moves=depth, simulate=k, seed=seed * 10 + j, depth=depth + 1, workers=1, timeout=3000) for j in (0, 1)]


def c05(tier, seed):
    runs = [
        forge('two-moves', '{Shape(2, 2, 0, 0), Shape(2, 4, 0, 0)}', moves=2, rich=False, leaf0='all'),
        forge('one-move', '{Shape(2, 8, 0, 0), Shape(4, 4, 0, 0), Shape(4, 16, 0, 0), Shape(8, 8, 0, 0)}'),
        forge('one-move-plain', '{Shape(2, 8, 0, 0), Shape(4, 16, 0, 0)}', mode=0),
        forge('equal-leaves', '{Shape(2, 8, 0, 0), Shape(4, 4, 0, 0)}', vals='pairs', mode=0),
        forge('other-algorithm', '{Shape(2, 2, 0, 0), Shape(2, 8, 0, 0), Shape(4, 4, 0, 0)}', mode=0, vmode=1, leaf0='edges'),
        forge('wide', '{Shape(16, 16, 0, 0), Shape(8, 64, 0, 0)}', leaf0='edges', rich=False),
        forge('nested', '{Shape(2, 2, 0, 0)}', moves=2, leaf0='edges'),
        forge('careless', '{Shape(2, 2, 0, 0), Shape(2, 4, 0, 0), Shape(2, 8, 0, 0), Shape(4, 4, 0, 0), Shape(4, 16, 0, 0), Shape(8, 8, 0, 0)}', leaf0='edges', moves=2, rich=False, plan='careless'),
        forge('careless-plain', '{Shape(2, 4, 0, 0), Shape(2, 8, 0, 0), Shape(4, 4, 0, 0), Shape(4, 16, 0, 0)}', leaf0='edges', moves=2, mode=0, rich=False, plan='careless'),
    ] + sims(tier, seed, '{Shape(2, 8, 0, 0), Shape(4, 16, 0, 0), Shape(2, 16, 0, 0)}', 5)
    if tier != 'quick':
        runs += [forge('two-moves-4', '{Shape(4, 4, 0, 0), Shape(2, 8, 0, 0)}', moves=2, rich=False, leaf0='edges', workers=4, timeout=3000, heap='4g'),
                 forge('two-moves-plain', '{Shape(2, 4, 0, 0), Shape(4, 4, 0, 0)}', mode=0, moves=2, rich=False, workers=4, timeout=3000, heap='4g'),
                 forge('three-moves', '{Shape(2, 2, 0, 0)}', moves=3, rich=False, workers=4, timeout=3000, heap='4g')]
    return dict(features=['k_forge', 'k_session'], tlc=runs + sessions('full', tier, seed) + sessions('lacking', tier, seed))


COMP = '{Shape(2, 4, 2, 0), Shape(2, 2, 3, 2), Shape(4, 4, 1, 0), Shape(2, 2, 1, 1)}'


def c06(tier, seed):
    runs = [
        forge('single', '{Shape(2, 2, 0, 0), Shape(2, 8, 0, 0), Shape(4, 16, 0, 0), Shape(8, 8, 0, 0)}', mode=0),
        forge('single-heights', '{Shape(2, 8, 0, 0), Shape(4, 4, 0, 0)}', mode=1),
        forge('equal-leaves', '{Shape(2, 8, 0, 0), Shape(2, 4, 2, 0)}', vals='pairs', mode=0),
        forge('compound', COMP, mode=1, rich=False),
        forge('compound-plain', COMP, mode=0, rich=False),
        forge('other-algorithm', '{Shape(2, 8, 0, 0), Shape(2, 4, 2, 0)}', mode=1, vmode=0, leaf0='edges', rich=False),
        forge('careless', '{Shape(2, 4, 0, 0), Shape(4, 4, 0, 0), Shape(2, 2, 2, 0), Shape(2, 2, 2, 2)}', leaf0='edges', moves=2, rich=False, plan='careless'),
        gen_proof('objects', 'proof', seed, ['Mk(Singles(2, 64) \\cup Singles(4, 64) \\cup Singles(8, 64), {32}, {"distinct"}, {0, 1}, TRUE, 1)']),
    ] + sims(tier, seed, '{Shape(2, 8, 0, 0), Shape(2, 4, 2, 0), Shape(2, 2, 3, 2)}', 4)
    if tier != 'quick':
        runs += [forge('two-moves', '{Shape(2, 2, 2, 0), Shape(2, 4, 0, 0)}', moves=2, rich=False, workers=4, timeout=3000, heap='4g')]
    return dict(features=['k_forge', 'k_proof', 'k_session'], tlc=runs + sessions('full', tier, seed) + sessions('compound', tier, seed))


SMALLC = ['Shape(2, 2, 1, 0)', 'Shape(2, 4, 2, 0)', 'Shape(2, 8, 3, 0)', 'Shape(4, 16, 2, 0)', 'Shape(4, 4, 5, 0)', 'Shape(8, 8, 8, 0)', 'Shape(8, 8, 4, 0)',
          'Shape(2, 4, 1, 1)', 'Shape(2, 4, 2, 2)', 'Shape(2, 8, 3, 2)', 'Shape(2, 4, 2, 3)', 'Shape(4, 4, 1, 2)', 'Shape(4, 16, 2, 3)', 'Shape(2, 2, 2, 4)', 'Shape(2, 4, 1, 5)', 'Shape(4, 4, 3, 4)']
BIGC = ['Shape(2, 1024, 3, 0)', 'Shape(4, 4096, 2, 3)', 'Shape(8, 512, 8, 2)', 'Shape(8, 4096, 4, 0)', 'Shape(2, 256, 2, 2)', 'Shape(4, 1024, 5, 0)']


def tset(l):
    return '{' + ', '.join(l) + '}'


def compound(tier, seed, modes='{0, 1}'):
    runs = [gen_proof('compound', 'compound', seed, ['Mk(%s, {5, 32}, {"distinct"}, %s, TRUE, 1)' % (tset(SMALLC), modes)]),
            # parts that are equal to each other: all of them, every second, every fourth
            gen_proof('compound-equal', 'compound', seed, ['Mk(%s, {16}, {"mixed", "cycle4", "cycle8", "cycle16", "equal"}, {1}, TRUE, 1)' % tset(SMALLC)]),
            gen_proof('compound-big', 'compound', seed, ['Mk(%s, {8}, {"seed%d"}, {1}, FALSE, 1)' % (tset(BIGC if tier != 'quick' else BIGC[:3]), seed)])]
    return runs


def c07(tier, seed):
    shapes = ['Shape(2, 4, 1, 0)', 'Shape(2, 4, 3, 0)', 'Shape(4, 4, 2, 3)', 'Shape(2, 4, 3, 2)', 'Shape(8, 8, 4, 1)', 'Shape(2, 2, 1, 1)']
    return dict(features=['k_compound', 'k_session'], tlc=[
        tlc('ProofGen', 'gen', {'Shapes': tset(shapes)}, ['Exact', 'Closes', 'PathIsDigits']),
    ] + compound(tier, seed) + sessions('compound', tier, seed))


def c08(tier, seed):
    runs = [
        forge('compound', COMP, mode=1),
        forge('compound-plain', '{Shape(2, 4, 2, 0), Shape(2, 4, 3, 2), Shape(4, 4, 1, 0)}', mode=0, leaf0='edges'),
        forge('equal-parts', '{Shape(2, 4, 2, 0), Shape(2, 2, 3, 2)}', vals='pairs', mode=0, rich=False),
        forge('two-moves', '{Shape(2, 2, 2, 0), Shape(2, 2, 2, 2)}', moves=2, rich=False, leaf0='edges', workers=4),
        forge('other-algorithm', '{Shape(2, 4, 2, 0), Shape(2, 2, 3, 2)}', mode=1, vmode=0, leaf0='edges', rich=False),
        forge('careless', '{Shape(2, 2, 2, 0), Shape(2, 4, 3, 0), Shape(2, 2, 2, 2), Shape(2, 2, 3, 2), Shape(4, 4, 1, 0), Shape(2, 2, 1, 1)}', leaf0='edges', moves=2, rich=False, plan='careless'),
        forge('careless-plain', '{Shape(2, 4, 2, 0), Shape(2, 2, 3, 2)}', leaf0='edges', mode=0, moves=2, rich=False, plan='careless'),
    ] + sims(tier, seed, '{Shape(2, 4, 2, 0), Shape(2, 2, 3, 2), Shape(4, 4, 2, 3)}', 4) + compound(tier, seed)
    return dict(features=['k_forge', 'k_compound', 'k_session'], tlc=runs + sessions('compound', tier, seed))


def c09(tier, seed):
    quick = tier == 'quick'
    sizes = '{<<2, 2>>, <<2, 4>>, <<2, 8>>, <<2, 16>>, <<2, 32>>, <<4, 4>>, <<4, 16>>, <<4, 64>>, <<8, 8>>, <<8, 64>>, <<16, 16>>}'
    small = 'Singles(2, 64) \\cup Singles(4, 64) \\cup Singles(8, 64) \\cup Singles(16, 16)'
    big = ['Shape(2, 1024, 0, 0)', 'Shape(2, 8192, 0, 0)', 'Shape(4, 4096, 0, 0)', 'Shape(4, 65536, 0, 0)', 'Shape(8, 4096, 0, 0)', 'Shape(8, 32768, 0, 0)', 'Shape(16, 4096, 0, 0)']
    runs = [
        tlc('CachedProof', 'partial', {'Sizes': sizes}, ['NeverWrong', 'Answered', 'PartialIsTrue'], spec='Spec', workers=4),
        tlc('CachedProof', 'ends', {'Sizes': '{<<2, 8>>, <<4, 16>>}'}, [], spec='Spec', props=['Ends']),
        gen_proof('small', 'cached', seed, ['Mk(%s, {5, 32}, {"distinct"}, {0, 1}, TRUE, 1)' % small, 'Mk(%s, {16}, {"mixed"}, {1}, TRUE, 1)' % small]),
        gen_proof('big', 'cached', seed, ['Mk(%s, {32}, {"seed%d"}, {1}, FALSE, 1)' % (tset(big), seed)]),
        gen_proof('all-leaves', 'cached', seed, ['Mk({Shape(2, 256, 0, 0), Shape(4, 256, 0, 0), Shape(8, 512, 0, 0), Shape(16, 256, 0, 0)}, {8}, {"distinct"}, {1}, TRUE, 4)']),
    ] + compound(tier, seed, '{1}')
    if not quick:
        runs += [tlc('CachedProof', 'partial-deep', {'Sizes': '{<<2, 64>>, <<2, 128>>, <<4, 256>>, <<8, 512>>, <<16, 256>>}'}, ['NeverWrong', 'Answered', 'PartialIsTrue'], spec='Spec', workers=6, timeout=3000, heap='6g'),
                 gen_proof('deep', 'cached', seed, ['Mk({Shape(2, 1024, 0, 0), Shape(4, 1024, 0, 0), Shape(8, 4096, 0, 0)}, {8}, {"distinct"}, {1}, TRUE, 16)',
                                                    'Mk({Shape(2, 524288, 0, 0), Shape(8, 262144, 0, 0)}, {8}, {"distinct"}, {1}, FALSE, 1)'], timeout=3000, heap='4g')]
    runs += sessions('lacking', tier, seed) + sessions('compound', tier, seed)
    return dict(features=['k_cached', 'k_compound', 'k_session'], tlc=runs)


def c15(tier, seed):
    return dict(features=['k_geo'], limit=60, tlc=[
        tlc('Geometry', 'geometry', {'MaxBit': '62'}, ['Agrees', 'Emit'], workers=1),
        tlc('GenericLen', 'compound', {'MaxBit': '55'}, ['Agrees', 'Emit'], workers=1),
    ])


ARR = ['TypeOK', 'Highest', 'Latest', 'Emit']


def arr(name, cap, bounded, maps, stores, steps, beyond=2, slices=2, inits=None, far='{}', scale=1, **kw):
    inits = inits or ['<<"plain", 0>>', '<<"plain", 2>>', '<<"config", 0>>', '<<"config", %d>>' % (cap - 1)]
    return tlc('StoreArr', name, {'Cap': str(cap), 'Bounded': str(bounded).upper(), 'Maps': str(maps).upper(), 'Inits': tset(inits), 'Beyond': str(beyond),
                                  'MaxSlice': str(slices), 'Far': far, 'Scale': str(scale), 'Depth_': str(steps), 'Stores': '<<%s>>' % ', '.join(s(x) for x in stores)}, ARR, spec='Spec', workers=2, **kw)


def c14(tier, seed):
    quick = tier == 'quick'
    d = 3 if quick else 4
    k = 40 if quick else 2000
    b = 1 if quick else 100
    runs = [
        arr('file', 3, True, False, ['disk', 'lc'], d, props=['RefusalIsNoOp']),
        arr('map', 3, True, True, ['mmap'], d),
        arr('far-file', 3, True, False, ['disk', 'lc'], 2, far='0..3', props=['RefusalIsNoOp']),
        arr('far-map', 3, True, True, ['mmap'], 2, far='0..3'),
        arr('memory', 2, False, False, ['vec'], d, inits=['<<"plain", 0>>', '<<"plain", 1>>', '<<"config", 1>>']),
        arr('long-file', 7, True, False, ['disk', 'lc'], 14, slices=4, far='0..3', simulate=k, seed=seed, depth=15),
        arr('long-map', 7, True, True, ['mmap'], 14, slices=4, far='0..3', simulate=k, seed=seed, depth=15),
        arr('long-memory', 7, False, False, ['vec'], 14, slices=4, far='0..3', simulate=k, seed=seed, depth=15),
    ]
    for (w, n, m) in ((585, 7, 4), (5461, 3, 2)):
        runs += [
            arr('blocks-file-%d' % w, n, True, False, ['disk', 'lc'], 8, slices=m, scale=w, simulate=b if n < 7 else 4 * b, seed=seed, depth=9),
            arr('blocks-map-%d' % w, n, True, True, ['mmap'], 8, slices=m, scale=w, simulate=b if n < 7 else 4 * b, seed=seed, depth=9),
            arr('blocks-memory-%d' % w, n, False, False, ['vec'], 8, slices=m, scale=w, simulate=b if n < 7 else 4 * b, seed=seed, depth=9),
        ]
    return dict(features=['k_array'], tlc=runs)


def c17(tier, seed):
    quick = tier == 'quick'
    inv = ['EachOnceInOrder', 'Finish', 'Emit']
    return dict(features=['k_iter'], tlc=[
        tlc('Iter', 'pieces', {'Ns': '{0, 1, 2, 3}', 'MaxSplits': '2', 'Depth_': '6' if quick else '7', 'Bulk': 'FALSE'}, inv, spec='Spec', workers=3),
        tlc('Iter', 'one-piece', {'Ns': '0..5', 'MaxSplits': '0', 'Depth_': '9' if quick else '12', 'Bulk': 'FALSE'}, inv, spec='Spec', workers=2),
        tlc('Iter', 'bulk', {'Ns': '{0, 1, 4, 5}', 'MaxSplits': '1', 'Depth_': '4' if quick else '5', 'Bulk': 'TRUE'}, inv, spec='Spec', workers=3),
        tlc('Iter', 'walks', {'Ns': '{4, 7, 16}', 'MaxSplits': '6', 'Depth_': '30', 'Bulk': 'TRUE'}, inv, spec='Spec', workers=1, simulate=100 if quick else 4000, seed=seed, depth=31),
        tlc('ParIter', 'collected', {'Sizes': '{0, 1, 2, 3, 7, 64, 1000, 4097}' if quick else '(0..70) \\cup {1000, 4097, 20000}', 'Pools': '{1, 2, 3, 4, 8}', 'Grains': '{1, 2, 5, 100}'}, ['Emit'], workers=1),
    ])


def c18(tier, seed):
    return dict(features=['k_enc'], tlc=[tlc('HashEnc', 'encoding', {'Deep': 'FALSE' if tier == 'quick' else 'TRUE'}, ['AllBytes', 'Emit'], workers=2)])


def c11(tier, seed):
    quick = tier == 'quick'
    small = '{<<2, 2>>, <<2, 4>>, <<2, 8>>, <<2, 16>>, <<4, 4>>, <<4, 16>>, <<8, 8>>, <<16, 16>>}'
    mid = '{<<2, 32>>, <<4, 64>>, <<8, 64>>}'
    big = '{<<2, 1024>>, <<2, 8192>>, <<4, 4096>>, <<8, 4096>>, <<8, 32768>>, <<16, 4096>>}'
    return dict(features=['k_lcread', 'k_session'], tlc=[
        tlc('LCRead', 'small', {'Sizes': small, 'Envs': '{<<5, 1, "distinct">>, <<32, 0, "mixed">>, <<128, 1, "distinct">>}'}, ['Check', 'Emit'], workers=2),
        tlc('LCRead', 'mid', {'Sizes': mid if quick else mid[:-1] + ', <<2, 64>>}', 'Envs': '{<<8, 1, "seed%d">>}' % seed}, ['Check', 'Emit'], workers=2, timeout=1500),
        tlc('LCRead', 'big', {'Sizes': big, 'Envs': '{<<32, 1, "distinct">>}'}, ['Check', 'Emit'], workers=1),
    ] + sessions('full', tier, seed) + sessions('lacking', tier, seed))


def c13(tier, seed):
    quick = tier == 'quick'
    shapes = [(2, 4, 0, 0, (0, 1)), (4, 16, 0, 0, (0, 1)), (8, 64, 0, 0, (1,)), (2, 8, 1, 0, (2,)), (2, 8, 3, 0, (0, 2)), (4, 16, 2, 0, (1,)), (8, 8, 8, 0, (0,)),
              (2, 4, 2, 2, (1,)), (2, 8, 3, 2, (1,)), (4, 4, 2, 3, (0,)), (8, 8, 1, 1, (0,))]
    if not quick:
        shapes += [(2, 32, 0, 0, (0, 1, 2, 3)), (4, 64, 2, 3, (1, 2)), (2, 32, 3, 2, (0, 3)), (8, 64, 8, 0, (1,))]
    recs = []
    for (b, m, s_, t, rs) in shapes:
        for r in rs:
            for e in ((5, 32) if quick else (1, 5, 32, 64)):
                for p in ('packed', 'reversed', 'gaps', 'shuffled', 'far', 'edge', 'edge2'):
                    recs.append('[b |-> %d, m |-> %d, s |-> %d, t |-> %d, r |-> %d, es |-> %d, pat |-> "%s"]' % (b, m, s_, t, r, e, p))
    return dict(features=['k_replica'], tlc=[tlc('Replica', 'replica', {'Cases': tset(recs)}, ['Disjoint', 'Injective', 'CutSane', 'Emit'], workers=3)])


LIFE = ['OpenIsTrue', 'Kept', 'Emit']
LIFEP = ['Isolated', 'OnlyThen', 'RefusedIsNoOp']
CTORS = ['new_with_config', 'try_from_iter_with_config', 'from_par_iter_with_config', 'from_data_with_config', 'from_byte_slice_with_config', 'from_tree_slice_with_config']


def life(name, shapes, acts, depth, ctors=('new_with_config',), stores=('disk', 'mmap', 'lc'), rs='{0, 1, 2}', vers='{1, 2}', handles=2, walk=0, **kw):
    consts = {'Shapes': tset('[b |-> %d, ns |-> <<%s>>]' % (b, ', '.join(map(str, ns))) for b, ns in shapes),
              'Acts': tset(map(s, acts)), 'BuildCtors': tset(map(s, ctors)), 'Stores': tset(map(s, stores)), 'Rs': rs, 'Vers': vers,
              'Handles': '1..%d' % handles, 'Depth_': str(depth)}
    if walk:
        return tlc('Lifecycle', name, consts, ['OpenIsTrue', 'Kept', 'EmitLast'], spec='Spec', simulate=walk, depth=depth + 1, workers=1, props=LIFEP, timeout=3000, **kw)
    return tlc('Lifecycle', name, consts, LIFE, spec='Spec', view='View', props=LIFEP, timeout=3000, heap='4g', **kw)


def c10(tier, seed):
    quick = tier == 'quick'
    acts = ['build', 'attach', 'open', 'close', 'compact', 'reinit']
    one = [(2, (4,)), (2, (2,)), (4, (16,)), (2, (16,)), (8, (8,)), (16, (16,))]
    return dict(features=['k_life'], tlc=[
        life('compact', one, acts, 5 if quick else 7, rs='{0, 1, 2, 3, 7}', workers=2),
        life('ctors', [(2, (8,)), (4, (4,)), (4, (64,))], acts, 3 if quick else 4, ctors=CTORS, rs='{0, 1, 2, 3, 9}', workers=2),
        life('two', [(2, (8, 4)), (4, (16, 16))], acts, 4 if quick else 5, rs='{1, 3}', workers=3),
        life('large', [(2, (1024,)), (2, (8192,)), (4, (4096,)), (8, (4096,)), (8, (32768,)), (16, (4096,))], ['build', 'compact', 'open'], 3, stores=('disk', 'lc'), rs='{0, 1, 2, 3, 5, 7, 11, 12}', vers='{1}', handles=1, workers=1),
        life('walks', [(2, (8, 4, 8)), (4, (16, 4, 16)), (2, (32, 2, 16)), (8, (64, 8, 8))], acts + ['delete', 'query'], 12, ctors=CTORS, rs='{0, 1, 2, 3, 4}', handles=3, walk=8 if quick else 300, seed=seed),
    ])


def c12(tier, seed):
    quick = tier == 'quick'
    acts = ['build', 'attach', 'open', 'ro', 'close', 'compact', 'query']
    return dict(features=['k_life'], tlc=[
        life('open', [(2, (8, 4))] + ([] if quick else [(2, (2, 4)), (4, (16, 4)), (8, (8, 64))]), acts, 4, rs='{0, 1}', handles=1 if quick else 2, workers=3),
        life('torn', [(2, (8, 4)), (4, (4, 16))], ['build', 'open', 'ro', 'close', 'query', 'tear', 'delete'], 5, vers='{1}' if quick else '{1, 2}', rs='{0, 1}', handles=1, workers=3),
        life('shapes', [(2, (2, 4)), (4, (16, 4)), (8, (8, 64)), (16, (16, 256))], acts, 3, rs='{0, 1}', handles=2, workers=3),
        life('ctors', [(2, (8,)), (4, (64,))], ['build', 'open', 'ro', 'close', 'compact'], 4 if quick else 5, ctors=CTORS, rs='{0, 1, 2}', workers=3),
        life('large', [(2, (2048,)), (4, (1024,)), (8, (4096,)), (2, (16384,)), (8, (32768,))], ['build', 'close', 'open', 'query'], 4, ctors=CTORS if not quick else CTORS[2:5], rs='{0, 2}', handles=1, workers=1),
        life('walks', [(2, (8, 4, 8)), (4, (16, 4, 16)), (2, (32, 2, 16)), (8, (64, 8, 8))], acts + ['delete', 'reinit', 'tear'], 14, ctors=CTORS, rs='{0, 1, 2, 3}', handles=3, walk=8 if quick else 300, seed=seed),
    ])


def c19(tier, seed):
    quick = tier == 'quick'
    acts = ['build', 'attach', 'open', 'close', 'compact', 'delete', 'hammer']
    return dict(features=['k_life'], tlc=[
        life('isolation', [(2, (8, 8, 8)), (4, (4, 16, 4))], ['build', 'delete', 'compact', 'close'], 4 if quick else 5, stores=('disk', 'lc'), rs='{0, 1}', workers=3),
        life('delete', [(2, (4, 8)), (4, (16, 16))], ['build', 'delete', 'open', 'attach'], 4 if quick else 5, rs='{0}', workers=2),
        life('unnamed', [(2, (8, 8))] + ([] if quick else [(4, (16, 4))]), ['anon', 'build', 'close', 'hammer', 'delete'], 3 if quick else 4, stores=('disk', 'mmap'), rs='{0}', handles=3, workers=2),
        life('readers', [(2, (8, 4, 8)), (4, (16, 16, 4))], ['build', 'attach', 'open', 'hammer'], 3 if quick else 4, rs='{0, 1}', vers='{1}', workers=2),
        life('readers-large', [(2, (1024, 2048)), (8, (512, 4096))], ['build', 'attach', 'open', 'hammer'], 2 if quick else 3, rs='{1}', vers='{1}', handles=2, workers=1),
        life('walks', [(2, (8, 4, 8)), (4, (16, 4, 16)), (2, (32, 32, 16)), (8, (64, 8, 8))], acts + ['query', 'reinit', 'anon'], 14, ctors=CTORS, rs='{0, 1, 2}', handles=3, walk=8 if quick else 300, seed=seed),
    ])


def c16(tier, seed):
    quick = tier == 'quick'
    counts = '(0..34) \\cup {36, 48, 63, 64, 65, 100, 127, 128, 129, 216, 255, 256, 512, 1000, 1024, 1025, 2048, 4096, 8192}' if quick else '(0..300) \\cup {343, 511, 512, 1000, 1023, 1024, 1025, 1728, 2047, 2048, 4095, 4096, 4097, 8192, 16384}'
    return dict(features=['k_reject', 'k_parts'], limit=60, tlc=[
        tlc('Reject', 'requests', {'Arities': '{0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 8192}', 'Counts': counts,
                                   'TreeCases': '{<<2, 2>>, <<2, 4>>, <<2, 8>>, <<2, 16>>, <<4, 4>>, <<4, 16>>}', 'Shapes': '{<<1, 0>>, <<2, 0>>, <<0, 1>>, <<0, 2>>, <<2, 2>>}'},
            ['NeverWrong', 'OneAndOnly', 'Emit'], spec='Spec', workers=3),
        tlc('Parts', 'parts', {'Declared': '{<<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, 1>>, <<0, 2>>, <<1, 1>>, <<2, 1>>, <<1, 2>>%s}' % ('' if quick else ', <<3, 0>>, <<2, 2>>'), 'Trees': '{<<2, 4>>, <<4, 4>>, <<2, 2>>}', 'Depth_': '5' if quick else '6'},
            ['NoWrong', 'Emit'], spec='Spec', view='View', props=['OnlyBuildCreates'], workers=3),
    ])


def c20(tier, seed):
    quick = tier == 'quick'
    K = 262144
    big = []
    def fs(*sets):
        return '<<%s>>' % ', '.join('{%s}' % ', '.join(map(str, x)) for x in sets)
    for b, n, hs in [(2, 2048, [0, 1023, 1024, 2047]), (4, 4096, [0, 4095]), (8, 32768, [4095, 4096, 32767]), (2, 2 * K, [0, K - 1, K, 2 * K - 1])] + \
            ([] if quick else [(4, 4 * K, [K - 1, K, 2 * K - 1, 2 * K, 3 * K, 4 * K - 1]), (8, 8 * K, [K, 5 * K - 1, 8 * K - 1]), (2, K, [K - 1, K // 2]), (2, 16 * K, [3 * K, 15 * K - 1])]):
        for h in hs:
            big.append('<<%d, %d, %s>>' % (b, n, fs([h], [])))
            if not quick:
                big.append('<<%d, %d, %s>>' % (b, n, fs([h, n - 1], [h], [], [h])))
    runs = []
    for b, sizes in ((2, '{2, 4, 8}'), (4, '{4, 16}'), (8, '{8}')):
        runs.append(tlc('Fault', 'faults%d' % b, {'Arity': str(b), 'Sizes': sizes if not (quick and b == 4) else '{4}', 'MaxFaults': '2', 'Attempts_': '2', 'Block': '3', 'Given': tset(x for x in big if x.startswith('<<%d,' % b))},
                        ['AsDefined', 'Whole', 'Emit'], spec='Spec', workers=2))
    runs.append(tlc('Fault', 'three', {'Arity': '2', 'Sizes': '{4}', 'MaxFaults': '1' if quick else '2', 'Attempts_': '3', 'Block': '2', 'Given': '{}'}, ['AsDefined', 'Whole', 'Emit'], spec='Spec', workers=2))
    if not quick:
        runs.append(tlc('Fault', 'sixteen', {'Arity': '4', 'Sizes': '{16}', 'MaxFaults': '1', 'Attempts_': '2', 'Block': '5', 'Given': '{}'}, ['AsDefined', 'Whole', 'Emit'], spec='Spec', workers=2))
        runs.append(tlc('Fault', 'allsubsets', {'Arity': '2', 'Sizes': '{8}', 'MaxFaults': '8', 'Attempts_': '1', 'Block': '3', 'Given': '{}'}, ['AsDefined', 'Whole', 'Emit'], spec='Spec', workers=2))
    return dict(features=['k_fault'], tlc=runs)


def validate_traces(vh, work, tier, seed):
    """Recorded executions of the build, checked by TLC against TraceBuild."""
    lines = []
    for f in sorted(glob.glob(os.path.join(work, 'trace*'))):
        lines += [l for l in open(f).read().splitlines() if l]
    if not lines:
        return 0, [], 0, 0, {'recorded_traces': 0}
    merged = os.path.join(work, 'traces.ndjson')
    open(merged, 'w').write('\n'.join(lines) + '\n')
    res = run_tlc(work=work, **tlc('TraceBuild', 'traces', {'File': s(merged)}, ['Emit'], spec='Spec', workers=4))
    print('tlc %-24s %8d states, %d recorded executions of the build checked  %.1fs' % ('traces', res.states, len(lines), res.wall), flush=True)
    good = sum(1 for l in res.lines if l.startswith('{"good"'))
    bad = [json.loads(l) for l in res.lines if '"bad"' in l]
    if good + len(bad) != len(lines):
        raise ToolError('traces: %d of %d were judged' % (good + len(bad), len(lines)))
    fails = []
    for x in bad:
        tr = json.loads(lines[x['bad'] - 1])
        fails.append(Failure(x['bad'], lines[x['bad'] - 1], 'step %d of a recorded execution is not one of the specification: %s; %s' % (x['at'], json.dumps(tr['ev'][x['at'] - 1])[:200], tr['what'])))
    return len(lines), fails, res.states, res.transitions, {'recorded_traces': len(lines)}


def c03(tier, seed):
    quick = tier == 'quick'
    def rec(b, n, kind, r, w, chunk, block):
        return '[b |-> %d, n |-> %d, kind |-> "%s", r |-> %d, w |-> %d, chunk |-> %d, block |-> %d]' % (b, n, kind, r, w, chunk, block)
    inv = ['OnlyNodes', 'Once', 'Disjoint', 'Exact', 'Emit']
    kinds = [('lock', 0), ('map', 0), ('lc', 0), ('lc', 1)]
    # every interleaving of reads and writes, pool sizes below, at and above the number of pieces
    every = [rec(2, 8, k, r, w, 2, bl) for k, r in kinds for w in (1, 2, 3) for bl in (2, 4)] + [rec(4, 16, k, r if r == 0 else 0, w, 4, 8) for k, r in kinds[:3] for w in (2, 4)]
    if not quick:
        every += [rec(2, 16, k, r, w, 4, 8) for k, r in kinds + [('lc', 2)] for w in (2, 4)] + [rec(2, 16, k, r, 3, 2, 8) for k, r in kinds] + [rec(8, 64, k, 0, 2, 16, 32) for k, _ in kinds[:3]]
    # the orders in which the real workers are made to finish
    rows_ = [rec(2, 8, k, r, 4, 2, 8) for k, r in kinds] + [rec(4, 16, k, r if k != 'lc' else 1 * r, 4, 4, 16) for k, r in kinds if r == 0]
    pop = [rec(2, 4, k, 0, 2, 4, 2) for k in ('lock', 'map', 'lc')] + ([] if quick else [rec(4, 16, k, 0, 4, 16, 4) for k in ('lock', 'map')])
    free = []
    for b, n in [(2, 8192), (4, 16384), (8, 32768), (2, 32768), (2, 1024), (2, 2048)] + ([] if quick else [(16, 65536), (2, 131072), (8, 262144), (2, 524288), (64, 262144)]):
        for k, r in [('lock', 0), ('map', 0), ('lc', 1)]:
            for w in ((1, 2, 3, 8) + ((33,) if n >= 16384 else ()) if quick else (1, 2, 3, 4, 5, 6, 7, 8, 16, 33, 64)):
                free.append('<<%d, %d, "%s", %d, %d>>' % (b, n, k, r, w))
    runs = [
        tlc('ParBuild', 'interleavings', {'Cases': tset(every), 'Real': '0', 'Free': '{}'}, inv, spec='Spec', view='NoOrder', props=['Ends'], workers=4, heap='4g', timeout=3000),
        tlc('ParBuild', 'orders', {'Cases': tset(rows_), 'Real': '4096', 'Free': tset(free)}, inv, init='Init', nxt='Next', workers=2),
        tlc('ParBuild', 'blocks', {'Cases': tset(pop), 'Real': '4096', 'Free': '{}'}, inv, init='Init', nxt='Next', workers=1),
    ]
    wide = [rec(2, 16, k, r, 8, 2, 16) for k, r in kinds] + [rec(8, 64, k, 0, 8, 8, 64) for k in ('lock', 'map', 'lc')]
    runs.append(tlc('ParBuild', 'wide', {'Cases': tset(wide), 'Real': '4096', 'Free': '{}'}, inv, spec='Spec', simulate=40 if quick else 600, depth=200, seed=seed, workers=1))
    return dict(features=['k_sched'], tlc=runs, shards=4, pool=2, after=[validate_traces])


def session(name, setups, plan='walk', steps=60, vers=2, walks=0, seed=1, **kw):
    """Several trees at a time; setups: (element size, algorithm, [(shape, how, rows missing)])."""
    rec = tset('[es |-> %d, mode |-> %d, slots |-> <<%s>>]' % (es, mode, ', '.join('[sh |-> Shape(%d, %d, %d, %d), how |-> "%s", r0 |-> %d]' % (tuple(sh) + (how, r0)) for sh, how, r0 in slots))
               for es, mode, slots in setups)
    consts = {'Setups': rec, 'Plan': s(plan), 'Steps': str(steps), 'Vers': str(vers)}
    if plan == 'walk':
        return tlc('Session', name, consts, ['Honest', 'OnlyProofs', 'Emit'], spec='Spec', simulate=walks, seed=seed, depth=3 * steps + 5, workers=1, timeout=3000, **kw)
    return tlc('Session', name, consts, ['Emit'], spec='Spec', workers=1, **kw)


def sessions(flavour, tier, seed):
    """Runs of several trees at a time: single trees that are complete, that lack rows, or compound trees."""
    T = lambda b, m: (b, m, 0, 0)
    if flavour == 'full':
        sets = [(32, 1, [(T(2, 8), 'vec', 0), (T(2, 8), 'disk', 0), (T(2, 16), 'disk', 0)]),
                (5, 0, [(T(4, 16), 'disk', 0), (T(4, 16), 'mmap', 0), (T(2, 16), 'vec', 0), (T(4, 4), 'built', 0)]),
                (16, 1, [(T(8, 8), 'disk', 0), (T(8, 8), 'disk', 0), (T(8, 64), 'built', 0)])]
    elif flavour == 'lacking':
        sets = [(32, 1, [(T(2, 16), 'v2', 1), (T(2, 16), 'v2', 1), (T(2, 16), 'v1', 2)]),
                (8, 1, [(T(2, 32), 'v1', 2), (T(2, 32), 'later', 2), (T(2, 8), 'v2', 2), (T(2, 32), 'disk', 0)]),
                (16, 0, [(T(4, 16), 'v2', 1), (T(4, 64), 'v2', 2), (T(4, 64), 'later', 2), (T(4, 16), 'v1', 1)]),
                (32, 0, [(T(8, 64), 'v2', 1), (T(8, 64), 'v1', 1), (T(2, 64), 'v2', 3), (T(2, 64), 'v2', 3)]),
                (5, 1, [(T(2, 16), 'built', 0), (T(2, 16), 'v2', 0), (T(2, 16), 'v1', 3), (T(2, 4), 'v2', 1)])]
    else:
        sets = [(32, 1, [((2, 4, 2, 0), 'vec', 0), ((2, 4, 2, 0), 'disk', 0), ((2, 4, 2, 2), 'disk', 0)]),
                (8, 0, [((2, 8, 3, 0), 'v2', 1), ((2, 8, 3, 0), 'v2', 1), ((2, 8, 3, 0), 'v1', 2), ((2, 8, 0, 0), 'v2', 1)]),
                (16, 1, [((2, 4, 3, 2), 'v2', 1), ((2, 4, 3, 2), 'v1', 1), ((2, 4, 3, 2), 'vec', 0), ((2, 4, 3, 0), 'v2', 1)]),
                (5, 1, [((4, 16, 2, 0), 'v2', 1), ((4, 16, 2, 0), 'disk', 0), ((4, 4, 2, 3), 'v1', 0), ((4, 4, 2, 3), 'v2', 0)])]
    k = 100 if tier == 'quick' else 3000
    return [session('turns-%s' % flavour, sets, 'turns', vers=3, heap='4g'),
            session('walks-%s' % flavour, sets, 'walk', steps=80 if tier == 'quick' else 160, vers=3, walks=k, seed=seed)]


PLANS = {
    'C03': c03, 'C20': c20, 'C16': c16, 'C10': c10, 'C12': c12, 'C19': c19,'C01': c01, 'C02': c02, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C11': c11, 'C13': c13, 'C14': c14, 'C15': c15, 'C17': c17, 'C18': c18}


WRAP = {'C04', 'C07', 'C09', 'C11', 'C13', 'C14', 'C15', 'C16'}     # also replayed with the arithmetic of a release build


def plan(prop, tier, seed):
    p = PLANS[prop](tier, seed)
    p.setdefault('wrap', prop in WRAP or tier != 'quick')
    return p


TECH = {
    'C03': 'TLA+ model of the parallel build checked with TLC over all interleavings; real workers are made to finish in the orders TLC found, recorded executions are checked by TLC against a trace specification',
    'C20': 'TLA+ model of construction from a failing input checked with TLC; every fault history replayed into every store',
    'C10': 'TLA+ model of the life of persisted trees checked with TLC; every reachable state and action replayed, files compared byte by byte',
    'C12': 'TLA+ model of the life of persisted trees checked with TLC; every reachable state and action replayed, reopened trees compared',
    'C16': 'TLA+ model of requests and of what they leave on disk, enumerated by TLC and replayed into every constructor and store',
    'C19': 'TLA+ model of several persisted trees with concurrent readers checked with TLC; every reachable state and action replayed',
    'C01': 'TLA+ model of the row-by-row build checked with TLC; TLC-generated tree definitions replayed into every store',
    'C02': 'TLC-generated constructor x store matrix replayed against the specified tree',
    'C04': 'TLA+ model of proof generation checked with TLC; specified proofs replayed against the real ones',
    'C05': 'TLA+ adversary that edits symbolic proofs, every reachable proof judged by the specification and by the code',
    'C06': 'TLA+ adversary over proofs and objects, every verdict replayed into validate_with_data',
    'C07': 'TLA+ definition of composed trees; TLC-generated compositions replayed through every compound constructor',
    'C08': 'TLA+ adversary over nested symbolic proofs plus specified compound proofs, replayed into the code',
    'C09': 'TLA+ model of partial-tree reconstruction checked with TLC; specified proofs replayed against cached proofs',
    'C11': 'TLA+ model of which positions a compacted file can answer; every read of real level-cache stores compared with it',
    'C13': 'TLA+ placement of leaves in the replica (arithmetic beyond 4 GiB); positions and cuts replayed with sparse replicas',
    'C17': 'TLA+ model of split double-ended iteration, checked with TLC; its histories replayed into the real iterators and producers',
    'C18': 'TLA+ byte-level encoding enumerated by TLC; the bytes the real hasher receives are compared with it',
    'C14': 'TLA+ array specification; TLC-enumerated and random call histories replayed into every store',
    'C15': 'TLA+ geometry over powers of two checked with TLC up to the machine word; every value compared with the code',
}
NOTE = {
    'C03': 'All interleavings of small builds are model checked (populating, rows, level-cache truncation, one to four workers). Every order of four chunks, random orders of eight and the orders of the leaf blocks are forced on the real workers through the hash function; pools of 1 to 8 threads run freely. Accesses of the real build to an instrumented store are validated as traces, which judge the values stored and nothing else.',
    'C20': 'One or two errors at every position of small inputs, in histories of two or three attempts on one configuration, and errors around the write-block boundaries of inputs of up to 524288 items (4194304 when thorough).',
    'C10': 'Every history of build, open, close, compact and reinitialise of bounded length over small trees (all numbers of discarded rows, both versions), fixed histories over large trees, random walks beyond; after each step every file is compared byte by byte and every open tree read completely.',
    'C12': 'As C10, with every opening constructor, right and wrong leaf counts, read-only and torn files, configurations that were derived from others or saved and loaded, and the consistency queries; reopened trees are compared node by node and by their proofs.',
    'C16': 'All arities up to 8 and 12, 16 and 8192, all counts up to 34 and chosen larger ones, every input form (iterators without or with only a lower bound included), constructor and store, declared shapes with and without layers, and histories of persisted parts in which some are missing.',
    'C19': 'Histories over up to three ids in two directories with up to three open trees, with unnamed trees beside them; every file and every open tree is compared after each step, and readers run concurrently against each other in the hammer step.',
    'C01': 'The build algorithm (full and level-cache) is model checked exhaustively for small trees; every node of the real trees is compared with the specified tree for the listed arities (to 1024), sizes (to 2^19, 2^21 when thorough), element sizes (1 to 64 bytes, odd ones included) and algorithms. Trusts TLC, the harness hash, and that the code treats elements opaquely.',
    'C02': 'Every constructor on every store is compared node by node with the same specified tree for the listed sizes. Trusts TLC and the harness.',
    'C04': 'Proof generation is model checked for small trees; for every leaf of the small and chosen leaves of the large trees lemma, path, item and root are compared element by element and validated; indices beyond the leaves are tried.',
    'C05': 'Exhaustive for one edit (two of the plainer kinds on small trees) of honest proofs, random walks of five edits beyond; edits include values that differ in one bit, path entries that alias, nested proofs and proofs made for a careless verifier; the verdict of the code is compared with the symbolic specification in which hashes are free terms.',
    'C06': 'As C05, with five objects (and near misses of the right one) offered for each proof; honest proofs of object trees for all leaves of small trees.',
    'C07': 'All constructors of compound trees for the listed shapes (sub-arity to 8, top arity to 5) are compared with the specified composition, parts that are equal included; mismatching parts and counts are tried.',
    'C08': 'Exhaustive for one edit (two of the plainer kinds on tiny trees) at each layer, aliased paths and near values included; honest proofs of all leaves of the small compound shapes compared element by element.',
    'C09': 'Reconstruction is model checked for every leaf and every number of discarded rows of small trees; real cached proofs are compared with the full proofs for all leaves, all file kinds and all requested row counts.',
    'C11': 'Every position and every range of small trees, chosen ones of large trees, for both file versions and every number of discarded rows.',
    'C13': 'Every leaf position for the listed shapes, seven placements of the parts (including across 2 and 4 GiB), replicas cut at every interesting byte, readers that give less than asked for and readers that are replaced; a replica records nothing but its own bytes, all of which differ.',
    'C17': 'Every history of next / next_back / nth / len / size_hint / split / skipping and collecting the rest of bounded length over small stores, random ones over larger stores, and collected parallel iterations with several pool sizes and grains.',
    'C18': 'Every type the crate can hash, edge values of the integers, nesting to depth two (three when thorough), long values; the domain prefixes are checked through the default algorithm implementation.',
    'C14': 'Every history of three calls (four when thorough) on tiny stores and random histories of fourteen; everything readable is compared after each call, positions whose byte address exceeds the word are tried with checked and with wrapping arithmetic. Unwritten positions below the length are left unspecified.',
    'C15': 'All powers of two up to the machine word are enumerated; the code is compared at every one of them and at the neighbouring invalid shapes.',
}
