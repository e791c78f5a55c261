from checks import batches as B
from sx.harness import Job

PROPERTY = 'C01'
FUNCTIONS = ['data_batches.generate_batches', 'data_batches.generate_shuffled_batches']
BOUNDS = ('first 2 batches (thorough 3; 5 rows 1 and 2) of the plain and 1 or 2 (thorough 2) of the shuffled of the stream; datasets of 1..5 rows (plain) and 1..3 rows (shuffled; thorough 4) with all values symbolic, '
          'every batch size >= 1 (symbolic), every window position and every permutation the random generator can return; datasets of any length (symbolic N) '
          'for both generators; batches of 17 and 32 rows (thorough 128), permuted by one given permutation per draw; labels (N,) and (N,1), separate from or sharing memory with the data; seed None or any valid seed; also data and labels with NaN and infinite entries, and datapoints of 1, 2, 5 and 2x3 features')
ASSUMPTIONS = ['numpy.random is external: randint(lo, hi) returns any integer in [lo, hi), shuffle applies any permutation, equally seeded streams return equal draws',
               'the induction over the stream is by observation: the generator keeps no state besides its random streams']
STUBS = ['numpy.random.RandomState and global functions (sx/rng.py)']


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for labels in ('flat', 'column'):
        for share in ('', 'column', 'base'):
            for N in (1, 2, 3, 5) if not share else (3,):
                out.append(Job('plain', B.stream, dict(shuffled=False, N=N, draws=(2 if N < 5 else 1) + th, labels=labels, share=share, seed='sym' if N == 2 else None),
                               max_paths=2000))
            for N in ((1, 2, 3) if not share else (3,)):
                out.append(Job('shuffled', B.stream, dict(shuffled=True, N=N, draws=2 if N < 3 or th else 1, labels=labels, share=share, seed='sym' if N == 2 else None), max_paths=2000, replays=3))
        for sh in (False, True):
            out.append(Job('any', B.any_length, dict(shuffled=sh, labels=labels, seed='sym'), optional=True))
    for sh in (False, True):
        out.append(Job('missing values', B.stream, dict(shuffled=sh, N=3, draws=1, labels='flat' if sh else 'column', missing=True), max_paths=2000, replays=3))
    for sh in (False, True):
        for D in (1, 5, (2, 3)):
            out.append(Job('features', B.stream, dict(shuffled=sh, N=3, draws=1, D=D, labels='flat' if sh else 'column'), max_paths=2000, replays=3))
    for sh in (False, True):
        for N, b in ((20, 17), (34, 32)) + (((70, 67), (131, 128)) if th else ()):
            out.append(Job('large', B.stream, dict(shuffled=sh, N=N, draws=2, b=b, labels='flat' if sh else 'column'), max_paths=200, replays=3))
    if th:
        out.append(Job('shuffled', B.stream, dict(shuffled=True, N=4, draws=1, seed='sym'), max_paths=5000, replays=3, wall=1500))
        out.append(Job('shuffled', B.stream, dict(shuffled=True, N=4, draws=2, seed=None, bmax=3), max_paths=20000, replays=3, wall=3000))
        out.append(Job('plain', B.stream, dict(shuffled=False, N=8, draws=2, D=3), max_paths=5000, replays=3, wall=1500))
        out.append(Job('plain', B.stream, dict(shuffled=False, N=6, draws=3, D=1, seed='sym'), max_paths=5000, replays=3, wall=1500))
    return out
