from checks import batches as B
from sx.harness import Job

PROPERTY = 'C02'
FUNCTIONS = ['data_batches.generate_batches', 'data_batches.generate_shuffled_batches']
BOUNDS = ('3 batches (plain), 2 batches (shuffled; thorough 3); datasets of 1..4 rows (shuffled 1..3) with all values symbolic, every batch size, every window position '
          'and every permutation; labels (N,) and (N,1), separate from or sharing memory with the data; '
          'batches of 17 and 18 rows (thorough 67), permuted by one given permutation per draw; also data and labels with NaN and infinite entries')
ASSUMPTIONS = ['numpy.random is external: randint(lo, hi) returns any integer in [lo, hi), shuffle applies any permutation in place']
STUBS = ['numpy.random.RandomState and global functions (sx/rng.py)']


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for labels in ('flat', 'column'):
        for share in ('', 'column', 'base'):
            out.append(Job('plain', B.stream, dict(shuffled=False, N=4, draws=2, labels=labels, share=share, unchanged=True), max_paths=2000, replays=3))
            for N in (1, 2, 3):
                out.append(Job('shuffled', B.stream, dict(shuffled=True, N=N, draws=2, labels=labels, share=share, unchanged=True,
                                                          seed='sym' if N == 2 else None), max_paths=2000, replays=3, wall=400))
            if th:
                out.append(Job('shuffled', B.stream, dict(shuffled=True, N=3, draws=3, labels=labels, share=share, unchanged=True, bmax=2), max_paths=20000, replays=3, wall=3000))
                out.append(Job('plain', B.stream, dict(shuffled=False, N=6, draws=3, labels=labels, share=share, unchanged=True), max_paths=5000, replays=3, wall=1500))
    for sh in (False, True):
        for N, b in ((20, 17), (18, 18)) + (((70, 67),) if th else ()):
            out.append(Job('large', B.stream, dict(shuffled=sh, N=N, draws=2, b=b, labels='flat' if sh else 'column', unchanged=True), max_paths=200, replays=3))
        out.append(Job('missing values', B.stream, dict(shuffled=sh, N=3, draws=1, labels='column' if sh else 'flat', unchanged=True, missing=True), max_paths=2000, replays=3, wall=400))
    return out
