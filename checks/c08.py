from checks import common as C
from sx.harness import Job, tf

PROPERTY = 'C08'
KIND = 'SGHMC'
FUNCTIONS = ['SGHMCSampler.__init__ (graph construction executed, the graph evaluated symbolically)',
             'MCMCSampler.__init__/__next__/_next_batch/_next_stepsize/_draw_noise_sample', 'BurnInMCMCSampler.__next__/is_burning_in',
             'tensor_utils.vectorize/unvectorize/safe_divide/safe_sqrt/uninitialized_params', 'tf.gradients of the cost']
BOUNDS = ('quick: chains of up to 4 steps from the initial state (24 for one scalar; thorough: 6 and 48) with burn-in lengths 1..3, 9 (20), parameter lists of shapes '
          '(), (2,), (5,), (7,), (2,2), (3,3), (1,3); every start value, gradient, noise value, stepsize>0, mdecay in (0,1), scale_grad>0 symbolic and '
          'different per step; plus one induction step from an arbitrary internal state, step count and burn-in length in each phase (any history length)')
ASSUMPTIONS = ['exact real arithmetic; literal constants below 1e-12 (the 1e-16 regularisers) count as 0',
               'cost linear in the parameters with fed coefficients: by the chain rule tf.gradients feeds the sampler exactly these gradients',
               'ops executed in one valid topological order (order independence is C13)']


def jobs(tier):
    out = []
    confs = [(((),), 2, 1), (((),), 4, 2), (((), (2,)), 3, 2), (((2, 2),), 2, 1), (((1, 3), ()), 2, 3), (((),), 3, 3), (((),), 24, 9),
             (((),) * 4, 3, 2), (((2,),) * 3, 2, 2), (((7,),), 3, 2), (((3, 3), (5,)), 2, 1)]
    if tier == 'thorough':
        confs += [(((),), 48, 20), (((),), 6, 3), (((),), 6, 1), (((2, 2), (3,), ()), 4, 2), (((3, 2),), 4, 2), (((5,),), 3, 2)]
    for shapes, steps, b in confs:
        out.append(Job('chain', C.chain, dict(kind=KIND, shapes=shapes, steps=steps, burn_in=b), wall=1500 if tier == 'thorough' else 240, optional='deep' if steps > 9 else False))
    out.append(Job('chain32', chain32, {}, rel_tol=2e-3))
    out += C.inductive_jobs(KIND)
    return out


def chain32(env):
    C.chain(env, KIND, ((2,),), 2, burn_in=1, dtype=tf.float32)
