"""C04: the number of time origins sets the stride between origins"""

from .common import *


def trajectory(I):
    """An abstract trajectory: block_size >= 1, steps of length len_steps >= 1, len_part particles"""
    frame = P.Sym('frame', {'particle': lambda I: num_list(I, 'particle', ivar('len_part'))})
    return P.Sym('trajectory', {
        'block_size': lambda I: iN('block'),
        'steps': lambda I: num_list(I, 'step', ivar('len_steps'), 'int')},
        ops={'getitem': lambda I, i: frame, 'len': lambda I: ivar('len_steps'), 'item': lambda I, k: frame})


F, B, NP = ivar('len_steps'), ivar('block'), ivar('len_part')
FACTS = [gt0(B), gt0(F)]


def clamp(x):
    """at least one block, at most all the frames"""
    return T.minp(F, T.maxp(B, x))


def prove(pr):
    call = lambda I, a, kw: I.call(I.module('helpers').get('adjust_skip'), a, kw)
    q = 'helpers.adjust_skip'

    def case(name, mk, facts, spec):
        def run(I):
            return call(I, [trajectory(I), mk(I)], {})

        def post(I, kind, v):
            yield name, ('eq', v.p, spec)
            yield name + ': at least one block (or all frames)', ge0(v.p - T.minp(B, F))
            yield name + ': at most the number of frames', ge0(F - v.p)
        pr.verify(q, run, post, FACTS + facts)

    v = rvar('v')
    n = ivar('n')
    nb = T.floor(F * T.inv(B))
    text = lambda I: P.Opq(var('text', 'obj'), 'str', {'float': v})
    for what, mk, val in (('integer', lambda I: N(n, 'int'), n), ('number', lambda I: N(v, 'float'), v),
                          ('text', text, v)):
        # the text '1.0' (a fraction of one: all origins) is not the value 1
        no1 = [ONE - T.eq0(var('text', 'obj') - var('str:1.0', 'obj'))] if what == 'text' else []
        case('all origins (%s)' % what, mk, [lt0(val)] + no1, clamp(B))
        case('n origins (%s)' % what, mk, [gt0(val - 1)] + no1, clamp(B * T.floor(nb * T.inv(val))))
        case('one origin (%s)' % what, mk, [T.eq0(val - 1)] + no1, F)
        if what != 'integer':
            case('fraction (%s)' % what, mk, [gt0(val), lt0(val - 1)] + no1, clamp(B * T.floor(T.inv(val))))
    case('text 1.0 is a fraction of one', text, [T.eq0(var('text', 'obj') - var('str:1.0', 'obj')), T.eq0(v - 1)], clamp(B))
    none = lambda I: None
    case('unspecified, single-frame blocks', none, [T.eq0(B - 1)], clamp(T.floor(F * NP * T.inv(cst(40000)))))
    case('unspecified, longer blocks', none, [gt0(B - 1)], clamp(B))

    # the default is None
    def run(I):
        return call(I, [trajectory(I)], {})
    pr.verify(q, run, lambda I, k, r: [('default', ('eq', r.p, clamp(B)))], FACTS + [gt0(B - 1)])
