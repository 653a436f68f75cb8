from qt_or import *
import itertools
ORACLES = []


@oracle(ORACLES, 120)
def response_matrix(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, 1 + k % 4)
    resp = Resp(rng)
    got = qt.interpolate_respfn(cct, resp, num_b)
    check(got.shape == tuple(2 * b + 1 for b in nb) + (cct.vb_npts,), 'shape %s' % (got.shape,))
    for ks in itertools.product(*[range(-b, b + 1) for b in nb]):
        close(got[tuple(ks)], resp(cct.vb + sum(q * cct.freq[t + 1] for t, q in enumerate(ks))), 'entry %s' % (ks,), rtol=1e-9)


@oracle(ORACLES, 15)
def precomputed_equals_internal(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, 1 + k % 3)
    resp = Resp(rng)
    fo = out_freqs(rng, cct, nf, npp, 2)
    rm = qt.interpolate_respfn(cct, resp, num_b)
    a = qt.qtcurrent(vj, cct, resp, list(fo), num_b, verbose=False)
    b = qt.qtcurrent(vj, cct, resp, list(fo), num_b, verbose=False, resp_matrix=rm)
    close(b, a, 'current with precomputed matrix', rtol=1e-10, atol=1e-12)


@oracle(ORACLES, 8)
def unsupported_tones(rng, k):
    cct, vj, nf, npp, nb, num_b, mx = scene(rng, 1)
    cct.num_f = [0, 5, 6, -1][k % 4]
    try:
        qt.interpolate_respfn(cct, Resp(rng), 2)
    except (ValueError, AssertionError):
        return
    raise Bad('circuit with %d tones was accepted' % cct.num_f)
