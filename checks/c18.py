"""C18: log probability interpolation is exact and stable.

Oracle: the formulas evaluated with 60-digit decimal arithmetic."""

import decimal
import math

from hypothesis import strategies as st

from vh.core import Part, close, require, sut

CONTEXT = decimal.Context(prec=60, Emin=-10 ** 15, Emax=10 ** 15)


def decimal_linear(a, b, w):
    """log(w exp(a) + (1 - w) exp(b)) for finite a, b or -inf."""
    c = CONTEXT
    total = decimal.Decimal(0)
    weight = decimal.Decimal(w)
    other = c.subtract(decimal.Decimal(1), weight)
    top = max([x for x, y in ((a, weight), (b, other)) if y != 0])
    if top == -math.inf:
        return -math.inf
    for x, y in ((a, weight), (b, other)):
        if y != 0 and x != -math.inf:
            d = c.subtract(decimal.Decimal(x), decimal.Decimal(top))
            total = c.add(total, c.multiply(y, c.exp(d)))
    if total == 0:
        return -math.inf
    return float(c.add(decimal.Decimal(top), c.ln(total)))


def run_linear(case, ctx):
    from theanolm.backend import interpolate_linear, logprob_type
    a, b, w = (logprob_type(float(x)) for x in case)
    a_, b_, w_ = float(a), float(b), float(w)
    want = decimal_linear(a_, b_, w_)
    with sut('interpolate_linear{}'.format(tuple(case))):
        got = interpolate_linear(a, b, w)
    # The log of a number near one cannot be exact in relative terms.
    require(close(got, want, 1e-12, 1e-13) or
            abs(float(got) - want) < 2e-15 * 10,
            'interpolate_linear({!r}, {!r}, {!r}) is {!r} instead of {!r}',
            a_, b_, w_, float(got), want)
    if 0 < w_ < 1:
        require(min(a_, b_) - 1e-9 <= got <= max(a_, b_) + 1e-9 or
                (a_ == b_ == -math.inf and got == -math.inf),
                'interpolate_linear({!r}, {!r}, {!r}) is {!r}, not between',
                a_, b_, w_, float(got))
    with sut('interpolate_linear'):
        swapped = interpolate_linear(b, a, logprob_type(1.0 - w_))
        more = interpolate_linear(logprob_type(min(0.0, a_ * 0.9)), b, w)
    # One minus the weight may not be a floating-point number.
    exact = 1.0 - (1.0 - w_) == w_
    require(not exact or close(got, swapped, 1e-9, 1e-9), 'interpolation of {!r}, {!r} '
            'with weight {!r} is {!r}, but exchanged {!r}', a_, b_, w_,
            float(got), float(swapped))
    require(more >= got or close(more, got, 1e-9, 1e-9),
            'interpolate_linear decreases from {!r} to {!r} when {!r} grows',
            float(got), float(more), a_)
    ctx.label('underflow', min(a_, b_) < -745)
    ctx.label('subnormal', any(-745 < x < -708 for x in (a_, b_)))
    ctx.label('minus infinity', min(a_, b_) == -math.inf)
    ctx.label('weight zero or one', w_ in (0.0, 1.0))
    ctx.mark(0 < w_ < 1 and a_ != b_)


def run_loglinear(case, ctx):
    from theanolm.backend import interpolate_loglinear, logprob_type
    a, b, p, q = (logprob_type(float(x)) for x in case)
    a_, b_, p_, q_ = map(float, (a, b, p, q))
    want = (p_ * a_ if p_ != 0 else 0.0) + (q_ * b_ if q_ != 0 else 0.0)
    with sut('interpolate_loglinear{}'.format(tuple(case))):
        got = interpolate_loglinear(a, b, p, q)
        swapped = interpolate_loglinear(b, a, q, p)
    require(close(got, want, 1e-12, 1e-12),
            'interpolate_loglinear({!r}, {!r}, {!r}, {!r}) is {!r} instead of '
            '{!r}', a_, b_, p_, q_, float(got), want)
    require(close(got, swapped, 1e-12, 1e-12),
            'interpolate_loglinear is not symmetric')
    ctx.label('minus infinity', min(a_, b_) == -math.inf)
    ctx.label('zero weight', 0.0 in (p_, q_))
    ctx.mark(0 < p_ and 0 < q_)


logprobs = st.one_of(
    st.floats(-20.0, 0.0), st.floats(-760.0, -690.0), st.floats(-5000.0, 0.0),
    st.floats(-1e6, 0.0), st.just(0.0), st.just('-inf'),
    st.floats(-1e-12, 0.0))
weights = st.one_of(st.floats(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5]),
                    st.floats(1e-12, 1e-3))
near = st.tuples(st.floats(-1500.0, 0.0), st.floats(-40.0, 40.0), weights).map(
    lambda x: [x[0], min(0.0, x[0] + x[1]), x[2]])

PARTS = [
    Part('linear', st.one_of(st.tuples(logprobs, logprobs, weights).map(list),
                             near), run_linear, 20000, 400000, workers=3,
         rule='different values and a weight strictly between zero and one',
         assumptions=['log probabilities of at least -10^6 or -inf']),
    Part('loglinear', st.tuples(logprobs, logprobs, weights, weights).map(list),
         run_loglinear, 4000, 100000, rule='two positive weights'),
]
