"""generation side helpers (Hypothesis)"""
from hypothesis import strategies as st


def nice(lo, hi):
    """decimal-looking positive numbers m*10^e, lo <= e < hi"""
    return st.builds(lambda m, e: float(f"{m}e{e - 3}"), st.integers(1000, 9999), st.integers(lo, hi - 1))


def rough(lo, hi):
    """arbitrary positive floats, log-uniform between 10^lo and 10^hi"""
    return st.floats(lo, hi, allow_nan=False).map(lambda u: 10.0 ** u)


def pos(lo, hi):
    return st.one_of(nice(lo, hi), nice(lo, hi), rough(lo, hi))


def weighted(*pairs):
    """sampled_from with integer weights"""
    out = []
    for w, v in pairs:
        out += [v] * w
    return st.sampled_from(out)


def case(draw_fn):
    return st.composite(draw_fn)()


def unit(lo=0.0, hi=1.0):
    """floats between lo and hi without denormal dust near zero"""
    return st.floats(lo, hi).map(lambda x: 0.0 if abs(x) < 1e-9 else x)
