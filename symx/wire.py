"""JSON form of inputs and observations, shared by symbolic runs and replays (no solver dependency)."""
import fractions


def enc(x):
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x if type(x) in (bool, int, str, type(None)) else int(x) if isinstance(x, int) else str(x)
    if isinstance(x, fractions.Fraction):
        return {'frac': [str(x.numerator), str(x.denominator)]}
    if isinstance(x, float):
        return {'float': repr(x)}
    if isinstance(x, bytes):
        return {'bytes': list(x)}
    if isinstance(x, dict):
        return {'dict': sorted(([enc(k), enc(v)] for k, v in x.items()), key=repr)}
    if isinstance(x, (set, frozenset)):
        return {'set': sorted((enc(k) for k in x), key=repr)}
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if hasattr(x, 'tolist'):
        return enc(x.tolist())
    if hasattr(x, '__iter__'):
        return [enc(y) for y in x]
    return {'repr': repr(x)}


def dec(x):
    if isinstance(x, dict):
        if 'frac' in x:
            return fractions.Fraction(int(x['frac'][0]), int(x['frac'][1]))
        if 'float' in x:
            return float(x['float'])
        if 'bytes' in x:
            return bytes(x['bytes'])
        if 'dict' in x:
            return {dec(k) if not isinstance(k, list) else tuple(dec(k)): dec(v) for k, v in x['dict']}
        if 'set' in x:
            return set(dec(k) for k in x['set'])
        return x
    if isinstance(x, list):
        return [dec(y) for y in x]
    return x


def num(x):
    if isinstance(x, dict) and 'frac' in x:
        return int(x['frac'][0]) / int(x['frac'][1])
    if isinstance(x, dict) and 'float' in x:
        return float(x['float'])
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return x
    return None


def same(a, b):
    """equality of encoded observations; reals up to rounding"""
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        if isinstance(na, int) and isinstance(nb, int):
            return na == nb
        return abs(na - nb) <= 1e-9 * max(1.0, abs(na), abs(nb))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b and type(a) is type(b)
