"""Deciding boolean terms from the literals on the current gate and from declared symbol ranges."""
from fractions import Fraction as Fr
from .terms import (INFO, TRUE, FALSE, Term, mk, const, sub, neg, add, lnot, land, num, isint, is_num, INF)

NONNEG = ("len", "size", "ndim", "abs", "clip0", "rangelen")


def atom_range(a, pcr):
    """(lo, lo_strict, hi, hi_strict); None = unbounded."""
    r = pcr.get(a)
    lo = ls = hi = hs = None
    n = num(a)
    if n is not None:
        return n, False, n, False
    if a.op == "sym":
        i = INFO.get(a.args[0], {})
        if i.get("lo") is not None:
            lo, ls = Fr(i["lo"]), bool(i.get("lo_open"))
        if i.get("hi") is not None:
            hi, hs = Fr(i["hi"]), bool(i.get("hi_open"))
    elif a.op in NONNEG:
        lo, ls = Fr(0), False
    elif a.op == "exp":
        lo, ls = Fr(0), True
    elif a.op == "pi":
        lo, ls, hi, hs = Fr(314159, 100000), True, Fr(314160, 100000), True
    elif a.op == "eps":
        lo, ls, hi, hs = Fr(2, 10**16), True, Fr(3, 10**16), True
    elif a.op in ("cos", "sin"):
        lo, ls, hi, hs = Fr(-1), False, Fr(1), False
    elif a.op == "inf":
        lo, ls = Fr(10**30), True
    elif a.op == "mod":
        n = num(a.args[1])
        if n is not None and n > 0:
            lo, ls, hi, hs = Fr(0), False, n, True
            if isint(a):
                hi, hs = n - 1, False
    elif a.op in ("max", "min"):
        rs = [poly_range(x, pcr) for x in a.args if isinstance(x, Term)]
        if a.op == "max":
            los = [(x[0], not x[1]) for x in rs if x[0] is not None]
            if los:
                m = max(los)
                lo, ls = m[0], not m[1]
            if all(x[2] is not None for x in rs):
                m = max((x[2], not x[3]) for x in rs)
                hi, hs = m[0], not m[1]
        else:
            his = [(x[2], x[3] is True and 0 or 1) for x in rs if x[2] is not None]
            if his:
                m = min(his)
                hi, hs = m[0], m[1] == 0
            if all(x[0] is not None for x in rs):
                m = min((x[0], x[1]) for x in rs)
                lo, ls = m
    elif a.op == "pow":
        pass
    if a.op == "abs":
        from . import terms as TT
        x = a.args[0]
        rs = [poly_range(p, pcr) for p in ((x,) if TT.is_real(x) else (TT.freal(x), TT.fimag(x)))]
        rs = [(None if l is None or h is None else Fr(0) if l <= 0 <= h else min(abs(l), abs(h)), None if l is None or h is None else max(abs(l), abs(h))) for l, _, h, _ in rs]
        los = [l for l, _ in rs if l is not None]
        if los and max(los) > 0:
            lo, ls = max(los), False
        if all(h is not None for _, h in rs):
            hi, hs = sum(h for _, h in rs), False
    if r:
        rl, rls, rh, rhs = r
        if rl is not None and (lo is None or rl > lo or (rl == lo and rls)):
            lo, ls = rl, rls
        if rh is not None and (hi is None or rh < hi or (rh == hi and rhs)):
            hi, hs = rh, rhs
    return lo, ls, hi, hs


def fracpower(al, als, ah, ahs, e):
    """Range of x**e for x in a nonnegative range and e fractional, rounded outwards."""
    pos = al > 0 or als

    def pw(x, out):
        try:
            return Fr(float(x) ** float(e)) * (1 + out * Fr(1, 10**12))
        except (OverflowError, ZeroDivisionError):
            return None
    if e > 0:
        return (pw(al, -1) if al > 0 else Fr(0)), pos, (pw(ah, 1) if ah is not None else None), False
    lo = pw(ah, -1) if ah is not None and ah > 0 else None
    return (lo if lo is not None else Fr(0)), pos, (pw(al, 1) if al > 0 else None), False


def mono_range(m, pcr):
    """Range of a monomial (product of atom powers), conservative."""
    flip = False
    lo, ls, hi, hs = Fr(1), False, Fr(1), False
    for a, e in m:
        if a.op == "poly":
            al, als, ah, ahs = poly_range(a, pcr)
        else:
            al, als, ah, ahs = atom_range(a, pcr)
        if e.denominator == 1:
            e = int(e)
            if ah is not None and ah <= 0 and (al is None or al < 0):
                # nonpositive factor: -|a|
                al, als, ah, ahs = -ah, ahs, (-al if al is not None else None), als
                flip ^= e % 2 == 1
            if e > 0:
                if e % 2 == 0 and (al is None or al < 0):
                    # even power
                    b = None
                    if al is not None and ah is not None:
                        b = max(abs(al), abs(ah)) ** e
                    z = ah is not None and ah <= 0
                    al, als, ah, ahs = (Fr(0), False, b, False)
                    from . import terms as TT
                    if not TT.is_real(a):
                        return None, None, None, None
                elif al is not None and al >= 0:
                    al, ah = al ** e, (ah ** e if ah is not None else None)
                elif e != 1:
                    return None, None, None, None
            else:
                e = -e
                if al is not None and (al > 0 or (al == 0 and als)):
                    nl = (1 / ah ** e) if ah is not None else Fr(0)
                    nls = ahs if ah is not None else True
                    nh = (1 / al ** e) if al > 0 else None
                    al, als, ah, ahs = nl, nls, nh, als
                else:
                    return None, None, None, None
        else:
            if al is not None and al >= 0:
                al, als, ah, ahs = fracpower(al, als, ah, ahs, e)
            else:
                return None, None, None, None
        # multiply ranges; only nonneg * nonneg, or first factor sign flips handled for singletons
        if lo == hi == 1:
            lo, ls, hi, hs = al, als, ah, ahs
            continue
        if lo is not None and lo >= 0 and al is not None and al >= 0:
            nl = lo * al
            nls = (ls or als) if nl == 0 and (lo > 0 or ls) and (al > 0 or als) else (ls and al > 0) or (als and lo > 0)
            nh = hi * ah if hi is not None and ah is not None else None
            nhs = (hs or ahs) if nh is not None else None
            lo, ls, hi, hs = nl, nls, nh, nhs
        else:
            if None not in (lo, hi, al, ah):
                c = [lo * al, lo * ah, hi * al, hi * ah]
                lo, ls, hi, hs = min(c), False, max(c), False
            else:
                return None, None, None, None
    if flip:
        lo, ls, hi, hs = (-hi if hi is not None else None), hs, (-lo if lo is not None else None), ls
    return lo, ls, hi, hs


def poly_range(p, pcr):
    n = num(p)
    if n is not None:
        return n, False, n, False
    if p.op != "poly":
        return atom_range(p, pcr)
    d = pcr.get(p)
    lo, ls, hi, hs = Fr(0), False, Fr(0), False
    for m, c in p.args:
        if m == ():
            al = ah = Fr(1)
            als = ahs = False
        else:
            al, als, ah, ahs = mono_range(m, pcr)
        if c < 0:
            al, als, ah, ahs = ah, ahs, al, als
        if lo is not None:
            if al is None:
                lo = None
            else:
                lo, ls = lo + c * al, ls or als
        if hi is not None:
            if ah is None:
                hi = None
            else:
                hi, hs = hi + c * ah, hs or ahs
    return lo, ls, hi, hs


def split(p):
    """p = q + c  with q without constant term; normalised so that the first coefficient has unit size.
    Returns (key, scale, c) with p = scale*key + c."""
    if p.op != "poly":
        n = num(p)
        if n is not None:
            return None, None, n
        return p, Fr(1), Fr(0)
    c = Fr(0)
    ms = []
    for m, k in p.args:
        if m == ():
            c = k
        else:
            ms.append((m, k))
    from .terms import _fromdict
    s = ms[-1][1]
    key = _fromdict({m: k / s for m, k in ms})
    return key, s, c


def pc_ranges(pc):
    """Bounds of (normalised) polynomials implied by the gate literals."""
    out = {}

    def upd(key, lo=None, ls=False, hi=None, hs=False):
        r = out.get(key, (None, None, None, None))
        rl, rls, rh, rhs = r
        if lo is not None and (rl is None or lo > rl or (lo == rl and ls)):
            rl, rls = lo, ls
        if hi is not None and (rh is None or hi < rh or (hi == rh and hs)):
            rh, rhs = hi, hs
        out[key] = (rl, rls, rh, rhs)

    def lit(l):
        if l.op == "and":
            for x in l.args:
                lit(x)
            return
        if l.op == "inloop":
            # index below the number of iterations
            if len(l.args) == 2:
                lit(mk("lt0", sub(l.args[0], l.args[1])))
            return
        pos = True
        if l.op == "not":
            l = l.args[0]
            pos = False
        if l.op == "lt0":
            key, s, c = split(l.args[0])
            if key is None:
                return
            # s*key + c < 0 (pos) or >= 0
            b = -c / s
            ii = isint(key)
            if pos == (s > 0):
                # key < b  (pos, s>0)  /  key <= b (neg, s<0)
                strict = pos
                if ii:
                    import math
                    bb = Fr(math.ceil(b) - 1) if strict else Fr(math.floor(b))
                    upd(key, hi=bb, hs=False)
                else:
                    upd(key, hi=b, hs=strict)
            else:
                strict = pos
                if ii:
                    import math
                    bb = Fr(math.floor(b) + 1) if strict else Fr(math.ceil(b))
                    upd(key, lo=bb, ls=False)
                else:
                    upd(key, lo=b, ls=strict)
        elif l.op == "eq0" and pos:
            key, s, c = split(l.args[0])
            if key is None:
                return
            b = -c / s
            upd(key, lo=b, ls=False, hi=b, hs=False)
    for l in pc:
        lit(l)
    return out


def decide(c, pc):
    if c is TRUE or c is FALSE:
        return c
    s = set()
    for l in pc:
        if l.op == "and":
            s.update(l.args)
        else:
            s.add(l)
    return _dec(c, s, pc, [None])


def _dec(c, s, pc, memo):
    if c is TRUE or c is FALSE:
        return c
    if c in s:
        return TRUE
    if lnot(c) in s:
        return FALSE
    if c.op == "not":
        return lnot(_dec(c.args[0], s, pc, memo))
    if c.op == "and":
        out = [_dec(x, s, pc, memo) for x in c.args]
        return land(*out)
    if c.op in ("lt0", "eq0"):
        p = c.args[0]
        if memo[0] is None:
            memo[0] = pc_ranges(pc)
        pcr = memo[0]
        key, sc, k = split(p)
        if key is None:
            return c
        lo, ls, hi, hs = poly_range(key, pcr) if key.op != "poly" or key not in pcr else _meet(poly_range(key, pcr), pcr[key])
        # p = sc*key + k
        if sc < 0:
            lo, ls, hi, hs = hi, hs, lo, ls
        plo = sc * lo + k if lo is not None else None
        phi = sc * hi + k if hi is not None else None
        if c.op == "lt0":
            if phi is not None and (phi < 0 or (phi == 0 and hs)):
                return TRUE
            if plo is not None and plo >= 0:
                return FALSE
        else:
            if plo is not None and (plo > 0 or (plo == 0 and ls)):
                return FALSE
            if phi is not None and (phi < 0 or (phi == 0 and hs)):
                return FALSE
            if plo is not None and phi is not None and plo == phi == 0:
                return TRUE
            if isint(key) and (k / sc).denominator != 1:
                return FALSE
        q = quotient(p, pcr)
        if q is not None:
            from . import terms as TT
            r = (TT.lt0 if c.op == "lt0" else TT.eq0)(q)
            r = _dec(r, s, pc, memo)
            if r is TRUE or r is FALSE:
                return r
        return c
    if c.op == "isnone":
        return c
    if c.op == "eqs":
        # x == "s" known false when x == other string holds
        x, v = c.args
        for l in s:
            if l.op == "eqs" and l.args[0] is x and l.args[1] is not v and v.op == "c" and l.args[1].op == "c":
                return FALSE
        return c
    # disjunction literals: not(and(...)) in the gate
    return c


def quotient(p, pcr):
    """p divided by the factors common to all its monomials that are known to be positive, or None when there are none."""
    if p.op != "poly" or len(p.args) < 2:
        return None
    common = None
    for m, k in p.args:
        d = dict(m)
        common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
        if not common:
            return None
    out = []
    for a, e in common.items():
        lo, ls, hi, hs = poly_range(a, pcr) if a.op == "poly" else atom_range(a, pcr)
        if lo is not None and (lo > 0 or lo == 0 and ls):
            out.append(a)
    if not out:
        return None
    from .terms import _fromdict
    return _fromdict({tuple((a, e) for a, e in m if a not in out): k for m, k in p.args})


def _meet(a, b):
    lo, ls, hi, hs = a
    bl, bls, bh, bhs = b
    if bl is not None and (lo is None or bl > lo or (bl == lo and bls)):
        lo, ls = bl, bls
    if bh is not None and (hi is None or bh < hi or (bh == hi and bhs)):
        hi, hs = bh, bhs
    return lo, ls, hi, hs


def nonneg(t, pc=()):
    pcr = pc_ranges(pc)
    lo, ls, hi, hs = poly_range(t, pcr)
    if lo is not None and lo >= 0:
        return True
    key, s, k = split(t)
    if key is None or key.op != "poly" or key not in pcr:
        return False
    b = pcr[key][0] if s > 0 else pcr[key][2]
    return b is not None and s * b + k >= 0
