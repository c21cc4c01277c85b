"""Model structures: a *spec* (see oracle.py) is split into a hashable skeleton
and a flat list of float parameters, so that one jitted pipeline per skeleton
can be driven with many parameter values."""
from __future__ import annotations

PARAM = "?"

_CTOR = {
    "Exp": ("Exp", ("scale", "sigma")),
    "Matern32": ("Matern32", ("scale", "sigma")),
    "Matern52": ("Matern52", ("scale", "sigma")),
    "SHO": ("SHO", ("omega", "quality", "sigma")),
    "Cosine": ("Cosine", ("scale", "sigma")),
    "Constant": ("Constant", ("sigma",)),
    "ExpSineSquared": ("ExpSineSquared", ("period", "gamma", "sigma")),
}
INTEGRABLE = ("Exp", "Matern32", "Matern52", "SHO", "Cosine")


def flatten(spec):
    """spec -> (skeleton, [params])"""
    out = []

    def rec(s):
        if isinstance(s, tuple):
            return tuple(rec(x) for x in s)
        if isinstance(s, str):
            return s
        out.append(float(s))
        return PARAM

    return rec(spec), out


def fill(skel, params):
    """(skeleton, params) -> spec"""
    it = iter(params)

    def rec(s):
        if isinstance(s, tuple):
            return tuple(rec(x) for x in s)
        return next(it) if s == PARAM else s

    return rec(skel)


def smol(spec, num_insts=1, order=16, names=None):
    """Build the smolgp kernel of a spec (parameters may be traced).

    `names`: optional iterator of explicit kernel names for the leaves.
    """
    from smolgp import kernels as K

    kind = spec[0]
    if kind == "sum":
        return smol(spec[1], num_insts, order, names) + smol(spec[2], num_insts, order, names)
    if kind == "prod":
        return smol(spec[1], num_insts, order, names) * smol(spec[2], num_insts, order, names)
    if kind == "scale":
        return spec[1] * smol(spec[2], num_insts, order, names)
    kw = {}
    if names is not None:
        kw["name"] = next(names)
    if kind == "int":
        ctor, args = _CTOR[spec[1][0]]
        return getattr(K, "Integrated" + ctor)(**dict(zip(args, spec[1][1:])), num_insts=num_insts, **kw)
    if kind == "Matern":
        from smolgp.kernels.base import Matern
        return Matern(nu=spec[1], scale=spec[2], sigma=spec[3], **kw)
    ctor, args = _CTOR[kind]
    if kind == "ExpSineSquared":
        kw["order"] = order
    return getattr(K, ctor)(**dict(zip(args, spec[1:])), **kw)


def label(skel):
    """Readable structure label, without parameters."""
    k = skel[0]
    if k == "sum":
        return f"({label(skel[1])}+{label(skel[2])})"
    if k == "prod":
        return f"({label(skel[1])}*{label(skel[2])})"
    if k == "scale":
        return f"c*{label(skel[2])}"
    if k == "int":
        return f"I[{label(skel[1])}]"
    return k
