"""Shared machinery of the storage-backend rules."""
from sp import *

TRAIT = "omnipaxos::storage::Storage"


def backends(P):
    """{short type name: {method: fn}} of the local Storage implementations"""
    out = {}
    for fn in P.fns.values():
        if fn.implof == TRAIT and fn.crate == "omnipaxos_storage" and fn.kind != "Closure" and fn.self_ty is not None and fn.self_ty[0] == "adt":
            out.setdefault(fn.self_ty[1].split("::")[-1], {})[fn.name] = fn
    if not out:
        raise Anchor("no Storage implementation in omnipaxos_storage")
    return out


def others(P, name):
    """inherent constructors of a backend"""
    return [fn for fn in P.fns.values() if fn.self_ty is not None and fn.self_ty[0] == "adt" and fn.self_ty[1].split("::")[-1] == name and not fn.implof and fn.crate == "omnipaxos_storage"
            and fn.kind != "Closure" and (fn.argc == 0 or fn.locals[1][0] != "ref")]


def jobs(P, check, ctors=True):
    def mk(fn):
        def go():
            X = Plain(fn.label())
            r = Run(P, fn)
            X.stats.append(r.stats())
            check(X, fn, r)
            return X.result()
        return go
    out = []
    for name, ms in sorted(backends(P).items()):
        for m, fn in sorted(ms.items()):
            out.append(("backend " + fn.label(), mk(fn)))
        if ctors:
            for fn in others(P, name):
                out.append(("backend " + fn.label(), mk(fn)))
    return out
