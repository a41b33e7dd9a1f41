"""C08 iteration state is complete."""
from ..base import run_classes
from ..interp import Tup, Ref, Dct, vleaves

RULE = ("Abstract interpretation of run() of every exported algorithm with the carried state as an abstract record (present / present on some paths "
        "only / absent, per key), joined over initialization and all paths through an iteration and solved to a fixpoint over any number of "
        "iterations. Every read of the record (subscript, pop, required or defaulted parameter, attribute of the instance) must hit a key or "
        "attribute that is present on every path; the tuples returned by initialization and iteration must have the arity the run unpacks.")
ASSUMPTIONS = ["callbacks do not edit the state", "only configurations accepted by the constructor are considered"]
MSG = {
    "key_missing": "state entry '%(key)s' is read but never supplied",
    "key_maybe": "state entry '%(key)s' is read although some path through initialization or an earlier iteration does not supply it",
    "key_soft": "state entry '%(key)s' silently falls back to a default because some path does not carry it over",
    "missing_arg": "required argument '%(name)s' of %(fn)s is not supplied",
    "dup_kw": "argument '%(name)s' is supplied twice",
    "dup_arg": "argument '%(name)s' is supplied twice",
    "unexpected_kw": "%(fn)s does not accept '%(name)s'",
    "too_many_args": "%(fn)s gets too many arguments",
    "bad_unpack": "a tuple of %(got)s values is unpacked into %(want)s",
    "no_attr": "attribute '%(name)s' of %(cls)s is read before anything assigns it",
}


def check_class(ctx, ci, res):
    R = ctx.driver.run_class(ci)
    n0 = len(R.ctor_events)
    res.add("functions interpreted", len(R.I.nfn))
    for e in R.events[n0:]:
        if e.kind in ("ret_init_population", "ret_run_iteration"):
            for l in vleaves(e.data["rv"]):
                if isinstance(l, Tup) and l.items:
                    for d in vleaves(l.items[-1]):
                        r = e.data["heap"].get(d.oid) if isinstance(d, Ref) else None
                        if isinstance(r, Dct):
                            res.add("state records checked")
                            res.add("state entries checked", len(r.entries))
                            res.sample("%s.%s carries {%s}" % (ci.name, e.kind[4:], ", ".join(sorted(str(k) for k, _ in r.entries))))
        if e.kind in MSG:
            if e.data.get("guarded"):
                continue
            fn = e.stack[-1][0] if e.stack else ci.name
            d = dict(e.data)
            what = d.get("key", d.get("name", d.get("want", "")))
            res.fail(e.kind, "%s:%s" % (fn, what), MSG[e.kind] % d + " (analysing %s)" % ci.name, e.where(), e.stack)
    if R.final is None or R.final[0].dead:
        res.undec("%s: every path of run() was pruned" % ci.name)


def check(ctx, res):
    run_classes(ctx, "c08", res)
