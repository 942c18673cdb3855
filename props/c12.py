"""Reverse_Engineer_Filter: a machine it discards never halts."""
from types import SimpleNamespace
from bbv.runner import Case
from bbv import shim, sim as S
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF

INFO = {
    "functions": ["Reverse_Engineer_Filter.filter/is_infinite/get_stats/cannot_reach_halt",
                  "Halting_Lib.set_not_halting"],
    "bounds": "every machine of 2x2, 2x3, 3x2 cells (each cell halting, undefined or any running transition; "
              "symbolic) that halts within 20 steps (2x2: 8, the most such a machine can take is 6), the cells "
              "the run does not meet included; 4x2 and 2x4 with the unmet cells restricted to halting ones "
              "(thorough: also running ones)",
    "outside": "halting runs longer than the bound, larger machines",
}


def sound(ctx, Q, S_, steps, tnf, rest="any", bound=99, fixed=None, only_halting=True):
    F = shim.load("Reverse_Engineer_Filter")
    pb = shim.load("io_pb2")
    spec = TMSpec(ctx, Q, S_, symbolic_write=False, fixed=decode(fixed) if fixed else None)
    o = S.OracleRun(ctx, spec, tnf=tnf)
    o.to(steps)
    halts = o.end is not None
    if only_halting:
        ctx.assume(halts)
    spec.unmet(o.seen, rest, bound, decode(fixed) if fixed else ())
    m = spec.build()
    rec = SimpleNamespace(tm=lambda: m, proto=pb.TMRecord())
    F.filter(rec)
    says = rec.proto.filter.reverse_engineer.success
    st = rec.proto.status
    ctx.check(F.is_infinite(m) == says, "the filter reports what it found")
    if says:
        ctx.note("discarded")
        if halts:
            ctx.fail("a machine that halts is discarded")
        ctx.check(st.halt_status.is_decided and not st.halt_status.is_halting
                  and st.halt_status.inf_reason == pb.INF_REVERSE_ENGINEER, "recorded as running forever")
    else:
        ctx.check(not st.halt_status.is_decided, "nothing is recorded without a proof")
    ctx.check(not st.quasihalt_status.is_decided, "quasihalting stays undecided")
    ctx.note("halts" if halts else "runs")


def cases(tier):
    q = tier == "quick"
    cs = []
    def add(name, need=(), **k):
        cs.append(Case("sound", k, name=name, need=list(need)))
    add("all_22", Q=2, S_=2, steps=8, tnf=0, only_halting=False, need=["discarded", "halts", "runs"])
    add("halting_32", Q=3, S_=2, steps=12 if q else 25, tnf=1, bound=2 if q else 4, need=["halts"])
    add("halting_23", Q=2, S_=3, steps=12 if q else 40, tnf=1, bound=2 if q else 4, need=["halts"])
    for r in ("stop", "run"):
        for Q, S_ in ((3, 2), (2, 3), (4, 2), (2, 4)) if q else ((3, 2), (2, 3), (4, 2), (2, 4), (3, 3)):
            add("halting_%d%d_%s" % (Q, S_, r), Q=Q, S_=S_, steps=(18 if Q * S_ == 6 else 6) if q else 20,
                tnf=1, rest=r, need=["halts"])
    return cs
