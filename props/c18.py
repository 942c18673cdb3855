"""TNF, LNF and Permute: renaming keeps the machine, normal forms are canonical."""
import itertools

from bbv.runner import Case
from bbv import shim
from bbv.sim import OracleRun
from bbv.tm import TMSpec, decode, size, holes, RUN, HALT, UNDEF, LEFT, RIGHT

INFO = {
    "functions": ["TNF.to_TNF/permute_table", "LNF.brute_lnf/permute/iter_perms",
                  "Permute.permute_start_state/try_tnf", "Direct_Simulator.DirectSimulator",
                  "Turing_Machine.Simple_Machine.ttable_str"],
    "bounds": "tnf: every 2x2, 3x2, 2x3 and 3x3 machine by its run of up to N steps (quick 12/5/5/4, thorough "
              "30/16/14/7), unvisited cells halting, undefined or of one kind of step (at most two of them free), and "
              "every renaming and mirror image of it; 4x2, 2x4 and 3x3 machines that leave two names unused; lnf: every 2x2 machine, "
              "machines of 3x2 and 2x3 with two cells open, all renamings and mirror images; permute: "
              "the same machines, every start state",
    "outside": "larger machines; the symbol a halting step writes (the tools replace it by the standard 1RZ); the normal form of a machine whose first "
               "step already stops",
}

STD = (1, RIGHT, -1)


def table(ctx, m):
    """Concrete table of a machine of the code: {(s, c): (kind, w, d, n)}."""
    T = shim.load("Macro.Turing_Machine")
    r = {}
    for s in range(m.num_states):
        for c in range(m.num_symbols):
            t = m.trans_table[s][c]
            if t.condition == T.UNDEFINED:
                r[s, c] = (UNDEF,) + STD
            elif t.condition == T.HALT:
                r[s, c] = (HALT, ctx.concrete(t.symbol_out), ctx.concrete(t.dir_out), -1)
            else:
                r[s, c] = (RUN, ctx.concrete(t.symbol_out), ctx.concrete(t.dir_out), int(ctx.concrete(t.state_out)))
    return r


def spec_table(ctx, spec):
    r = {}
    for x, v in spec.cells.items():
        k, w, d, n = spec.cell(*x)
        r[x] = (k, ctx.concrete(w), ctx.concrete(d), ctx.concrete(n)) if k != UNDEF else (UNDEF,) + STD
    return r


def rename(tab, so, co, mirror, std=True):
    """so[new] = old name of the state, co likewise for symbols."""
    sm = {o: i for i, o in enumerate(so)}
    cm = {o: i for i, o in enumerate(co)}
    r = {}
    for (s, c), (k, w, d, n) in tab.items():
        if k == RUN:
            v = (k, cm[w], 1 - d if mirror else d, sm[n])
        elif k == UNDEF or std:
            v = (k,) + STD
        else:
            v = (k, cm[w], 1 - d if mirror else d, -1)
        r[sm[s], cm[c]] = v
    return r


def make(tab, Q, S):
    T = shim.load("Macro.Turing_Machine")
    return T.tm_from_quintuples([(s, c, w, d, n) for (s, c), (k, w, d, n) in tab.items() if k != UNDEF],
                                list(range(Q)), list(range(S)))


def perms(n, fix0):
    for p in itertools.permutations(range(n)):
        if not fix0 or p[0] == 0:
            yield p


def all_renamings(tab, Q, S, fix0=True, std=True):
    for so in perms(Q, fix0):
        for co in perms(S, fix0):
            for mir in (0, 1):
                yield so, co, mir, rename(tab, so, co, mir, std)


def tnf(ctx, Q, S, steps, rest, bound=2, few=0, unused=0):
    """A machine in normal-form order, and an arbitrary renaming of it (every
    machine is one)."""
    M = shim.load("TNF")
    spec = TMSpec(ctx, Q, S, symbolic_write=False)
    ctx.assume(spec.cells[0, 0][0] == RUN)
    o = OracleRun(ctx, spec, tnf=True)
    while o.t < steps and o.end is None:
        o.step()
    used_s, used_c = o.maxs + 1, o.maxc + 1
    if unused:
        ctx.assume(used_s <= Q - 2 or used_c <= S - 2)
    spec.unmet(o.seen, rest, bound)
    so = list(perms(Q, True))
    co = list(perms(S, True))
    if few:
        so, co = so[-1:], co[-1:]
    so = so[ctx.choice("so", len(so))]
    co = co[ctx.choice("co", len(co))]
    mir = ctx.choice("mir", 2)
    nf = spec_table(ctx, spec)
    tab = rename(nf, so, co, mir, False)
    m = make(tab, Q, S)
    form = M.to_TNF(m, steps)
    ctx.check(table(ctx, m) == tab, "the machine itself is left as it was")
    if form is None:
        ctx.check(used_s < Q - 1 or used_c < S - 1,
                  "a machine that uses all its names (but one, which is then clear) gets a normal form")
        ctx.note("none")
        # no renaming of it has one
        ctx.check(M.to_TNF(make(nf, Q, S), steps) is None, "renamed machines get a normal form alike")
        return
    got = table(ctx, form)
    ctx.check((form.num_states, form.num_symbols) == (Q, S), "size")
    if used_s >= Q - 1 and used_c >= S - 1:
        ctx.check(got == rename(nf, range(Q), range(S), 0), "the normal form is the machine with its names in order")
        ctx.note("form")
    else:
        ctx.check(any(t == got for _, _, _, t in all_renamings(tab, Q, S)),
                  "the normal form is the machine renamed (and mirrored), halts standardised")
        other = M.to_TNF(make(nf, Q, S), steps)
        ctx.check(other is not None and table(ctx, other) == got, "renamed machines get the same normal form")
    again = M.to_TNF(form, steps)
    ctx.check(again is not None and table(ctx, again) == got, "normalising twice changes nothing")


def concrete_spec(ctx, Q, S, fixed):
    spec = TMSpec(ctx, Q, S, symbolic_write=False, fixed=decode(fixed) if fixed else None)
    for v in spec.cells.values():
        # a halting step writes what it likes and moves either way
        ctx.assume(ctx.implies(v[0] == UNDEF, ctx.And(v[1] == 0, v[2] == 0, v[3] == 0)))
        ctx.assume(ctx.implies(v[0] == HALT, v[3] == 0))
    return spec_table(ctx, spec)


def lnf(ctx, Q, S, fixed=None):
    L = shim.load("LNF")
    tab = concrete_spec(ctx, Q, S, fixed)
    std = rename(tab, range(Q), range(S), 0)
    m = make(tab, Q, S)
    form = L.brute_lnf(m)
    got = table(ctx, form)
    start = (int(form.init_state), form.init_symbol)
    ctx.check(table(ctx, m) == tab, "the machine itself is left as it was")
    ok = False
    for so, co, mir, t in all_renamings(tab, Q, S, fix0=False):
        if t == got and start == (so.index(0), co.index(0)):
            ok = True
    ctx.check(ok, "the normal form is the machine renamed (and mirrored), with its start state and blank")
    # the form of a renamed machine; the start is compared where it is marked
    for so, co, mir, t in all_renamings(tab, Q, S, fix0=True, std=False):
        o = L.brute_lnf(make(t, Q, S))
        ctx.check(table(ctx, o) == got, "renamed machines have the same normal form")
        ctx.check((int(o.init_state), o.init_symbol) == start, "renamed machines have the same start in normal form")
    ctx.note("form")
    if start == (0, 0):
        o = L.brute_lnf(form)
        ctx.check(table(ctx, o) == got, "normalising twice changes nothing")
        ctx.note("twice")


def starts(ctx, Q, S, steps, fixed=None):
    P = shim.load("Permute")
    tab = concrete_spec(ctx, Q, S, fixed)
    m = make(tab, Q, S)
    kids = list(P.permute_start_state(m, steps))
    ctx.check(table(ctx, m) == tab, "the machine itself is left as it was")
    ctx.check(len(kids) == Q, "one machine per start state")
    for k, kid in enumerate(kids):
        got = table(ctx, kid)
        ok = False
        for so in perms(Q, False):
            if so[0] != k:
                continue
            for co in perms(S, True):
                for mir in (0, 1):
                    ok = ok or rename(tab, so, co, mir) == got
        ctx.check(ok, "the machine started in another state, renamed")
    ctx.note("ok")


TMS = {(3, 2): ["1RB1LC_0LA1RB_1RZ0LC", "1RB0RC_1LC1LA_0RA---"], (2, 3): ["1RB2LB1RZ_2LA2RB1LB", "1RB---2LA_2LA1RA0RB"],
       (4, 2): ["1RB1LA_1LC0RD_0RA1RZ_1LB---", "1RB0LC_1LD1RZ_0LA1RB_1RA1LC"]}


def cases(tier):
    q = tier == "quick"
    cs = []
    N = {(2, 2): 12, (3, 2): 5, (2, 3): 5, (3, 3): 4} if q else {(2, 2): 30, (3, 2): 16, (2, 3): 14, (3, 3): 7, (4, 2): 9}
    for (Q, S), n in N.items():
        for rest in (("stop",) if Q * S > 6 else ("any",) if q else ("stop", "run", "any")):
            cs.append(Case("tnf", dict(Q=Q, S=S, steps=n, rest=rest, bound=1 if q else 2, few=q and Q * S > 6),
                           name="tnf_%d%d_%s" % (Q, S, rest), need=["form"]))
    for Q, S in ((4, 2), (2, 4), (3, 3)):
        cs.append(Case("tnf", dict(Q=Q, S=S, steps=4 if q else 6, rest="stop", few=q, unused=1),
                       name="tnf_unused_%d%d" % (Q, S), need=["none"]))
    cs.append(Case("lnf", dict(Q=2, S=2), name="lnf_22", need=["form", "twice"]))
    cs.append(Case("starts", dict(Q=2, S=2, steps=10), name="starts_22", need=["ok"]))
    for (Q, S), tms in TMS.items():
        cells = [(s, c) for s in range(Q) for c in range(S)]
        for tm in tms:
            for i, pair in enumerate(itertools.combinations(cells, 2)):
                if q and i % 3:
                    continue
                f = holes(tm, pair)
                if (Q, S) == (4, 2):
                    if i % 9 == 0:
                        cs.append(Case("starts", dict(Q=Q, S=S, steps=12, fixed=f), name="starts_" + f, need=["ok"]))
                    continue
                cs.append(Case("lnf", dict(Q=Q, S=S, fixed=f), name="lnf_" + f, need=["form"]))
                cs.append(Case("starts", dict(Q=Q, S=S, steps=12, fixed=f), name="starts_" + f, need=["ok"]))
    return cs
