"""Cases: two calls of X01 that neither draw random numbers (unless given a seed) nor plot, the second on the same inputs or on
inputs of its own, run at a drawn point of the package's code within the first, as when threads or event
handlers overlap: the schedules in which one call is suspended while others run through. Both results must be those of
the calls alone, and no input may change; and a reader of the inputs finds them unchanged at every line of a call.
Non-trivial: the first call was suspended before its end and the second shares an input with it or is the same
function."""
import contextlib
import io
import warnings

from hypothesis import strategies as st

import pointpats  # noqa: F401
from checks import X01, X04
from pbt.core import check, seed_everything

NAMES = [n for n in X01.ENTRIES if not any(w in n for w in (*X04.DRAWS, *X04.PLOTS))]
NAMES.append("QStatistic(geo, polygon)")
NAMES = sorted(set(NAMES))
THEMES = [t for t in ([n for n in theme if n in NAMES] for theme in X01.THEMES) if t]


class Pause(X04.Stop):
    """Runs something at one line."""

    def __init__(self, at, then):
        super().__init__(at)
        self.then = then

    def line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.at is not None and self.lines >= self.at:
                self.at = None
                self.then()
        return self.line


@st.composite
def case_(draw):
    c = draw(X01.case_())
    name = draw(st.sampled_from(NAMES))
    theme = [t for t in THEMES if name in t] or [NAMES]
    c["calls"] = [name, draw(st.one_of(st.just(name), st.sampled_from(theme[0]), st.sampled_from(NAMES)))]
    c["share"] = draw(st.integers(0, 1000))
    c["apart"] = draw(st.booleans())
    return c


def renew(inputs, c):
    r = X01.Inputs(c)
    for x in inputs.made:
        getattr(r, x)
    return r


def elsewhere(c):
    return {**c, "pts": [[2 * y + 1, x - 3] for x, y in c["pts"][::-1]], "t": [9 - v for v in c["t"]][1:] + [3], "delta": 2 * c["delta"]}


@check("overlaps", case_(), quick=700, examples=[{**X01.EXAMPLE, "calls": [n, n], "share": 300 + 13 * k % 600, "apart": k % 3 > 0} for k, n in enumerate(NAMES)])
def overlaps(c, ctx):
    overlap(c, ctx, lambda whole: [1 + c["share"] * max(whole.lines - 1, 0) // 1000])


@check("every line", case_(), quick=60, examples=[{**X01.EXAMPLE, "calls": [n, n], "share": k, "apart": k % 4 > 0} for k, n in enumerate(NAMES)])
def every_line(c, ctx):
    """Suspended where each line of the package is reached for the first time."""
    c = {**c, "calls": [c["calls"][0]] * 2}
    overlap(c, ctx, lambda whole: sorted(whole.seen.values()) if len(whole.seen) < 60 else sorted(whole.seen.values())[c["share"] % 2 :: 2])


def reads(inputs):
    r = {}
    for x, v in inputs.made.items():
        r[x] = [X01.freeze(v)]
        if isinstance(v, pointpats.PointPattern):
            r[x] += [len(v), v.n, [tuple(p) for p in v.points.values.tolist()], tuple(v.points.values[-1].tolist()) in v, sorted(map(str, v.df.columns))]
    return r


@check("readers", case_(), quick=200, examples=[{**X01.EXAMPLE, "calls": [n, n]} for n in NAMES])
def readers(c, ctx):
    """Another reader of the same inputs sees no change of them at any line."""
    name = c["calls"][0]
    f = X01.ENTRIES[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fresh, I = X01.Inputs(c), X01.Inputs(c)  # noqa: E741
        seed_everything(c["seed"])
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call(name, f, fresh)
        for x in fresh.made:
            getattr(I, x)
        before = reads(I)
        seen, changed = set(), []

        class Reader(X04.Stop):
            def line(self, frame, event, arg):
                place = (frame.f_code.co_filename, frame.f_lineno)
                if place not in seen and len(seen) < 250:
                    seen.add(place)
                    now = reads(I)
                    changed.extend((x, place[0].rsplit("/", 1)[-1], place[1]) for x in before if now[x] != before[x])
                return self.line

        ctx.call(name, X04.go, f, I, c["seed"], Reader())
        ctx.interesting(len(seen) > 2)
        ctx.ok(not changed, lambda: f"while {name} runs, a reader of its input {changed[0][0]!r} finds it changed (at {changed[0][1]}:{changed[0][2]})")


def overlap(c, ctx, points):
    name, within = c["calls"]
    f = X01.ENTRIES[name]
    d = elsewhere(c) if c["apart"] else c
    ctx.label("inputs apart" if c["apart"] else "inputs shared")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fresh, I = X01.Inputs(c), X01.Inputs(c)  # noqa: E741
        seed_everything(c["seed"])
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.call(name, f, fresh)
        mine = set(fresh.made)
        alone = X01.Inputs(d)
        wanted = ctx.call(within, X01.perform, within, alone, c["seed"] + 1)
        J = X01.Inputs(d) if c["apart"] else I
        for inputs, names in ((I, mine), (J, set(alone.made))):
            for x in names:
                getattr(inputs, x)
        fresh = X01.Inputs(c)
        for x in mine:
            getattr(fresh, x)
        whole = X04.Stop()
        want = ctx.call(name, X04.go, f, fresh, c["seed"], whole)
        untouched = [(inputs, x, X01.freeze(v)) for inputs in (I, J) for x, v in inputs.made.items()]
        for at in points(whole):
            what = f"{within}, run at line {at} of {whole.lines} of {name}"
            got = []
            outcome = ctx.call(name, X04.go, f, I, c["seed"], Pause(at, lambda: got.append(ctx.call(what, X01.perform, within, J, c["seed"] + 1))))
            if not got:  # nothing of the package is run
                return
            ctx.interesting(at < whole.lines and (name == within or (not c["apart"] and bool(mine & set(alone.made)))))
            ctx.ok(got[0] == wanted, lambda: f"{what}, gives another result than alone")
            ctx.ok(outcome == want, lambda: f"{name} gives another result when {within} runs at its line {at} of {whole.lines}")
            for inputs, x, v in untouched:
                ctx.ok(X01.freeze(inputs.made[x]) == v, lambda: f"{what}: input {x!r} is changed")
            shared = J is I
            I = renew(I, c)  # noqa: E741  # what keeps results starts anew
            J = I if shared else renew(J, d)
            untouched = [(inputs, x, X01.freeze(v)) for inputs in (I, J) for x, v in inputs.made.items()]
