"""H01..H04: hocon/ against spec/Hocon*.tla."""
from vp import *

MODEL = {
    "H01": ("HoconStore", "LastWins Prefixes Found ReadsBack PartsAreWhole Emit", "store"),
    "H02": ("HoconRefs", "Agree Confluent Stays Optional Cut Decided OptionalCut Emit", "refs"),
    "H03": ("HoconScalars", "Means Exact Emit", "scalars"),
    "H04": ("HoconValues", "Past Newest Bracket ReadsBack Emit", "values"),
}
COUNT = {"H01": (4000, 60000), "H02": (4000, 60000), "H03": (4000, 60000), "H04": (4000, 60000)}


def run(ctx):
    h = ctx.build("hocon")
    ctx.assumptions = [
        "string values are quoted; unquoted keys are of letters, - and _; a quoted key holds no dot",
        "an object is not defined where a reference is in force",
        "numbers of at most 28 digits; a document that includes files holds nothing else",
        "documents are bounded as in the specification modules; recorded runs are random and seeded",
    ]
    module, invs, cmd = MODEL[ctx.prop]
    out = ctx.tlc(module, "CONSTANT Deep = %s\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (tla(ctx.deep), invs), "model")
    replay(ctx, h, cmd, out, "replay")
    batches = range(10) if ctx.deep else range(1)
    for b in batches:
        n = COUNT[ctx.prop][1] // 10 if ctx.deep else COUNT[ctx.prop][0]
        validate(ctx, h, "HoconTrace", [cmd, ctx.seed * 100 + b, n], "runs")
