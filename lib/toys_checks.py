"""T01, T02: toys/ against spec/Toys*.tla."""
from vp import *

MODEL = {
    "T01": ("ToysExpr", "INVARIANTS Refines Splits ReadsBack Emit", "expr"),
    "T02": ("ToysRun", "INVARIANTS Refines Frames ReadsBack Emit\nPROPERTIES Keeps", "run"),
}
COUNT = {"T01": (800, 12000), "T02": (1500, 30000)}


def run(ctx):
    h = ctx.build("toys")
    ctx.assumptions = [
        "the value of a loop, of printing, of an empty block and of a conditional without the branch that is due is not specified",
        "&& and || are of one level with the comparisons and evaluate both sides; a called function sees its caller's variables",
        "programs with a type error, an overflow of 64 bits, a division by zero or missing arguments are left out",
        "programs are bounded as in the specification modules; recorded runs are random and seeded",
    ]
    module, checks, cmd = MODEL[ctx.prop]
    out = ctx.tlc(module, "CONSTANT Deep = %s\nSPECIFICATION Spec\n%s\nCHECK_DEADLOCK FALSE\n" % (tla(ctx.deep), checks), "model")
    replay(ctx, h, cmd, out, "replay", *(["every"] if ctx.deep and cmd == "run" else []))
    batches = range(10) if ctx.deep else range(1)
    for b in batches:
        n = COUNT[ctx.prop][1] // 10 if ctx.deep else COUNT[ctx.prop][0]
        validate(ctx, h, "ToysTrace", [cmd, ctx.seed * 100 + b, n], "runs")
