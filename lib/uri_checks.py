"""U01..U04: uri/ against spec/Uri*.tla."""
from vp import *

MODEL = {
    "U01": ("UriParse", "Refines OnlyAtEnd RoundTrip TextBack Covers Emit", "parse"),
    "U02": ("UriHost", "Refines EightGroups FourOctets Literal Same Emit", "host"),
    "U03": ("UriQuery", "MeaningAgrees IndexIsList PrintedIsRead Monotone Emit", "query"),
    "U04": ("UriModel", "ReadsBack PathKept LessIsOrder Emit", "model"),
}
COUNT = {"U01": (8000, 100000), "U02": (8000, 100000), "U03": (4000, 50000), "U04": (6000, 60000)}


def run(ctx):
    h = ctx.build("uri")
    ctx.assumptions = [
        "an empty scheme before the colon is accepted; // always introduces an authority",
        "the notation of a printed IPv6 address is the standard library's",
        "texts are bounded as in the specification modules; recorded runs are random and seeded",
    ]
    module, invs, cmd = MODEL[ctx.prop]
    out = ctx.tlc(module, "CONSTANT Deep = %s\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (tla(ctx.deep), invs), "model")
    replay(ctx, h, cmd, out, "replay")
    batches = range(5) if ctx.deep else range(1)
    for b in batches:
        n = COUNT[ctx.prop][1] // 5 if ctx.deep else COUNT[ctx.prop][0]
        validate(ctx, h, "UriTrace", [cmd, ctx.seed * 100 + b, n], "runs")
