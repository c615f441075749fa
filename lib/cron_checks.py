"""K01..K04: crond/ against spec/Cron*.tla."""
from vp import *

MODEL = {
    "K01": ("CronParse", "Refines OnlyAtEnd FiveFields InRange Emit", "parse"),
    "K02": ("CronEval", "Sofar Complete Conj Cal Emit", "eval"),
    "K03": ("CronIter", "Increasing AllSatisfy Within Unbounded NoneSkipped Emit", "iter"),
    "K04": ("CronZone", "Increasing AllSatisfy Within NoneSkipped Repeats Emit", "zone"),
}
KIND = {"K01": "parse", "K02": "sat", "K03": "iter", "K04": "zone"}
COUNT = {"K01": (6000, 60000), "K02": (8000, 80000), "K03": (1000, 12000), "K04": (1000, 12000)}


def run(ctx):
    h = ctx.build("cron")
    ctx.assumptions = [
        "zones have a fixed offset or (K04) one that changes at whole minutes; instants lie between 1970 and 2200",
        "schedules that select no date at all (30 February) are outside the model: searching them does not end",
        "expressions and calendars are bounded as in the specification modules; recorded runs are random and seeded",
    ]
    module, invs, cmd = MODEL[ctx.prop]
    out = ctx.tlc(module, "CONSTANT Deep = %s\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (tla(ctx.deep), invs), "model")
    replay(ctx, h, cmd, out, "replay")
    batches = range(5) if ctx.deep else range(1)
    for b in batches:
        n = COUNT[ctx.prop][1] // 5 if ctx.deep else COUNT[ctx.prop][0]
        validate(ctx, h, "CronTrace", [KIND[ctx.prop], ctx.seed * 100 + b, n], "runs")
