"""C01..C11: the parser combinator library against spec/Comb*.tla."""
from vp import *

# node kinds one of which every recorded trace contains
FOCUS = {
    "C01": "and,skipl,skipr,surround,bind,map,discard,collect,last,next",
    "C02": "or,attempt,opt,bind",
    "C03": "rep",
    "C04": "peek,not,exists",
    "C05": "elm,any,of,noneof,cls,in",
    "C06": "seq,take,skip,while0,while1,whilenm,till0,till1,end",
    "C07": "chainl1,chainr1,chainl0,chainr0,restl1,restr1,scanr1",
    "C08": "cache,lazy,clone,log",
    "C09": "name,log,fail",
    "C10": "filter,filternot,mapres",
}



def replayed(ctx, res, what):
    r = read_json(res)
    ctx.extra[what] = {"cases": r["cases"], "grammars": r["grammars"], "runs_of_real_code": r["runs"], "mismatches": r["mismatches"]}
    if r["cases"] == 0 or r["runs"] == 0:
        raise ToolError("nothing was replayed")
    ctx.validated += r["cases"]
    for b in r["bad"]:
        ctx.violate(b)


def model_and_replay(ctx, h):
    grams, res = ctx.path("grammars.json"), ctx.path("replay.json")
    if ctx.prop == "C08":
        out = ctx.tlc("CombHist", 'CONSTANTS EmitFile = "%s" MaxRuns = %d Deep = %s\nSPECIFICATION Spec\n'
                      'INVARIANTS Emit PureLast MemoSound\nCHECK_DEADLOCK FALSE\n' % (grams, 3, tla(ctx.deep)), "model")
        args = [h, "hist", grams, out, res]
    else:
        out = ctx.tlc("CombRun", 'CONSTANTS Family = "%s" EmitFile = "%s" Deep = %s\nSPECIFICATION Spec\n'
                      'INVARIANTS Emit Refines InBounds Nested OrSecond RepBounds Shape\nCHECK_DEADLOCK FALSE\n'
                      % (ctx.prop, grams, tla(ctx.deep)), "model")
        args = [h, "replay", grams, out, res, "errors" if ctx.prop == "C09" else "plain"]
        seen = {"success": 0, "soft failure": 0, "committed failure": 0}
        for k, c in enumerate(ctx.tlc_json(out)):
            seen["success" if c["r"]["ok"] else "committed failure" if c["r"]["c"] else "soft failure"] += 1
            if k % 9973 == 17:
                ctx.sample({"case": c})
        ctx.extra["outcomes"] = seen
    if ctx.harness(args, what="replaying the specification's behaviours"):
        replayed(ctx, res, "replay")


def traces(ctx, h):
    batches = [(ctx.seed, 3000, 10)] if not ctx.deep else [(ctx.seed * 1000 + k, 20000, 8 + k) for k in range(6)]
    tot = {"traces": 0, "events": 0, "longest": 0}
    for seed, count, size in batches:
        f, s = ctx.path("t.ndjson"), ctx.path("t.json")
        if not ctx.harness([h, "trace", seed, count, size, FOCUS[ctx.prop], f, s], what="recording traces"):
            return
        r = read_json(s)
        for b in r["bad"][:10]:
            ctx.violate(b)
        tot["traces"] += r["traces"]
        tot["events"] += r["events"]
        tot["longest"] = max(tot["longest"], r["longest"])
        if r["traces"] == 0:
            raise ToolError("no trace was recorded")
        out = ctx.tlc("CombTrace", 'CONSTANT TraceFile = "%s"\nSPECIFICATION Spec\nINVARIANTS Report Complete Accepted\nCHECK_DEADLOCK FALSE\n' % f, "trace")
        accepted, rejected = set(), []
        for j in ctx.tlc_json(out):
            if "accepted" in j:
                accepted.add(j["accepted"])
            else:
                rejected.append(j)
        lines = None
        for j in sorted(rejected, key=lambda j: j["trace"])[:10]:
            lines = lines or open(f).read().splitlines()
            t = json.loads(lines[j["trace"]])
            ctx.violate({"why": "the recorded trace is not a behaviour of the specification: event %d" % j["event"], "g": t["g"], "w": t["w"],
                         "i": t["i"], "type": t["type"], "style": t["style"], "event": j["e"], "specified": j["want"], "calls": j["calls"],
                         "trace": t["ev"][:j["event"]]})
        if not rejected and len(accepted) != r["traces"]:
            raise ToolError("%d traces recorded, %d accepted, none rejected" % (r["traces"], len(accepted)))
        ctx.validated += len(accepted)
        if not ctx.samples or len(ctx.samples) < 5:
            with open(f) as fh:
                t = json.loads(next(fh))
            ctx.sample({"trace": {"g": t["g"], "w": t["w"], "i": t["i"], "events": len(t["ev"]), "first": t["ev"][:4]}})
    ctx.extra["recorded"] = tot


def values(ctx, h):
    out = ctx.tlc("CombValues", "CONSTANT Deep = %s\nSPECIFICATION Spec\nINVARIANTS Either Within Moves Emit\nPROPERTIES Failed\nCHECK_DEADLOCK FALSE\n" % tla(ctx.deep), "model")
    for k, c in enumerate(ctx.tlc_json(out)):
        if k % 29989 == 17:
            ctx.sample({"case": c})
    res = ctx.path("replay.json")
    if ctx.harness([h, "values", out, res], what="replaying the specification's behaviours"):
        replayed(ctx, res, "replay")


def run(ctx):
    h = ctx.build("comb")
    if ctx.prop == "C11":
        ctx.assumptions = ["parse states stay within their input; functions given to map, flat_map and map_err are pure"]
        values(ctx, h)
        return
    ctx.assumptions = [
        "grammars, inputs and start offsets are bounded as in spec/CombFamilies.tla; recorded traces are random and seeded",
        "chains whose operand and operator can both succeed without consuming are outside the model (they do not terminate)",
        "parsers and functions given by the user are pure",
    ]
    model_and_replay(ctx, h)
    traces(ctx, h)
