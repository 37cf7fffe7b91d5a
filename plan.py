"""What each check runs."""
import random
import time

LEVEL = "model_checking"
ASSUMPTIONS = [
    "the driver records arguments, results and exported state of the library faithfully (harness/)",
    "the specification states the intended meaning of the operations and of WordprocessingML (spec/)",
    "histories beyond the explored ones behave alike",
]

# quick: (profile, traces, operations)
HIST = {
    "C01": ["C01", "ALL"], "C02": ["C02"], "C03": ["C03", "C06"], "C04": ["C04", "C18"], "C05": ["C05", "C08"], "C06": ["C06"],
    "C07": ["C07"], "C08": ["C08"], "C09": ["C09", "ALL"], "C10": ["C10"], "C11": ["C11"], "C12": ["C12"], "C13": [],
    "C14": ["C14"], "C15": [], "C16": ["C16"], "C17": ["C17"], "C18": ["C18"], "C19": ["C19"], "C20": ["C20", "ALL"],
}
QUICK_TRACES = 900


def mc(start, depth, ops, docs=3, items=4, kids=3):
    return dict(Ops=ops.split(), Depth=depth, MaxDocs=docs, MaxItems=items, MaxKids=kids, Start=start, OnlyLong=False, Random=False)


REFS = ["NoDangling", "UniqueRels", "LinksTrue"]
# the models that are explored and replayed: (invariants, quick, thorough)
MODELS = {
    "C01": [(["RoundTrip"], mc("new", 3, "AddText AddLink AddPic AddShape AddTable Cell.AddParagraph AddPage Run.Bold Par.NumPr Load", docs=2),
             mc("new", 4, "AddText AddLink AddPic AddShape AddTable Cell.AddParagraph AddPage Run.Bold Par.NumPr Load", docs=3))],
    "C03": [(["ValidPackages"], mc("foreign", 2, "AddPic AddLink Append Split Save Load", docs=5, items=8),
             mc("foreign", 3, "AddPic AddLink Append Split Save Load", docs=5, items=8))],
    "C04": [(REFS, mc("foreign", 2, "AddLink AddPic Append Split Load Body.Keep", docs=5, items=8),
             mc("foreign", 3, "AddLink AddPic Append Split Load Body.Keep", docs=5, items=8))],
    "C05": [(["PicsTrue", "NoDangling"], mc("two", 3, "AddPic Append Split Load", docs=4), mc("two", 4, "AddPic Append Split Load", docs=4)),
            (["NoDangling"], mc("foreign", 2, "AddPic Append Split Load", docs=5, items=8), mc("foreign", 3, "AddPic Append Split Load", docs=5, items=8))],
    "C06": [([], mc("foreign", 2, "AddPic AddLink Append Split Save Load New", docs=5, items=8), mc("foreign", 3, "AddPic AddLink Append Split Save Load New", docs=5, items=8))],
    "C07": [(["SplitLaw", "SplitAppendLaw"], mc("new", 4, "AddParagraph AddTable AddPic Split Load", docs=4, items=3), mc("new", 5, "AddParagraph AddTable AddLink AddPic Split Load", docs=5)),
            (["SplitLaw"], mc("foreign", 2, "AddParagraph Split Load Par.Justification", docs=6, items=6), mc("foreign", 3, "AddParagraph Split Load AddPic Par.Justification", docs=7, items=6))],
    "C08": [(["AppendLaw"], mc("two", 3, "AddLink AddPic Append Load"), mc("two", 4, "AddParagraph AddLink AddPic AddShape Append Load")),
            (["AppendLaw"], mc("foreign", 2, "AddPic AddLink Append", items=9), mc("foreign", 3, "AddPic AddLink Append Load", items=9))],
    "C09": [([], mc("foreign", 2, "Append Split Load Run.Color Par.Justification AddLink Body.Drop", docs=5, items=8),
             mc("foreign", 3, "Append Split Load Run.Color Par.Justification AddLink Body.Drop", docs=5, items=8))],
    "C10": [(["MergeLaw"], mc("new", 5, "AddText Run.Bold Par.MergeSelf", docs=1), mc("new", 6, "AddText Run.Bold Run.AddTab AddLink Par.MergeSelf", docs=1, kids=4))],
    "C11": [(["DropLaw"], mc("new", 3, "AddText AddPic AddShape AddTable Cell.AddParagraph Body.Keep Par.Keep Run.Keep Body.Drop", docs=1),
             mc("new", 4, "AddText AddPic AddShape AddTable Cell.AddParagraph Body.Keep Par.Keep Run.Keep Body.Drop", docs=1)),
            (["DropLaw"], mc("foreign", 2, "Body.Keep Par.Keep Run.Keep Body.Drop AddPic AddShape", docs=2), mc("foreign", 3, "Body.Keep Par.Keep Run.Keep Body.Drop AddPic AddShape", docs=2))],
    "C12": [([], mc("new", 4, "AddText AddLink Par.String Run.AddTab Par.MergeSelf", docs=1), mc("new", 5, "AddText AddLink Par.String Run.AddTab Par.MergeSelf Load", docs=2)),
            ([], mc("two", 3, "AddPic AddShape AddLink Par.String Append Load", docs=3), mc("two", 4, "AddPic AddShape AddLink Par.String Append Split Load", docs=4))],
    "C16": [([], mc("new", 4, "AddTable Cell.AddParagraph AddText Par.Justification", docs=1), mc("new", 5, "AddTable Cell.AddParagraph AddText Par.Justification Load", docs=2))],
    "C17": [(["SetterLaw"], mc("new", 4, "AddText Run.Bold Run.Color Par.Justification Par.NumPr Par.NumSize", docs=1),
             mc("new", 5, "AddText Run.Bold Run.Color Par.Justification Par.NumPr Par.NumSize Load", docs=2)),
            (["SetterLaw"], mc("foreign", 2, "Run.Bold Run.Color Par.Justification Par.NumPr Par.NumSize Append", docs=2, items=8),
             mc("foreign", 3, "Run.Bold Run.Color Par.Justification Par.NumPr Par.NumSize Append", docs=2, items=8))],
    "C18": [(["UniqueRels", "UniqueDrawings"], mc("two", 3, "AddPic AddShape AddLink Append Split Load", docs=3), mc("two", 4, "AddPic AddShape AddLink Append Split Load", docs=4))],
    "C19": [(["PicsTrue"], mc("new", 4, "AddPic AddShape Load", docs=2, kids=4), mc("two", 5, "AddPic AddShape Load", docs=3, kids=4))],
    "C20": [([], mc("new", 3, "AddParagraph AddText AddLink AddPic AddShape AddTable Cell.AddParagraph AddPage Run.AddTab", docs=1),
             mc("new", 4, "AddParagraph AddText AddLink AddPic AddShape AddTable Cell.AddParagraph AddPage Run.AddTab", docs=1))],
}


ALLOPS = ("AddParagraph AddText AddLink AddPic AddShape AddTable Cell.AddParagraph AddPage Run.Bold Run.Color Run.AddTab Par.Justification Par.NumPr Par.NumSize "
          "Par.MergeSelf Par.String Par.Keep Run.Keep Body.Keep Body.Drop Append Split Save Load New")


def deep(run):
    """long random sequences of the model with all operations"""
    for k, start in enumerate(["two", "foreign", "pieces", "appended"]):
        c = dict(mc(start, 16, ALLOPS, docs=8, items=16, kids=8), OnlyLong=True, Random=True)
        ss = run.model("MC", c, ["Accepted", "NoDangling", "UniqueRels", "LinksTrue", "RoundTrip", "ValidPackages"], emit=True, simulate=(300, 120), timeout=800)
        run.replay_model("deep-" + start, ss)


def models(run, which):
    for k, m in enumerate(MODELS.get(run.prop, [])):
        ss = run.model("MC", m[1 + which], ["Accepted"] + m[0], emit=True, cap=[1500, 40000][which])
        run.replay_model("model%d" % k, ss)


def saves(run, which):
    """fault schedules of the model of saving, imposed on the real library"""
    inv = ["SuccessIsComplete", "FaultIsReported", "NothingIsLeftOpen", "GoodSaveSucceeds"]
    for parts, full, steps in [(4, True, 1), (3, False, 2)] if not which else [(4, True, 2), (3, False, 3)]:
        ss = run.model("SaveFault", dict(Parts=parts, Chunks=2, Steps=steps, Full=full, Flaws=[]), inv, emit=True)
        mine = []
        for k, x in enumerate(ss):
            starts = ["themed", "parsed", "piece"]
            for start in starts if steps == 1 or which else [starts[k % 3]]:
                c = dict(x["calls"][0], x=[start])
                mine.append(dict(x, calls=[c] + x["calls"][1:]))
        random.Random(run.seed).shuffle(mine)
        run.replay_model("save-%d" % steps, mine[:[1200, 40000][which]])


SETUP = {"two": 6, "pieces": 2, "twins": 2, "appended": 9}


def together(run, which):
    """sequences on documents of one origin, each document in a goroutine of its own"""
    ops = "AddText AddLink AddPic AddShape AddParagraph AddTable Save Run.Bold Run.Color Run.AddTab Par.Justification Par.NumPr Par.MergeSelf Par.String Par.Keep Run.Keep Body.Drop"
    run.model("IdAlloc", dict(Threads=2 + which, Calls=3 - which, Flaws=[]), ["Accepts", "Linearizable"], emit=None)
    for start in sorted(SETUP):
        c = dict(mc(start, 8, ops, docs=3, items=12, kids=8), OnlyLong=True, Random=True)
        ss = run.model("MC", c, ["Accepted", "NoDangling"], emit=True, simulate=([60, 3000][which], 60))
        for x in ss:
            x["par"] = SETUP[start]
        run.replay_model("together-" + start, ss, race=True)


# properties for which every element type is enumerated
ENUM = {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C14"}


LENGTHS = [[1, 2, 3, 4, 7, 8, 9, 15, 16, 17], [31, 32, 33, 63, 64, 65], [66, 99, 100, 101], [127, 128, 129]]


def enum(run, which):
    if run.prop in ENUM:
        ns = LENGTHS if not which else [list(range(a, min(a + 10, 140))) for a in range(1, 140, 10)]
        ss = run.model("Enum", {"Lengths": ns}, ["ReadWriteRead", "Emitted"], emit=True)
        some = {"Strings": {"C12", "C09", "C14"}, "Merges": {"C10", "C09", "C14"}, "MergeSelfs": {"C10", "C14"}, "Keeps": {"C11", "C14"}, "Drops": {"C11", "C14"}}
        for x in ss:
            x["calls"] = [c for c in x["calls"] if run.prop in some.get(c["op"], {run.prop})]
        random.Random(run.seed).shuffle(ss)
        run.replay_model("enum", ss)


def hist(run, seed, total, ops):
    ps = HIST[run.prop]
    for k, p in enumerate(ps):
        n = total // len(ps)
        run.job({"mode": "hist", "prof": p, "seed": seed, "ops": ops, "n": n, "first": 0}, 8)


def once(run, seed, scale):
    if run.prop == "C13":
        run.job({"mode": "fault", "seed": seed, "ops": 300 * scale, "n": 16, "first": 0}, 8)
    elif run.prop == "C15":
        run.job({"mode": "conc", "race": True, "seed": seed, "ops": 20, "n": 64, "first": 0}, 2)
    else:
        hist(run, seed, QUICK_TRACES, 30)


def run(run):
    enum(run, 1 if run.tier == "thorough" else 0)
    models(run, 1 if run.tier == "thorough" else 0)
    if run.prop == "C15":
        together(run, 1 if run.tier == "thorough" else 0)
    if run.prop == "C13":
        saves(run, 1 if run.tier == "thorough" else 0)
    if run.tier != "thorough":
        once(run, run.seed, 1)
        return
    deep(run)
    t0, k = time.time(), 0
    while time.time() - t0 < 600:
        once(run, run.seed * 1000 + k, 4)
        k += 1
        if any(p == run.prop for r in run.rejects for p, _ in r[3]):
            break
