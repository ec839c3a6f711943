"""What each property's check runs."""
from check import Part

TECHNIQUE = "TLA+ specification; TLC decides whether recorded histories of real calls are behaviours of it"
NOTE = ("Bounded: randomly generated histories of public calls over small inputs, each call judged exactly "
        "(against the specification's definition, on every listed parameter value) by TLC.")
NOT_APPLICABLE = {
    "C20": "the bindings are generated source text in two languages; the behaviour behind them is decided by the other checks, "
           "the correspondence of the generated wrappers has no state machine of its own to specify",
    "C22": "thread schedules inside uninstrumented C code cannot be enumerated or replayed from the specification; C26 decides the "
           "independence of several contexts in one thread",
}

PLANS = {
    "C01": dict(parts=[Part("", "IslTrace", 4800, 600)]),
    "C02": dict(parts=[Part("", "IslTrace", 5600, 700)]),
    "C03": dict(parts=[Part("", "IslTrace", 4000, 500)]),
    "C04": dict(parts=[Part("", "IslOpt", 2000, 250)]),
    "C05": dict(parts=[Part("", "IslHull", 2000, 250)]),
    "C06": dict(parts=[Part("", "IslScan", 5600, 700)]),
    "C07": dict(parts=[Part("", "IslFunTrace", 704, 88)]),
    "C08": dict(parts=[Part("", "IslPoly", 2000, 250)]),
    "C09": dict(parts=[Part("", "IslClos", 1600, 200)]),
    "C19": dict(parts=[Part("", "IslCont", 2400, 300)]),
    "C21": dict(parts=[Part("", "IslAstExpr", 800, 100)]),
    "C23": dict(parts=[Part("", "IslVert", 1200, 150)]),
    "C24": dict(parts=[Part("", "IslSpaces", 2400, 300), Part("align", "IslTrace", 1200, 150)]),
    "C25": dict(parts=[Part("", "IslMat", 4000, 500)]),
    "C10": dict(parts=[Part("", "IslText", 1304, 163)]),
    "C12": dict(parts=[Part("", "IslFlow", 904, 113)]),
    "C11": dict(parts=[Part("", "IslAst", 2000, 250)]),
    "C13": dict(parts=[Part("", "IslSchedule", 4000, 500)]),
    "C14": dict(parts=[Part("", "IslEdit", 4000, 500)]),
    "C15": dict(parts=[Part("", "IslLedger", 1600, 200)]),
    "C16": dict(parts=[Part("", "IslLedger", 1600, 200)]),
    "C17": dict(parts=[Part("", "IslLedger", 1600, 200)]),
    "C26": dict(parts=[Part("arg", "IslConf", 800, 100), Part("rel", "IslTrace", 1200, 150), Part("fun", "IslFunTrace", 160, 20),
                       Part("opt", "IslOpt", 600, 75), Part("hull", "IslHull", 600, 75), Part("scan", "IslScan", 800, 100),
                       Part("flow", "IslFlow", 160, 20), Part("ast", "IslAst", 400, 50), Part("sched", "IslSchedule", 600, 75),
                       Part("poly", "IslPoly", 400, 50), Part("clos", "IslClos", 240, 30)]),
    "C18": dict(parts=[Part("", "IslNum", 1600, 200)], models=[("IslBigLaws", "IslBigLaws.cfg", {})]),
}
