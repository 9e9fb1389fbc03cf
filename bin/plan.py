"""What each check runs."""

PARALLEL = 8
HUDD, BUDDY = "", "buddy"

ASSUMPTIONS = [
    "the observations (Allnodes, Stats, Error, Equal and results of calls) are recorded faithfully by /verif/harness",
    "TLC and the CommunityModules evaluate the specifications correctly",
    "traces sample the inputs; only the models and the jobs named exhaustive are exhaustive",
]
EXTRA_ASSUMPTIONS = {}
DEFAULT_TECHNIQUE = "TLA+ specification; TLC validation of traces recorded from the real code"
_T = "TLA+/TLC: "
TECHNIQUE = {
    "C01": _T + "tables over all functions, random and deep traces validated against Rudd/DeepFun; programs refuting variations of Kernel replayed",
    "C02": _T + "validation of whole node tables in traces (TraceRudd, TraceKernel, TraceDeep); variations of Kernel refuted and replayed",
    "C03": _T + "tables and traces validated against Rudd; programs refuting variations of Kernel replayed",
    "C04": _T + "tables and traces validated against Rudd; programs refuting variations of Kernel replayed",
    "C05": _T + "traces with collections and growth validated against Rudd; Kernel model checked; one refuting program set per protection, replayed",
    "C06": _T + "lock-step comparison (TraceCmp) of the same programs under options and builds",
    "C07": _T + "traces at the memory limit validated against Rudd and NodeTable; variations of Kernel refuted and replayed",
    "C08": _T + "tables after forced collections validated against Rudd, NodeTable and DeepFun",
    "C14": _T + "reference counts model checked at the level of reads and writes (Refs); traces of references against concurrent finalizers, also in race builds, validated against Rudd",
    "C15": _T + "lock-step comparison (TraceCmp) of programs run alone, interleaved and concurrently",
    "C18": _T + "NodeTable model checked; programs of kernel calls validated exactly against it",
    "C19": _T + "NodeTable model checked; counters and table sizes in traces validated against it",
    "C20": _T + "exhaustive and random parameters validated against TraceParams",
    "C21": _T + "calls on diagrams with exponentially many branches validated against DeepFun, with a bound on time; bound on work in the Kernel model",
}
DEFAULT_NOTE = ("Every recorded call of random and adversarial sessions, on both implementations, is checked by TLC to be a step of the "
                "specification; sampling, except for the models checked exhaustively.")
NOTES = {
    "C06": "Sampled programs, each under 8 (quick) or 12 (thorough) option sets over the four builds; every observation compared by TLC.",
    "C14": "Schedules are those of the Go runtime under load (collections in a loop, thousands of references); data races are observed by race builds. Sampling of schedules.",
    "C15": "Sampled programs and schedules; every observation compared by TLC between solitary, interleaved and concurrent runs; data races observed by race builds.",
    "C18": "The table model is checked exhaustively for small tables; every kernel call of the recorded programs is followed exactly.",
    "C20": "Exhaustive for lists of length up to 2 (3 in the thorough tier) over a small range with out-of-range values; sampling for long lists; New around its bounds.",
    "C21": "Time is judged only at 60 s, for calls that take milliseconds when subdiagrams are shared and would never end otherwise.",
}


def scale(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def ops(name, tags, profile, cfg, seed, sessions, steps, hammer=0, **kw):
    args = ["-scen", "ops", "-profile", profile, "-cfg", cfg, "-seed", seed, "-sessions", sessions, "-steps", steps]
    if hammer:
        args += ["-hammer", hammer]
    return dict(name="%s-%s-%s" % (name, tags.replace(",", "_") or "hudd", seed), tags=tags, args=args, **kw)


def both(name, profile, cfgs, tier, seed, n=2, sessions=40, steps=200, tags=(HUDD, BUDDY), **kw):
    """n traces for each build, more in the thorough tier"""
    res = []
    reps = scale(tier, n, n * 8)
    for t in tags:
        for k in range(reps):
            res.append(ops(name, t, profile, cfgs[k % len(cfgs)], seed * 1000 + k, sessions, steps, **kw))
    return res


def debugged(profile, cfg, tier, seed):
    """the builds with tag debug"""
    return both("debug", profile, [cfg], tier, seed + 300, n=1, sessions=40, steps=150, tags=("debug", "buddy,debug"))


MODEL_BOOLINT = dict(kind="model", name="BoolInt-agrees", spec="MCBoolInt", cfg="MCBoolInt.cfg", workers=2)
MODEL_BOOLFUN = dict(kind="model", name="BoolFun-laws", spec="MCBoolFun", cfg="MCBoolFun.cfg", workers=2)


def jobs(ctx, prop, tier, seed):
    return globals()["plan_" + prop](tier, seed)


def scen(name, scen_, tags, seed, **kw):
    """a trace of another scenario of the driver; args given as key=value"""
    extra = {k: kw.pop(k) for k in list(kw) if k in ("profile", "cfg", "sessions", "steps", "size", "hammer", "in")}
    args = ["-scen", scen_, "-seed", seed]
    for k, v in extra.items():
        args += ["-" + k, v]
    return dict(name="%s-%s-%s" % (name, tags.replace(",", "_") or "hudd", seed), tags=tags, args=args, **kw)


def many(name, scen_, tier, seed, n=1, tags=(HUDD, BUDDY), cfgs=None, **kw):
    res = []
    for t in tags:
        for k in range(scale(tier, n, n * 8)):
            if cfgs:
                kw["cfg"] = cfgs[k % len(cfgs)]
            res.append(scen(name, scen_, t, seed * 1000 + k, **kw))
    return res


def tables(what, tier, seed, quick, thorough=1000, sessions=(1, 1), tags=(HUDD, BUDDY), n=(1, 1)):
    """tables of an operation for all functions: share, out of 1000, of the rows"""
    res = []
    for t in tags:
        for k in range(scale(tier, *n)):
            res.append(scen("table-" + what, "matrix", t, seed * 1000 + k, profile=what, size=scale(tier, quick, thorough),
                            sessions=scale(tier, *sessions), spec="TraceMatrix", mem="4g"))
    return res


MODEL_DEEP = dict(kind="model", name="DeepFun-agrees", spec="MCDeep", cfg="MCDeep.cfg", workers=2)


def deep(tier, seed, kinds=("deep",), n=1, sessions=3, tags=(HUDD, BUDDY)):
    """diagrams thousands of levels deep"""
    res = []
    for i, kind in enumerate(kinds):
        big = kind in ("deeper", "huge")
        for k, t in enumerate(tags):
            if big and tier == "quick" and (seed + i + k) % 2:
                continue
            for j in range(scale(tier, n, 2 if kind == "huge" else 6)):
                res.append(scen("deep-" + kind, "deep", t, seed * 1000 + 7 * j, cfg=kind, sessions=scale(tier, 1 if big else sessions, 2 if big else 8),
                                steps=100, spec="TraceDeep", mem="4g"))
    return res


def kills(name, tier, seed, muts, num=250, variants=4, **env):
    """programs that refute variations of the machine of Kernel (none: random programs), run on the real code"""
    return [dict(kind="kill", name="kill-%s-%d" % (name, k), muts=muts, num=scale(tier, num, 6 * num), variants=variants, seed=seed * 1000 + k,
                 env=dict({"K_KILLS": scale(tier, 5, 20)}, **{"K_" + e: v for e, v in env.items()}))
            for k in range(scale(tier, 1, 4))]


def walks(tier, seed, ops_, num=25, **env):
    """random programs of the machine of Kernel"""
    return kills("walk", tier, seed, [], num=num, OPS=ops_, KILLS=scale(tier, 25, 200), **env)


# variations of the machine, with the calls and the options that refute them soon
KEYS_BOOL = ("keys", ["key-apply-op", "key-apply-commutes", "key-ite"], dict(EXTRA=30, OPS="Apply Ite Not"))
KEYS_QUANT = ("keysq", ["key-quant-set"], dict(EXTRA=30, OPS="Exist Apply"))
KEYS_APPEX = ("keysx", ["key-appex-set", "key-appex-op"], dict(NV=2, EXTRA=40, OPS="AppEx Apply"))
KEYS_REPL = ("keysr", ["key-replace-id"], dict(EXTRA=30, OPS="Replace Apply"))
FRAME_NOT = ("not", ["not-low", "not-high", "args-Not"], dict(NV=4, OPS="Not Apply"))
FRAME_APPLY = ("apply", ["apply-low", "apply-high", "args-Apply"], dict(NV=4, OPS="Apply"))
FRAME_ITE = ("ite", ["ite-low", "ite-high", "args-Ite"], dict(NV=4, OPS="Apply Ite"))
FRAME_QUANT = ("quant", ["quant-low", "quant-high", "args-Exist"], dict(NV=5, OPS="Exist Apply"))
FRAME_APPEX = ("appex", ["appex-low", "appex-high", "args-AppEx"], dict(NV=4, OPS="AppEx Apply"))
FRAME_REPL = ("replace", ["replace-low", "replace-high", "corr-low", "corr-high", "args-Replace"], dict(NV=4, OPS="Replace Apply"))
FRAME_SET = ("set", ["set-push"], dict(NV=4, OPS="Set Apply"))
CANON = ("canon", ["twice", "unreduced"], {})
MARK = ("mark", ["mark-low", "mark-flat", "gc-norefs", "noref"], {})
CACHES = ("caches", ["keep-on-gc"], {})
CACHES_GROW = ("cachesg", ["keep-on-grow"], dict(MINFREE=20))


def stale(c, ops_):
    """cache c is not reset by a collection, or by a growth"""
    return [("gc-" + c, ["keep-on-gc-" + c], dict(OPS=ops_)), ("grow-" + c, ["keep-on-grow-" + c], dict(OPS=ops_, MINFREE=20))]


STALE_A = stale("a", "Not Apply Low High")
STALE_I = stale("i", "Ite Apply Low High")
STALE_Q = stale("q", "Exist Apply Set Low High")
STALE_X = stale("x", "AppEx Apply Set Low High")
STALE_R = stale("r", "Replace Apply Low High")
LIMITS = ("limits", ["over-limit", "nogrow", "nofreed"], dict(LIMIT=4))


def refuted(tier, seed, *groups, num=250):
    res = []
    for name, muts, env in groups:
        res += kills(name, tier, seed, muts, num=num, **env)
    return res


def nodetable(tier, deeper="ab"):
    """the table of nodes of hudd, all its operations in all orders"""
    return [dict(kind="model", name="NodeTable-" + c, spec="MCNodeTable", cfg="MCNodeTable_%s.cfg" % c, workers=6, mem="6g", timeout=2400)
            for c in scale(tier, "a", deeper)]


def kernelmodel(tier, *ops_):
    """all the programs of a few calls of the machine of Kernel, with all the possible collections between them"""
    return [dict(kind="model", name="Kernel-" + o.replace(" ", "-"), spec="MCKernel", cfg="MCKernel.cfg", workers=4, mem="8g", timeout=1500,
                 env=dict(KERNEL_ENV, K_NV=2, K_NS=2, K_DEPTH=depth, K_OPS=o, K_MUT="  "))
            for depth, o in (ops_ if tier != "quick" else [])]


KERNEL_ENV = {"K_NV": 3, "K_NS": 2, "K_EXTRA": 1, "K_LIMIT": 0, "K_MINFREE": 0, "K_MAXINC": 1, "K_CACHE": 97, "K_MAXREF": 3, "K_GROW": 20,
              "K_DEPTH": 25, "K_KILLS": 5, "K_OPS": "Not Apply Ite Exist AppEx Replace Set Low High"}


def repeat(tier, seed):
    res = many("repeat", "repeat", tier, seed, n=1, cfgs=["mixed", "large"], size=scale(tier, 20, 22), sessions=2)
    if tier != "quick":  # past the greatest value of a stamp
        res += many("wrap", "repeat", "quick", seed + 900, n=1, cfg="mixed", size=31, sessions=1, timeout=1800)
    return res


def eaten(tier, seed, n=2):
    """operands that are given up by the call, while the Go runtime collects all the time"""
    return many("eat", "deep", tier, seed + 800, n=n, cfg="eat", sessions=8, steps=100, hammer=1, spec="TraceDeep", mem="4g")


def plan_C01(tier, seed):
    return refuted(tier, seed, KEYS_BOOL, *STALE_A, *STALE_I) + walks(tier, seed, "Not Apply Ite") + [MODEL_DEEP] + deep(tier, seed) + ([MODEL_BOOLFUN] + both("bool", "bool", ["mixed", "gcstress", "large", "wide"], tier, seed, n=4)
            + [MODEL_BOOLINT] + tables("apply", tier, seed, 1000, sessions=(1, 6)) + tables("ite2", tier, seed, 0, sessions=(2, 20))
            + tables("ite", tier, seed, 25) + tables("id4", tier, seed, 150))


def plan_C02(tier, seed):
    return debugged("canon", "gcstress", tier, seed) + refuted(tier, seed, CANON) + [MODEL_DEEP] + deep(tier, seed, ("deep", "huge")) + kernel(tier, seed, 1) + (both("canon", "canon", ["mixed", "gcstress", "wide"], tier, seed, n=3)
            + tables("equal", tier, seed, 0, sessions=(2, 10)))


def plan_C03(tier, seed):
    return refuted(tier, seed, KEYS_QUANT, KEYS_APPEX, *STALE_Q, *STALE_X) + walks(tier, seed, "Apply Exist AppEx") + deep(tier, seed) + ([MODEL_BOOLFUN] + both("quant", "quant", ["mixed", "gcstress", "large", "wide"], tier, seed, n=4)
            + [MODEL_BOOLINT] + tables("exist", tier, seed, 60) + tables("exist4", tier, seed, 100, sessions=(1, 4))
            + repeat(tier, seed))


def plan_C04(tier, seed):
    return refuted(tier, seed, KEYS_REPL, FRAME_REPL, *STALE_R) + walks(tier, seed, "Apply Replace", NV=4) + deep(tier, seed) + ([MODEL_BOOLFUN] + both("rename", "rename", ["mixed", "gcstress", "large", "wide"], tier, seed, n=4)
            + [MODEL_BOOLINT] + tables("replace", tier, seed, 0, sessions=(2, 20)) + tables("replace4", tier, seed, 50, sessions=(1, 3))
            + repeat(tier, seed))


def plan_C05(tier, seed):
    return debugged("hold", "gcstress", tier, seed) + kernelmodel(tier, (2, "Not Apply"), (5, "Set Not Exist Replace"), (2, "Set AppEx Low High")) + refuted(tier, seed, FRAME_NOT, FRAME_APPLY, FRAME_ITE, FRAME_QUANT, FRAME_APPEX, MARK, CACHES, CACHES_GROW, *STALE_A, *STALE_I, *STALE_Q, *STALE_X, *STALE_R) + deep(tier, seed, ("deep", "gc", "deeper")) + eaten(tier, seed) + kernel(tier, seed, 1) + (both("hold", "hold", ["gcstress", "tiny", "gcstress"], tier, seed, n=3)
            + both("hammer", "hold", ["gcstress", "tiny"], tier, seed + 500, n=2, hammer=50)
            + many("gc", "gc", tier, seed, n=1, profile="mixed", cfg="gcstress", sessions=20, steps=40))


def plan_C07(tier, seed):
    return debugged("limit", "limit", tier, seed) + refuted(tier, seed, LIMITS) + kernel(tier, seed, 1) + (both("limit", "limit", ["limit"], tier, seed, n=2)
            + both("nolimit", "mixed", ["tiny", "gcstress"], tier, seed + 500, n=2)
            + many("recover", "recover", tier, seed, n=2, profile="limit", cfg="recover", sessions=40, steps=40))


def plan_C08(tier, seed):
    return deep(tier, seed, ("gc", "deep")) + kernel(tier, seed, 1) + (many("gc", "gc", tier, seed, n=3, profile="mixed", cfgs=["gc", "gcstress", "tiny"], sessions=30, steps=30)
            + many("loop", "loop", tier, seed, n=1, cfg="loop", sessions=10, size=300, profile="mixed")
            + many("leak", "leak", tier, seed, n=1, cfg="gc", sessions=scale(tier, 2, 6), size=scale(tier, 70, 150)))


def plan_C09(tier, seed):
    return debugged("count", "mixed", tier, seed) + deep(tier, seed, ("deep", "deeper")) + (both("count", "count", ["mixed", "wide", "tiny"], tier, seed, n=3)
            + tables("count", tier, seed, 0, sessions=(2, 10)) + tables("count4", tier, seed, 400))


def plan_C10(tier, seed):
    return debugged("allsat", "tiny", tier, seed) + deep(tier, seed) + (both("allsat", "allsat", ["mixed", "wide", "tiny"], tier, seed, n=3)
            + tables("allsat", tier, seed, 0, sessions=(2, 10)) + tables("allsat4", tier, seed, 80))


def plan_C11(tier, seed):
    return debugged("dump", "mixed", tier, seed) + deep(tier, seed) + both("dump", "dump", ["mixed", "wide", "tiny"], tier, seed, n=3)


def plan_C12(tier, seed):
    return debugged("misuse", "gcstress", tier, seed) + (both("misuse", "misuse", ["mixed", "tiny", "gcstress"], tier, seed, n=3)
            + many("first", "misuse", tier, seed, n=1, sessions=scale(tier, 2, 6)))


def plan_C13(tier, seed):
    return debugged("sets", "gcstress", tier, seed) + refuted(tier, seed, FRAME_SET) + deep(tier, seed, ("deep", "deeper")) + (both("sets", "sets", ["mixed", "wide", "gcstress"], tier, seed, n=3)
            + tables("cubes", tier, seed, 0, sessions=(10, 100)))


def refs(tier):
    """reference counts at the level of single reads and writes; all the variations must be refuted"""
    return [dict(kind="model", name="Refs", spec="Refs", cfg="Refs.cfg", workers=1)] + \
        ([] if tier == "quick" else [dict(kind="model", name="Refs-two-nodes", spec="Refs", cfg="Refs_deep.cfg", workers=1, mem="8g", timeout=2400)])


def plan_C14(tier, seed):
    return refs(tier) + many("stress", "stress", tier, seed, n=3, profile="mixed", cfg="stress", sessions=8, steps=30, size=20000, hammer=100) + \
        many("race", "stress", tier, seed + 700, n=4, tags=("race", "buddy,race"), profile="mixed", cfg="stress", sessions=12, steps=20, size=8000, hammer=100)


def plan_C16(tier, seed):
    return debugged("shannon", "mixed", tier, seed) + deep(tier, seed, ("deep", "huge")) + (both("shannon", "shannon", ["mixed", "wide", "tiny"], tier, seed, n=3)
            + tables("shannon", tier, seed, 0, sessions=(2, 10)) + tables("shannon4", tier, seed, 50))


def plan_C17(tier, seed):
    return debugged("callback", "gcstress", tier, seed) + (both("callback", "callback", ["gcstress", "tiny", "mixed"], tier, seed, n=2, sessions=30, steps=150)
            + both("callback-hammer", "callback", ["gcstress"], tier, seed + 500, n=1, sessions=30, steps=150, hammer=50))


def plan_C18(tier, seed):
    return debugged("custom", "gcstress", tier, seed) + nodetable(tier) + deep(tier, seed, ("deep", "gc")) + kernel(tier, seed, 2) + both("custom", "custom", ["gcstress", "gcstress", "tiny"], tier, seed, n=3, sessions=100, steps=300)


def plan_C19(tier, seed):
    return debugged("mixed", "tiny", tier, seed) + (nodetable(tier, "abc") + deep(tier, seed, ("gc",)) + kernel(tier, seed, 2) + both("growth", "mixed", ["tiny", "gcstress", "mixed"], tier, seed, n=3)
            + many("long", "loop", tier, seed, n=1, cfg="loop", sessions=4, size=scale(tier, 3000, 20000), profile="mixed"))


ALLBUILDS = ("", "buddy", "debug", "buddy,debug")


def cmpjobs(tier, seed):
    """the same programs with different options, on all the builds"""
    res = []
    for k in range(scale(tier, 5, 40)):
        sd = seed * 1000 + k
        runs = []
        for v in range(scale(tier, 8, 12)):
            # the first run has the default options and no tag
            tags = ALLBUILDS[v % 4] if v else ""
            runs.append((tags, ["-scen", "cmp", "-seed", sd, "-size", v, "-sessions", 8, "-steps", 120]))
        res.append(dict(kind="cmp", name="cmp-%d" % sd, spec="TraceCmp", runs=runs, mem="4g"))
    return res


def plan_C06(tier, seed):
    return cmpjobs(tier, seed)


def plan_C15(tier, seed):
    res = []
    for t in (HUDD, BUDDY):
        for k in range(scale(tier, 4, 32)):
            sd = seed * 1000 + k
            n, ses, st = (12, 2, 60) if k % 2 == 0 else (5, 4, 80)
            run = lambda mode, tags, *more: (tags, ["-scen", "multi", "-profile", mode, "-seed", sd, "-size", n, "-sessions", ses,
                                                    "-steps", st] + list(more))
            race = t + ",race" if t else "race"
            runs = [run("solo", t), run("inter", t), run("conc", t), run("conc", t, "-hammer", 200), run("conc", race)]
            res.append(dict(kind="cmp", name="multi-%s-%d" % (t or "hudd", sd), spec="TraceCmp", runs=runs, mem="4g"))
    return res


def plan_C20(tier, seed):
    P = dict(spec="TraceParams")
    return (many("replacer", "params", tier, seed, n=1, profile="replacer", **P)
            + many("replacer3", "params", tier, seed, n=1, profile="replacer3", size=scale(tier, 60, 1000), mem="4g", **P)
            + many("replacern", "params", tier, seed, n=1, profile="replacern", size=scale(tier, 15, 60), **P)
            + many("new", "params", tier, seed, n=1, profile="new", size=scale(tier, 200, 500), **P)
            + many("newmax", "params", tier, seed, n=1, tags=(HUDD,) if tier == "quick" else (HUDD, BUDDY), profile="newmax", **P)
            + both("rename", "rename", ["mixed"], tier, seed, n=1))


def plan_C21(tier, seed):
    return (deep(tier, seed, ("share",), n=3, sessions=4) + deep(tier, seed)
            + kernelmodel("thorough", (2, "Not Apply")) + kernelmodel(tier, (3, "Set Ite Replace")))


def kernel(tier, seed, n=2):
    return many("kernel", "kernel", tier, seed, n=n, sessions=40, steps=200, spec="TraceKernel")
