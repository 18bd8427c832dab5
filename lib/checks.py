"""The checks, one function per property."""
import json
from vlib import ToolError, parallel

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def hists(hs, prefix, cfg=None, limit=None, rng=None):
    if limit and len(hs) > limit:
        hs = rng.sample(hs, limit)
    return [dict(name="%s%d" % (prefix, i), ops=h, cfg=cfg or {}) for i, h in enumerate(hs)]


def par_queue_scens(ctx, n):
    out = []
    for i in range(n):
        ops = []
        for _ in range(ctx.rng.randint(8, 14)):
            if ctx.rng.random() < 0.6:
                k = ctx.rng.randint(1, 5)
                ops.append(dict(op="add", id="r%d" % k, t="edkeygen" if k % 3 == 0 else "edsign"))
            else:
                ops.append(dict(op="pop", id="", t=""))
        out.append(dict(name="qp%d" % i, ops=ops, cfg=dict(procs=ctx.rng.choice([2, 3, 4]))))
    return out


SCHED_COVER = ("AnySubmit", "DoDispatch", "AnyEnd")


@check("C01")
def c01(ctx):
    ctx.assumptions = ["requests are observed at the queue's exported API and through the first selection message of the work"]

    def mc():
        ctx.model_check("SchedMC", "SchedMC.cfg", must_cover=SCHED_COVER, workers=4)

    def gen():
        a = hists(ctx.generate("QueueGen", "QueueGen.cfg"), "q", limit=ctx.pick(4000, None), rng=ctx.rng)
        b = hists(ctx.generate("QueueGen", "QueueGenDeep.cfg", simulate=ctx.pick(400, 4000), depth=24), "qd")
        c = hists(ctx.generate("SchedMC", "SchedGen.cfg", simulate=ctx.pick(60, 600), depth=60), "s")
        return a + b, c

    _, (q, s), _ = parallel(mc, gen, ctx.build)
    ctx.validate("QueueTrace", ctx.harness("queue", q))
    ctx.validate("QueueParTrace", ctx.harness("queuepar", par_queue_scens(ctx, ctx.pick(300, 3000))), timeout=1200)
    ctx.validate("SchedTrace", ctx.harness("sched", s, procs=8, timeout=800), consts=None)
    par_sched(ctx)


def par_sched(ctx):
    sc = []
    for i in range(ctx.pick(60, 600)):
        sc.append(dict(name="sp%d" % i, ops=[], cfg=dict(requests=ctx.rng.randint(3, 9), dup=ctx.rng.choice([0, 0, 1]),
                                                        perturb=ctx.rng.choice([0, 5, 20]),
                                                        hold_us=ctx.rng.choice([200, 1500, 4000]))))
    ctx.validate("SchedTrace", ctx.harness("schedpar", sc, procs=8, timeout=800))


@check("C02")
def c02(ctx):
    ctx.assumptions = ["a work counts as running from its first selection message until its outcome is reported"]

    def mc():
        ctx.model_check("SchedMC", "SchedMC.cfg", must_cover=SCHED_COVER, workers=4)

    def gen():
        return hists(ctx.generate("SchedMC", "SchedGen.cfg", simulate=ctx.pick(80, 800), depth=60), "s")

    _, s, _ = parallel(mc, gen, ctx.build)
    ctx.validate("SchedTrace", ctx.harness("sched", s, procs=8, timeout=800))
    par_sched(ctx)


def simple(ctx, mc, mc_cover, gens, runs):
    """Model check, generate, build in parallel; then replay and validate.  gens: name -> fn() returning scenarios;
    runs: list of (mode, scenario name, trace spec, kwargs)."""
    def mcf():
        for spec, cfg in mc:
            ctx.model_check(spec, cfg, must_cover=mc_cover.get(cfg, ()))

    def genf():
        return {k: f() for k, f in gens.items()}
    _, scens, _ = parallel(mcf, genf, ctx.build)
    for mode, name, spec, kw in runs:
        ctx.validate(spec, ctx.harness(mode, scens[name], name=name, **kw.get("harness", {})), **kw.get("validate", {}))


def msgcache_par(ctx, n):
    out = []
    for i in range(n):
        g = ctx.rng.choice([2, 3])
        ops = []
        for j in range(g * ctx.rng.randint(3, 5)):
            p = j % g
            if p == 0 or ctx.rng.random() < 0.25:
                ops.append(dict(op="pop", w=ctx.rng.choice(["w1", "w2"])))
            else:
                ops.append(dict(op="add", **{"from": "s%d" % p}, w=ctx.rng.choice(["w1", "w2"]), t="upd"))
        out.append(dict(name="mp%d" % i, ops=ops, cfg=dict(procs=g)))
    return out


@check("C04")
def c04(ctx):
    simple(ctx, [("MsgCacheMC", "MsgCacheMC.cfg")], {"MsgCacheMC.cfg": ("AddAny", "PopAny")},
           dict(mc=lambda: hists(ctx.generate("MsgCacheMC", "MsgCacheGen.cfg"), "m", limit=ctx.pick(1500, None), rng=ctx.rng)
                + hists(ctx.generate("MsgCacheMC", "MsgCacheGenDeep.cfg", simulate=ctx.pick(300, 3000), depth=16), "md"),
                par=lambda: msgcache_par(ctx, ctx.pick(300, 3000)),
                e=lambda: [net_early(ctx, "e%d" % i) for i in range(ctx.pick(40, 400))]),
           [("msgcache", "mc", "MsgCacheTrace", {}), ("msgcachepar", "par", "MsgCacheParTrace", {}),
            ("net", "e", "WorkNetTrace", dict(harness=dict(procs=4, timeout=700)))])


RESEND_COVER = ("Honest", "Forge", "Own", "Receive", "Ask")


@check("C05")
def c05(ctx):
    cfg = lambda hs, p: hists(hs, p, cfg=dict(size=2))
    simple(ctx, [("WorkCacheMC", "WorkCacheMC.cfg"), ("ResendMC", "ResendMC.cfg")], {"WorkCacheMC.cfg": ("AddAny",), "ResendMC.cfg": RESEND_COVER},
           dict(wc=lambda: hists(ctx.generate("WorkCacheMC", "WorkCacheGen.cfg"), "k", cfg=dict(size=2),
                                 limit=ctx.pick(4000, None), rng=ctx.rng)
                + cfg(ctx.generate("WorkCacheMC", "WorkCacheGenDeep.cfg", simulate=ctx.pick(150, 1500), depth=62), "kd"),
                r=lambda: hists(ctx.generate("ResendGen", "ResendGen_FALSE.cfg", simulate=ctx.pick(600, 6000), depth=18), "r")),
           [("workcache", "wc", "WorkCacheTrace", {}), ("resend", "r", "ResendTrace", {})])


@check("C19")
def c19(ctx):
    hi = ctx.pick(2000, 20000)
    simple(ctx, [("QuorumMC", "QuorumMC.cfg")], {"QuorumMC.cfg": ("Next",)},
           dict(q=lambda: [dict(name="q%d" % i, ops=[], cfg=dict(lo=i, hi=i + 100)) for i in range(1, hi, 100)]),
           [("quorum", "q", "QuorumTrace", {})])


@check("C21")
def c21(ctx):
    simple(ctx, [("BlameMC", "BlameMC.cfg")], {"BlameMC.cfg": ("SendAny", "BadAny")},
           dict(b=lambda: hists(ctx.generate("BlameMC", "BlameGen.cfg", simulate=ctx.pick(1000, 10000), depth=20), "b"),
                bp=lambda: hists(ctx.generate("BlameMC", "BlameGen.cfg", simulate=ctx.pick(300, 3000), depth=20), "bp",
                                 cfg=dict(procs=4))),
           [("blame", "b", "BlameTrace", {}), ("blamepar", "bp", "BlameTrace", {})])


@check("C23")
def c23(ctx):
    simple(ctx, [("EncStoreMC", "EncStoreMC.cfg")], {"EncStoreMC.cfg": ("DoPut", "DoRaw", "DoTamper", "DoOpen")},
           dict(s=lambda: hists(ctx.generate("EncStoreMC", "EncStoreGen.cfg", simulate=ctx.pick(400, 4000), depth=18), "e"),
                a=lambda: [dict(name="aes%d" % i, ops=[], cfg={}) for i in range(ctx.pick(4, 40))]),
           [("encstore", "s", "EncStoreTrace", {}), ("aes", "a", "EncStoreTrace", {})])


@check("C16")
def c16(ctx):
    ctx.assumptions = ["only the SQLite back end can be run here; the MySQL dialect of the same queries is not exercised"]
    idle = ctx.pick([5500], [5500, 31000])

    def gen():
        hs = ctx.generate("DbStoreMC", "DbStoreGen.cfg", simulate=ctx.pick(400, 6000), depth=24)
        return hists(hs, "db")

    scens = {}

    def g():
        scens["d"] = gen()
        scens["i"] = [dict(name="idle%d" % i, ops=scens["d"][i]["ops"], cfg=dict(idle_ms=ms)) for i, ms in enumerate(idle)]
        scens["p"] = [dict(name="par%d" % i, ops=[], cfg=dict(procs=ctx.rng.choice([2, 4, 6]))) for i in range(ctx.pick(16, 200))]
    parallel(lambda: ctx.model_check("DbStoreMC", "DbStoreMC.cfg",
                                     must_cover=("SavePreAny", "SaveKeyAny", "SavePresignAny", "MarkAny", "SavePeersAny")),
             g, ctx.build)
    tr = parallel(lambda: ctx.harness("db", scens["d"], name="db"), lambda: ctx.harness("db", scens["i"], name="idle"),
                  lambda: ctx.harness("dbpar", scens["p"], name="par"))
    ctx.validate("DbStoreTrace", tr[0])
    ctx.validate("DbStoreTrace", tr[1] + tr[2])


@check("C06")
def c06(ctx):
    ctx.assumptions = ["SQLite stands for the node's database; a crash is modelled by abandoning every call under way at a database call and starting a new manager on the same data"]
    simple(ctx, [("PresignMC", ctx.pick("PresignMCSmall.cfg", "PresignMC.cfg"))],
           {c: ("Store", "Offer", "Take", "Told", "Mark", "MarkFails", "Hand", "Crash") for c in ("PresignMCSmall.cfg", "PresignMC.cfg")},
           dict(p=lambda: hists(ctx.generate("PresignGen", "PresignGen.cfg", simulate=ctx.pick(1500, 12000), depth=26), "p"),
                pp=lambda: [dict(name="pp%d" % i, ops=[], cfg=dict(takers=ctx.rng.randint(2, 6), anns=ctx.rng.randint(0, 4), works=ctx.rng.randint(1, 4),
                                                                  perturb=ctx.rng.choice([0, 10, 30]))) for i in range(ctx.pick(300, 4000))]),
           [("presignpar", "pp", "PresignTrace", dict(harness=dict(procs=8, timeout=700))),
            ("presign", "p", "PresignTrace", dict(harness=dict(procs=8, timeout=700)))])


SEL_COVER = {"SelectionMC.cfg": ("Resp", "LeaderLimit", "Ann", "Lose", "MemberLimit")}


def sel_scens(ctx, cfg, prefix, num, **kw):
    """Histories of SelGen that carry their own parameters."""
    out = []
    for i, h in enumerate(ctx.generate("SelGen", cfg, simulate=num, depth=9)):
        out.append(dict(name="%s%d" % (prefix, i), ops=h["ops"], cfg=dict(h["cfg"], limit_ms=ctx.rng.choice([300, 400]), **kw)))
    return out


def selnet_scens(ctx, num, lossy):
    out = []
    for i in range(num):
        kind = ctx.rng.choice(["keygen", "edsign", "ecsign", "ecsign"])
        n = ctx.rng.choice([3, 4, 4, 5])
        t = (n + 1) * 2 // 3 - 1
        alln = list("abcde")[:n]
        off = 0 if ctx.rng.random() < 0.4 else ctx.rng.randint(1, max(1, n - t - (0 if ctx.rng.random() < 0.2 else 1)))
        online = ctx.rng.sample(alln, n - min(off, n - 1))
        if "a" not in online and ctx.rng.random() < 0.8:
            online[0] = "a"
        owned = []
        if kind == "ecsign" and ctx.rng.random() < 0.8:
            for k in range(1, ctx.rng.randint(2, 5)):
                o = sorted(set(["a"] + ctx.rng.sample(alln, ctx.rng.choice([t + 1, t + 1, min(n, t + 2)]))))
                if len(o) < t + 1:
                    o = sorted(set(o) | set(alln[:t + 1]))
                owned.append(["o%d-0" % k, o])
        c = dict(kind=kind, n=n, t=t, batch=ctx.rng.choice([1, 1, 2]) if kind != "keygen" else 1, leader="a", online=sorted(online),
                 owned=owned, used=[owned[0][0]] if owned and ctx.rng.random() < 0.2 else [], scale=40,
                 drop=ctx.rng.choice([10, 30]) if lossy else 0, dup=ctx.rng.choice([0, 20]),
                 delay_ms=ctx.rng.choice([0, 5, 30]), skew_ms=ctx.rng.choice([0, 2, 10]))
        out.append(dict(name="sn%d" % i, ops=[], cfg=c))
    return out


@check("C07")
def c07(ctx):
    ctx.assumptions = ["answers that reach the leader within the last part of its time limit may or may not count"]
    simple(ctx, [("SelectionMC", "SelectionMC.cfg")], SEL_COVER,
           dict(l=lambda: sel_scens(ctx, "SelGenLeader.cfg", "sl", ctx.pick(500, 5000)) + sel_scens(ctx, "SelGenLeader.cfg", "slp", ctx.pick(150, 1500), par=True),
                n=lambda: selnet_scens(ctx, ctx.pick(200, 2000), False) + selnet_scens(ctx, ctx.pick(60, 600), True),
                w=lambda: [dict(name="w%d" % n, ops=[], cfg=dict(n=n, works=ctx.pick(60, 600))) for n in range(1, 16)]),
           [("leader", "w", "LeaderTrace", {}),
            ("sel", "l", "SelectionTrace", dict(harness=dict(procs=4, timeout=700))),
            ("selnet", "n", "SelectionTrace", dict(harness=dict(procs=4, timeout=700)))])


@check("C08")
def c08(ctx):
    ctx.assumptions = ["announcements that reach the member within the last part of its time limit may or may not count"]
    simple(ctx, [("SelectionMC", "SelectionMC.cfg")], SEL_COVER,
           dict(m=lambda: sel_scens(ctx, "SelGenMember.cfg", "sm", ctx.pick(1500, 12000)) + sel_scens(ctx, "SelGenMember.cfg", "smp", ctx.pick(300, 3000), par=True)),
           [("sel", "m", "SelectionTrace", dict(harness=dict(procs=4, timeout=700)))])


@check("C09")
def c09(ctx):
    ctx.assumptions = ["time limits are scaled down; what happens within a fraction of a limit may go either way"]
    simple(ctx, [("SelectionMC", "SelectionMC.cfg")], SEL_COVER,
           dict(s=lambda: sel_scens(ctx, "SelGenLeader.cfg", "sl", ctx.pick(400, 3000), par=True) + sel_scens(ctx, "SelGenMember.cfg", "sm", ctx.pick(400, 3000), par=True),
                n=lambda: selnet_scens(ctx, ctx.pick(200, 2000), True) + selnet_scens(ctx, ctx.pick(200, 2000), False)),
           [("sel", "s", "SelectionTrace", dict(harness=dict(procs=4, timeout=700))),
            ("selnet", "n", "SelectionTrace", dict(harness=dict(procs=4, timeout=700)))])


KINDS = ["edkeygen", "edsign", "ecsign", "presign"]


def pick_kind(ctx, extra=()):
    """The eddsa protocols are cheap to run; the ecdsa ones cost seconds of processor time each."""
    return ctx.rng.choice(["edkeygen", "edsign"] * 4 + ["ecsign"] * 2 + ["presign"] * 2 + list(extra))


def sends(kind, n):
    """How many messages a party sends in a protocol."""
    return {"edkeygen": n + 1, "edsign": 3, "eckeygen": n + 2, "ecsign": 2 * n + 4, "presigning": 2 * n + 3, "presign": 1}[kind]


def exec_scen(ctx, name, kind=None, n=None, **kw):
    kind = kind or pick_kind(ctx)
    n = n or ctx.rng.choice([2, 3, 3, 4] if kind[:2] == "ed" else [2, 3, 3] + ([4] if ctx.thorough else []))
    t = 1 if kind == "eckeygen" and n == 3 else n - 1
    if kind in ("edkeygen", "eckeygen"):
        t = max(1, (n + 1) * 2 // 3 - 1)
    c = dict(kind=kind, n=n, t=t, batch=1 if "keygen" in kind else ctx.rng.choice([1, 2, 3]), must=True,
             delay_us=ctx.rng.choice([0, 500, 5000]), dup=ctx.rng.choice([0, 0, 20]), skew_us=ctx.rng.choice([0, 2000, 20000]),
             block_us=ctx.rng.choice([0, 0, 3000]), sends=sends(kind, n))
    c.update(kw)
    return dict(name=name, ops=[], cfg=c)


def exec_nets(ctx, prefix, num, **kw):
    return [exec_scen(ctx, "%s%d" % (prefix, i), **kw) for i in range(num)]


LAST = {"edkeygen": "KGRound2Message2", "edsign": "SignRound3Message", "ecsign": "SignRound7Message", "presign": "SignRound7Message"}


BEFORE = {"edkeygen": "KGRound2Message1", "edsign": "SignRound2Message", "ecsign": "SignRound6Message", "presigning": "SignRound5Message"}


def exec_bad(ctx, prefix, num):
    """Executions in which a message is rejected or a job cannot start."""
    out = []
    for i in range(num):
        k = pick_kind(ctx)
        n = ctx.rng.choice([2, 3])
        b = 1 if k == "edkeygen" else ctx.rng.choice([1, 2, 3])
        who = ctx.rng.choice("abcd"[:n])
        if k in ("edsign", "ecsign") and ctx.rng.random() < 0.5:
            out.append(exec_scen(ctx, "%s%d" % (prefix, i), kind=k, n=n, batch=b, must=False, nostart=[who], job_ms=3000, block_us=0, delay_us=0, skew_us=0))
        else:
            out.append(exec_scen(ctx, "%s%d" % (prefix, i), kind=k, n=n, batch=b, must=False, block_us=0, dup=0,
                                 corrupt="%s:%s:%d" % (who, LAST[k], ctx.rng.randint(0, b - 1))))
    return out


EXEC_MC = [("ExecMC", "ExecMC.cfg")]
EXEC_COVER = {"ExecMC.cfg": ("ProduceAny", "DispatchAny", "ResultAny", "FailAny", "ReportAny"), "JobMC.cfg": ("Hand", "Report", "Expire", "Stop")}


def out_scens(ctx, deep, shallow=None):
    a = hists(ctx.generate("ExecMC", "ExecGenOut.cfg"), "o", cfg=dict(batch=2), limit=shallow, rng=ctx.rng)
    b = hists(ctx.generate("ExecMC", "ExecGenOutDeep.cfg", simulate=deep, depth=12), "od", cfg=dict(batch=3))
    for s in a + b:
        s["cfg"] = dict(s["cfg"], slow_us=ctx.rng.choice([0, 0, 300]))
    c = []
    for i in range(deep):
        batch = ctx.rng.choice([2, 3, 4])
        ops = []
        for key in ctx.rng.sample(["r1", "r2:b", "r2:c", "r3", "r4", "r5:b"], ctx.rng.randint(2, 6)):
            full = batch if ctx.rng.random() < 0.8 else batch - 1
            ops += [dict(op="out", j=j, key=key) for j in range(full)]
        ctx.rng.shuffle(ops)
        if ctx.rng.random() < 0.5:
            ops.append(dict(op="end", how=ctx.rng.choice(["stop", "timeout", "ok", "fail"])))
        c.append(dict(name="op%d" % i, ops=ops, cfg=dict(batch=batch, par=True, slow_us=ctx.rng.choice([0, 200]))))
    return a + b + c


@check("C10")
def c10(ctx):
    simple(ctx, EXEC_MC, EXEC_COVER,
           dict(o=lambda: out_scens(ctx, ctx.pick(600, 6000), ctx.pick(2500, None)),
                n=lambda: exec_nets(ctx, "x", ctx.pick(60, 600))),
           [("execout", "o", "ExecOutTrace", dict(harness=dict(procs=8))),
            ("execnet", "n", "ExecNetTrace", dict(harness=dict(procs=4, timeout=700)))])


@check("C11")
def c11(ctx):
    simple(ctx, EXEC_MC, EXEC_COVER,
           dict(r=lambda: hists(ctx.generate("ExecMC", "ExecGenRes.cfg"), "r", cfg=dict(batch=3))
                + hists(ctx.generate("ExecMC", "ExecGenRes.cfg"), "rp", cfg=dict(batch=3, par=True)),
                b=lambda: exec_bad(ctx, "b", ctx.pick(40, 400)) + exec_nets(ctx, "x", ctx.pick(20, 200)),
                s=lambda: [net_fault(ctx, "s%d" % i, 4) for i in range(ctx.pick(16, 160))]),
           [("execres", "r", "ExecResTrace", dict(harness=dict(procs=8))),
            ("execnet", "b", "ExecNetTrace", dict(harness=dict(procs=4, timeout=700))),
            ("net", "s", "WorkNetTrace", dict(harness=dict(procs=4, timeout=700)))])


def job_scens(ctx, num):
    out = []
    for i in range(num):
        k = pick_kind(ctx, ["presigning"])
        n = ctx.rng.choice([2, 3, 3, 4] if k[:2] == "ed" else [2, 3, 3] + ([4] if ctx.thorough else []))
        c = dict(kind=k, n=n, t=(max(1, (n + 1) * 2 // 3 - 1) if k == "edkeygen" else n - 1), sends=sends(k, n), delay_us=ctx.rng.choice([0, 300, 3000]))
        x = i % 5
        if x == 0:
            c.update(silent=[ctx.rng.choice("abcd"[:n])], job_ms=ctx.rng.choice([200, 400]))
        elif x == 1:
            # the result is handed over so slowly that the time limit passes while the last message still waits
            slow = 1 if k[:2] == "ed" else 2
            c.update(job_ms=1000 * slow, blockres_us=1100000 * slow, must=False)
            if k in BEFORE:
                c.update(block_us=100000, block_at=BEFORE[k])
        elif x == 2:
            c.update(blockres_us=ctx.rng.choice([1000, 30000]), block_us=ctx.rng.choice([0, 3000]))
        elif x == 3:
            c.update(block_us=ctx.rng.choice([1000, 10000, 40000]), block_at=LAST.get(k, "SignRound6Message"))
        else:
            c.update(block_us=ctx.rng.choice([0, 1000, 10000]))
        out.append(dict(name="j%d" % i, ops=[], cfg=c))
    return out


@check("C12")
def c12(ctx):
    simple(ctx, [("JobMC", "JobMC.cfg")], EXEC_COVER,
           dict(j=lambda: job_scens(ctx, ctx.pick(100, 1200)), n=lambda: exec_nets(ctx, "x", ctx.pick(30, 400))),
           [("job", "j", "JobTrace", dict(harness=dict(procs=4, timeout=700))),
            ("execnet", "n", "ExecNetTrace", dict(harness=dict(procs=4, timeout=700)))])


def askout_scens(ctx, num):
    out = []
    steps = {"edkeygen": ["KGRound1Message", "KGRound2Message1", "KGRound2Message2"],
             "eckeygen": ["KGRound1Message", "KGRound2Message1", "KGRound2Message2", "KGRound3Message"],
             "edsign": ["SignRound1Message", "SignRound2Message", "SignRound3Message"],
             "ecsign": ["SignRound1Message1", "SignRound1Message2", "SignRound2Message"] + ["SignRound%dMessage" % i for i in range(3, 8)]}
    for i in range(num):
        k = ctx.rng.choice(list(steps))
        n = ctx.rng.choice([2, 3, 4])
        c = [[p, t] for p in "bcd"[:n - 1] for t in steps[k]]
        ops = []
        for _ in range(ctx.rng.randint(1, 3)):
            ops.append(dict(op="miss", miss=ctx.rng.sample(c, ctx.rng.randint(1, len(c)))))
        if ctx.rng.random() < 0.3:
            ops.insert(ctx.rng.randint(0, len(ops)), dict(op="stop"))
        out.append(dict(name="ao%d" % i, ops=ops, cfg=dict(kind=k, n=n)))
    return out


def monitor_scens(ctx, num):
    out = []
    for i, h in enumerate(ctx.generate("MonitorGen", "MonitorGen.cfg", simulate=num, depth=11)):
        out.append(dict(name="mo%d" % i, ops=h["ops"], cfg=dict(h["cfg"], period_ms=60, slow=ctx.rng.random() < 0.2)))
    return out


def lossy_execs(ctx, num):
    out = []
    kinds = ["edkeygen", "edsign", "edkeygen", "edsign", "presign", "ecsign", "eckeygen"]
    for i in range(num):
        k = kinds[i % len(kinds)]
        out.append(exec_scen(ctx, "l%d" % i, kind=k, n=3 if k == "eckeygen" else None, monitor_ms=120, block_us=0,
                             **(dict(lossall=True) if ctx.rng.random() < 0.5 else dict(drop=ctx.rng.choice([20, 50])))))
    return out


@check("C13")
def c13(ctx):
    simple(ctx, [("RecoveryMC", "RecoveryMC.cfg")], {"RecoveryMC.cfg": ("Step", "Ask")},
           dict(m=lambda: monitor_scens(ctx, ctx.pick(250, 3000)), a=lambda: askout_scens(ctx, ctx.pick(300, 3000)),
                l=lambda: lossy_execs(ctx, ctx.pick(35, 350)), n=lambda: [net_lossy(ctx, "n%d" % i) for i in range(ctx.pick(24, 240))]),
           [("monitor", "m", "MonitorTrace", dict(harness=dict(procs=4, timeout=700))),
            ("askout", "a", "AskOutTrace", {}),
            ("execnet", "l", "ExecNetTrace", dict(harness=dict(procs=4, timeout=800))),
            ("net", "n", "WorkNetTrace", dict(harness=dict(procs=4, timeout=800)))])


# ---- networks of real engines


def need(n, kind):
    return n if "keygen" in kind else (n + 1) * 2 // 3


def net_works(ctx, n, kinds, late=0, leader=None):
    """Works that all nodes get, within `late` ms of each other."""
    out = []
    for k in kinds:
        out.append(dict(kind=k, batch=1 if "keygen" in k else ctx.rng.choice([1, 1, 2, 3] if k == "edsign" else [1, 1, 2]),
                        leader=leader or ctx.rng.choice("abcde"[:n]), msg=ctx.rng.choice(["", "", "zero", "same", "high", "len", "last0"]),
                        starts={x: ctx.rng.choice([0, 0, ctx.rng.randint(0, late) if late else 0]) for x in "abcde"[:n]}))
    return out


def some_presigns(ctx, n, work):
    """Presigns owned by the leader and others, enough for the work."""
    alln = "abcde"[:n]
    own = sorted(set([work["leader"]] + ctx.rng.sample(alln, need(n, "ecsign"))))[:]
    while len(own) > need(n, "ecsign"):
        own.remove(ctx.rng.choice([x for x in own if x != work["leader"]]))
    return [dict(owners=own)] * (work["batch"] if ctx.rng.random() < 0.8 else max(1, work["batch"] - 1))


def net_good(ctx, name, kinds=None, **kw):
    """Nothing goes wrong: everybody takes part or is told that it is not needed."""
    kinds = kinds or ctx.rng.choice([["edkeygen"], ["edsign"], ["edsign"], ["edsign", "edsign"], ["edsign", "edkeygen", "edsign"], ["edsign"] * 4])
    ec = any(k.startswith("ec") for k in kinds)
    n = ctx.rng.choice([2, 3, 3] if ec else [2, 3, 4, 4, 5])
    works = net_works(ctx, n, kinds, late=ctx.rng.choice([0, 0, 100, 300]))
    # With more works than slots the nodes may run different works and wait for each other until their time limits.
    few = len(kinds) <= 2
    c = dict(n=n, works=works, must=list(range(len(kinds))) if few else [], leader_ms=4000 if few else 600, member_ms=12000 if few else 1800, dup=ctx.rng.choice([0, 0, 20]),
             delay_ms=ctx.rng.choice([0, 1, 10]), job_ms=30000 if ec else 12000)
    if kinds == ["ecsign"] and ctx.rng.random() < 0.5:
        c["presigns"] = some_presigns(ctx, n, works[0])
    if ctx.rng.random() < 0.3:
        # somebody learns of the selection only after messages of the others have arrived
        c["hold"] = [dict(typ="PRE_EXEC_OUTPUT", to=ctx.rng.choice("abcde"[:n]), ms=ctx.rng.choice([50, 200]))]
    c.update(kw)
    return dict(name=name, ops=[], cfg=c)


def net_fault(ctx, name, i):
    """Something goes wrong somewhere: every accepted request still has one outcome."""
    kinds = ctx.rng.choice([["edkeygen"], ["edsign"], ["edsign"], ["edsign", "edsign"], ["edkeygen", "edsign"]] + ([["ecsign"]] if i % 6 == 0 else []))
    n = ctx.rng.choice([2, 3, 4] if kinds[0] != "ecsign" else [2, 3])
    alln = "abcde"[:n]
    works = net_works(ctx, n, kinds, late=ctx.rng.choice([0, 100]))
    c = dict(n=n, works=works, leader_ms=400, member_ms=1000, job_ms=30000, delay_ms=ctx.rng.choice([0, 5]), dup=ctx.rng.choice([0, 20]))
    f = ["missing", "noleader", "mute", "corrupt", "store", "slow", "lossy", "latelearn"][i % 8]
    w = works[0]
    if f == "missing":
        for x in ctx.rng.sample(alln, ctx.rng.randint(1, n - 1)):
            w["starts"].pop(x)
    elif f == "noleader":
        w["starts"].pop(w["leader"])
    elif f == "mute":
        c["mute"] = [ctx.rng.choice(alln)]
    elif f == "corrupt":
        k = w["kind"]
        c["corrupt"] = "%s:%s:%d" % (ctx.rng.choice(alln), LAST[k] if ctx.rng.random() < 0.6 or k == "ecsign" else
                                     ("KGRound2Message1" if k == "edkeygen" else "SignRound2Message"), ctx.rng.randint(0, 2))
        c["job_ms"] = 3000 if k != "ecsign" else 6000
    elif f == "store":
        k = ctx.rng.choice(["failkey", "failload"])
        c[k] = ctx.rng.sample(alln, ctx.rng.randint(1, n))
        if k == "failkey" and kinds[0] == "edsign":
            w["kind"], w["batch"] = "edkeygen", 1
        if all(x["kind"] != "ecsign" for x in works):
            c.update(must=list(range(len(works))), leader_ms=4000, member_ms=12000)
    elif f == "slow":
        # protocol messages to one node arrive after the time limit of the work
        c["hold"] = [dict(typ="UPDATE_MESSAGES", to=ctx.rng.choice(alln), ms=1500)]
        c["job_ms"] = 1000
    elif f == "lossy":
        c.update(dropsel=ctx.rng.choice([20, 40]), drop=ctx.rng.choice([0, 20]), monitor_ms=120, job_ms=4000)
    else:
        # the announcement reaches a member at about its time limit
        c["hold"] = [dict(typ="PRE_EXEC_OUTPUT", to=ctx.rng.choice(alln), ms=ctx.rng.choice([800, 950, 1100]))]
        c["job_ms"] = 3000
        c["linger"] = True
    return dict(name=name, ops=[], cfg=c)


def net_lossy(ctx, name):
    """The first transmission of every protocol message, or of every such message and every request to re-send, is lost."""
    k = ctx.rng.choice(["edkeygen", "edsign", "edsign"])
    n = ctx.rng.choice([2, 3, 4])
    s = net_good(ctx, name, kinds=[k], n=n, works=net_works(ctx, n, [k]), monitor_ms=ctx.rng.choice([100, 150]), job_ms=25000, hold=[],
                 **{ctx.rng.choice(["lossall", "lossany"]): True})
    s["cfg"]["works"][0]["msg"] = ""
    return s


def net_early(ctx, name):
    """Messages arrive while their work is not executing yet: every work succeeds all the same, without re-sends."""
    kinds = ctx.rng.choice([["edkeygen"], ["edsign"], ["edsign", "edsign"], ["edkeygen", "edsign"]])
    n = ctx.rng.choice([2, 3, 4, 5])
    alln = "abcde"[:n]
    s = net_good(ctx, name, kinds=kinds, n=n, works=net_works(ctx, n, kinds, late=200), job_ms=8000,
                 hold=[dict(typ="PRE_EXEC_OUTPUT", to=x, ms=ctx.rng.choice([30, 100, 250])) for x in ctx.rng.sample(alln, ctx.rng.randint(1, n - 1))])
    for w in s["cfg"]["works"]:
        w["msg"] = ""
    return s


WORKLIFE = [("WorkLifeMC", "WorkLife_%s_%s.cfg" % (k, f)) for k in ("sign", "keygen") for f in ("TRUE", "FALSE")]
WORKLIFE_COVER = {"WorkLife_%s_TRUE.cfg" % k: ("Submit", "Announce", "Learn", "Arrive", "Succeed", "ExecFails") for k in ("sign", "keygen")}


@check("C03")
def c03(ctx):
    simple(ctx, WORKLIFE, WORKLIFE_COVER,
           dict(n=lambda: [net_fault(ctx, "f%d" % i, i) for i in range(ctx.pick(72, 800))]
                + [net_good(ctx, "g%d" % i) for i in range(ctx.pick(20, 200))]
                + [net_good(ctx, "e%d" % i, kinds=[k]) for i, k in enumerate(["ecsign", "ecsign", "eckeygen"] * ctx.pick(1, 12))]),
           [("net", "n", "WorkNetTrace", dict(harness=dict(procs=4, timeout=800)))])


@check("C18")
def c18(ctx):
    simple(ctx, WORKLIFE[:1], WORKLIFE_COVER,
           dict(n=lambda: [net_good(ctx, "d%d" % i, kinds=ctx.rng.choice([["edsign"], ["edsign", "edsign"], ["edkeygen"]])) for i in range(ctx.pick(40, 500))]
                + [net_good(ctx, "e%d" % i, kinds=[k]) for i, k in enumerate((["ecsign"] * 11 + ["eckeygen"]) * ctx.pick(1, 12))]
                + [net_fault(ctx, "f%d" % i, i) for i in range(3, ctx.pick(120, 800), 8)]),
           [("net", "n", "WorkNetTrace", dict(harness=dict(procs=4, timeout=800)))])


@check("C24")
def c24(ctx):
    ctx.assumptions = ["signatures of the signature scheme cannot be forged"]
    simple(ctx, [("ResendMC", "ResendMC.cfg")], {"ResendMC.cfg": RESEND_COVER},
           dict(r=lambda: hists(ctx.generate("ResendGen", "ResendGen_TRUE.cfg", simulate=ctx.pick(800, 8000), depth=18), "r"),
                a=lambda: [dict(name="a%d" % i, ops=h["ops"], cfg=h["cfg"]) for i, h in enumerate(
                    ctx.generate("AuthSelGen", "AuthSelGen.cfg", simulate=ctx.pick(1500, 12000), depth=9))],
                n=lambda: [net_good(ctx, "n%d" % i, kinds=ctx.rng.choice([["edkeygen"], ["edsign"], ["edsign", "edsign"]] + ([["ecsign"]] if i % 8 == 0 else [])),
                                    hold=[], forge=ctx.rng.choice([50, 100]), relay=ctx.rng.choice([0, 50])) for i in range(ctx.pick(32, 320))]),
           [("resend", "r", "ResendTrace", {}), ("authsel", "a", "AuthSelTrace", {}),
            ("net", "n", "WorkNetTrace", dict(harness=dict(procs=4, timeout=700)))])


def hostile_scens(ctx, hard, k):
    out = []
    for i, h in enumerate(ctx.generate("HostileGen", "HostileGen_%s.cfg" % ("TRUE" if hard else "FALSE"), simulate=k, depth=24)):
        kinds = {o["kind"] for o in h if o["op"] == "work"}
        probe = ["edsign" if hard else ctx.rng.choice(["edsign", "ecsign"] + ([] if "edkeygen" in kinds else ["edkeygen"]))]
        c = dict(n=ctx.rng.choice([3, 3, 4]), probe=probe, must=not hard)
        if hard:
            c.update(job_ms=3500, leader_ms=1000, member_ms=2500)
        else:
            c.update(job_ms=20000, leader_ms=9000, member_ms=20000)
        out.append(dict(name=("hh%d" if hard else "hs%d") % i, ops=h, cfg=c))
    return out


@check("C14")
def c14(ctx):
    ctx.assumptions = ["panics in the dependencies' own goroutines count when the node's code lets the message through"]
    simple(ctx, [("HostileMC", "HostileMC.cfg")], {"HostileMC.cfg": ("Arrive", "Handle", "Start", "Select", "Finish", "Fail")},
           dict(h=lambda: hostile_scens(ctx, True, ctx.pick(90, 1400)) + hostile_scens(ctx, False, ctx.pick(40, 400))),
           [("hostile", "h", "HostileTrace", dict(harness=dict(procs=4, timeout=800)))])


@check("C20")
def c20(ctx):
    ctx.assumptions = ["a call that has not returned after 20 s never returns"]
    simple(ctx, [("LocksMC", "LocksMC.cfg")], {"LocksMC.cfg": ("Begin", "Read", "ReadDone", "Want", "Write", "WriteDone", "Use", "Return")},
           dict(s=lambda: [dict(name="s%d" % i, ops=[], cfg=dict(n=ctx.rng.choice([2, 3, 3, 4]), ms=ctx.pick(1000, 3000), perturb=[0, 5, 20][i % 3],
                                                                 submitters=ctx.rng.choice([1, 2, 4]), deliverers=ctx.rng.choice([2, 4, 8]),
                                                                 askers=ctx.rng.choice([1, 2, 4]), monitor_ms=ctx.rng.choice([20, 200])))
                           for i in range(ctx.pick(40, 240))]),
           [("stress", "s", "StressTrace", dict(harness=dict(procs=6, timeout=800)))])


def p2p_scens(ctx, k):
    out = []
    for i, h in enumerate(ctx.generate("P2PGen", "P2PGen.cfg", simulate=k, depth=24)):
        c = dict(h["cfg"], n=3)
        out.append(dict(name="p%d" % i, ops=h["ops"], cfg=c))
    return out


@check("C15")
def c15(ctx):
    ctx.assumptions = ["the transport tells a node that a connection is broken within 300 ms of the end of the peer's process (loopback)"]
    simple(ctx, [("P2PMC", "P2PMC.cfg")], {"P2PMC.cfg": ("Listen", "Kill", "Notice", "Restart", "Begin", "Open", "Write", "AnyRead")},
           dict(f=lambda: [dict(name="f%d" % i, ops=[], cfg=h) for i, h in enumerate(ctx.generate("FrameGen", "FrameGen.cfg", simulate=ctx.pick(3000, 40000), depth=14))],
                p=lambda: p2p_scens(ctx, ctx.pick(110, 1500))),
           [("frame", "f", "FrameTrace", {}), ("p2p", "p", "P2PTrace", dict(harness=dict(procs=6, timeout=800)))])


@check("C22")
def c22(ctx):
    ctx.assumptions = ["a reply comes within 25 s of its request, and no second one later than 3.3 s after the last"]
    simple(ctx, [("SingleMC", "SingleMC.cfg")], {"SingleMC.cfg": ("KeyGen", "KeySign", "AnyMake", "AnyReport", "AnySignOne", "AnyReply")},
           dict(s=lambda: [dict(name="s%d" % i, ops=h["ops"], cfg=h["cfg"])
                           for i, h in enumerate(ctx.generate("SingleGen", "SingleGen.cfg", simulate=ctx.pick(400, 6000), depth=28))]),
           [("single", "s", "SingleTrace", dict(harness=dict(procs=4, timeout=800)))])


def heart_scens(ctx, solo, k):
    out = []
    for i, h in enumerate(ctx.generate("HeartGen", "HeartGen_%s.cfg" % ("TRUE" if solo else "FALSE"), simulate=k, depth=30)):
        out.append(dict(name="%s%d" % ("o" if solo else "n", i), ops=h["ops"], cfg=dict(h["cfg"], perturb=[0, 5, 20][i % 3])))
    return out


@check("C17")
def c17(ctx):
    ctx.assumptions = ["every accepted request is answered within 75 s (the default time limits)"]
    mc = [("HeartLife", "HeartLife.cfg" if ctx.tier == "quick" else "HeartLife3.cfg")]
    simple(ctx, mc, {mc[0][1]: ("Lock", "Decode", "StartUp", "Install", "Host", "Check", "Record", "HandOver", "Return", "Finish")},
           dict(o=lambda: heart_scens(ctx, True, ctx.pick(200, 3000)), n=lambda: heart_scens(ctx, False, ctx.pick(26, 500))),
           [("heart", "o", "HeartTrace", dict(harness=dict(procs=4, timeout=800))),
            ("heart", "n", "HeartTrace", dict(harness=dict(procs=5, timeout=800)))])
