"""Which stages decide which property."""
import stages

ASSUMPTIONS = [
    "the raw text of one .ini file is read as the standard library's configparser reads it (given, not modelled)",
    "names and values are drawn from the character repertoire of the drivers; Python's recursion limit is not reached",
]


def T(module, script, family, profile, quick, thorough):
    def stage(rep):
        n = quick if rep.tier == "quick" else thorough
        stages.trace(rep, module, script, family, profile, n)
    return stage


def M(module, cfg=None, thorough_cfg=None, only=None, **kw):
    def stage(rep):
        if only and rep.tier != only:
            return
        c = thorough_cfg if rep.tier == "thorough" and thorough_cfg else cfg
        stages.mc(rep, module, c, **kw)
    return stage


def R(module, cfg, script, family, profile, thorough_cfg=None, **kw):
    def stage(rep):
        c = thorough_cfg if rep.tier == "thorough" and thorough_cfg else cfg
        stages.replay(rep, module, c, script, family, profile, **kw)
    return stage


def core(p, quick, thorough):
    return T("TraceCPE", "cpe_gen.py", "core", p, quick, thorough)


def se(p, quick, thorough):
    return T("TraceSetEnv", "se_gen.py", "setenv", p, quick, thorough)


def kw(p, quick, thorough):
    return [R("MC_Kw", "MC_Kw" + p[2], "kw_replay.py", "kw", "kw", thorough_cfg="MC_Kw" + p[2] + "T"),
            T("TraceKw", "kw_gen.py", "kw", p, quick, thorough)]


def F(script, family):
    return lambda rep: stages.findings(rep, script, family)


WALK = [R("MC_Walk", "MC_Walk", "cpe_replay.py", "core", "walk", thorough_cfg="MC_WalkT")]
WALK3 = [R("MC_Walk", "MC_Walk3", "cpe_replay.py", "core", "walk", thorough_cfg="MC_Walk3T")]
WALKF = [R("MC_Walk", "MC_WalkF", "cpe_replay.py", "core", "walk")]
LIVE = [M("MC_Walk", "MC_WalkLive")]


def H(*names, extra=()):
    return [R("MC_Hist", "MC_Hist" + n, "cpe_replay.py", "core", "hist") for n in names] + \
        [only_thorough(R("MC_Hist", "MC_Hist" + n, "cpe_replay.py", "core", "hist")) for n in extra]


def only_thorough(stage):
    def f(rep):
        if rep.tier == "thorough":
            stage(rep)
    return f


def ENV(n):
    return R("MC_Env", "MC_Env%d" % n, "se_replay.py", "setenv", "se", thorough_cfg="MC_Env%dT" % n)


def CORE(n):
    return R("MC_Core", "MC_Core%d" % n, "cpe_replay.py", "core", "steps", thorough_cfg="MC_Core%dT" % n)


KEYS = [R("MC_Key", "MC_KeyQ", "cpe_replay.py", "core", "walk", thorough_cfg="MC_KeyQT"),
        R("MC_Key", "MC_KeyW", "cpe_replay.py", "core", "walk", thorough_cfg="MC_KeyWT"),
        only_thorough(R("MC_Key", "MC_KeyT", "cpe_replay.py", "core", "walk"))]
MC = "model_checking"
PLAN = {
    "C01": dict(level=MC, stages=WALK + [core("C01", 300, 3000)]),
    "C02": dict(level=MC, stages=WALK3 + LIVE + [core("C02", 200, 2000)]),
    "C03": dict(level=MC, stages=WALKF + [core("C03", 400, 4000)]),
    "C04": dict(level=MC, stages=KEYS + [core("C04", 600, 6000)]),
    "C05": dict(level=MC, stages=[CORE(2), core("C05", 500, 5000)]),
    "C06": dict(level=MC, stages=H("AE", "BE", "AS", extra=("AX", "BX")) + [core("C06", 500, 5000)]),
    "C07": dict(level=MC, stages=H("AS", "BS", extra=("AX", "BX")) + [core("C07", 400, 4000)]),
    "C08": dict(level=MC, stages=H("AS") + [CORE(3), core("C08", 500, 5000)]),
    "C09": dict(level=MC, stages=H("AE") + [CORE(4), core("C09", 500, 5000)]),
    "C10": dict(level=MC, stages=H("AR", "BR") + [CORE(5), core("C10", 500, 5000)]),
    "C11": dict(level=MC, stages=[R("MC_Control", "MC_Control", "ctl_gen.py", "core", "replay"),
                                  T("TraceControl", "ctl_gen.py", "core", "C11", 400, 8000)]),
    "C12": dict(level=MC, stages=[CORE(1), core("C12", 600, 6000)]),
    "C13": dict(level=MC, stages=[R("MC_Typed", "MC_Typed", "typed_gen.py", "core", "replay", thorough_cfg="MC_TypedT"),
                                  T("TraceTyped", "typed_gen.py", "core", "C13", 600, 6000)]),
    "C14": dict(level=MC, stages=[R("MC_Debug", "MC_Debug", "ctl_gen.py", "core", "replay", thorough_cfg="MC_DebugT"),
                                  R("MC_Walk", "MC_WalkF", "cpe_replay.py", "core", "walk-loud"),
                                  R("MC_Hist", "MC_HistAE", "cpe_replay.py", "core", "hist-loud"),
                                  T("TraceControl", "ctl_gen.py", "core", "C14", 800, 8000), core("C14", 500, 5000)]),
    "S01": dict(level=MC, stages=[ENV(2), se("S01", 120, 1500)]),
    "S02": dict(level=MC, stages=[F("se_findings.py", "setenv"), ENV(1), se("S02", 150, 1500)]),
    "S03": dict(level=MC, stages=[F("se_findings.py", "setenv"), ENV(1), se("S03", 100, 1000)]),
    "S04": dict(level=MC, stages=[ENV(3), se("S04", 100, 1000)]),
    "S05": dict(level=MC, stages=[ENV(4), se("S05", 150, 1500)]),
    "S06": dict(level=MC, stages=[R("MC_Lmod", "MC_Lmod", "lm_gen.py", "setenv", "replay", thorough_cfg="MC_LmodT"),
                                  T("TraceLmod", "lm_gen.py", "setenv", "S06", 100, 1000)]),
    "S07": dict(level=MC, stages=[ENV(5), se("S07", 100, 1000)]),
    "K01": dict(level=MC, stages=kw("K01", 400, 4000)),
    "K02": dict(level=MC, stages=kw("K02", 250, 2500)),
    "K03": dict(level=MC, stages=kw("K03", 250, 2500)),
    "K04": dict(level=MC, stages=kw("K04", 250, 2500)),
    "K05": dict(level=MC, stages=kw("K05", 100, 1000)),
    "K06": dict(level=MC, stages=[R("MC_Kw", "MC_Kw8", "kw_replay.py", "kw", "kw", thorough_cfg="MC_Kw8T")] + kw("K06", 80, 800)),
    "K07": dict(level=MC, stages=kw("K07", 80, 800)),
    "K09": dict(level=MC, stages=[R("MC_Msg", "MC_Msg", "msg_gen.py", "kw", "replay", thorough_cfg="MC_MsgT"),
                                  T("TraceMsg", "msg_gen.py", "kw", "K09", 300, 3000),
                                  R("MC_Kw", "MC_Kw1", "kw_replay.py", "kw", "kw", thorough_cfg="MC_Kw1T"),
                                  R("MC_Kw", "MC_Kw3", "kw_replay.py", "kw", "kw", thorough_cfg="MC_Kw3T"),
                                  T("TraceKw", "kw_gen.py", "kw", "K09", 150, 1500)]),
    "K08": dict(level=MC, stages=[R("MC_Wrap", "MC_Wrap", "sh_replay.py", "kw", "wrap", thorough_cfg="MC_WrapT"),
                                  T("TraceWrap", "sh_gen.py", "kw", "K08", 20, 200)]),
}
