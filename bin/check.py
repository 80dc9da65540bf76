#!/usr/bin/env python3
"""check.py <property>: decides one property (quick or thorough by VERIF_TIER)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Work, TIER

THOROUGH = TIER == "thorough"
CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


SECP = {"SmallOrder": "5", "Gens": "{}"}


@check
def C24(w):
    w.mc("CodecMC", consts={"Chunks": 130 if not THOROUGH else 600, "ParseLen": 3})
    s = w.generate("CodecGen", consts={"Part": '"C24"'})
    w.conform("util", "CodecTrace", s)


@check
def C25(w):
    w.mc("CodecMC", consts={"Chunks": 2, "ParseLen": 5 if not THOROUGH else 6})
    s = w.generate("CodecGen", consts={"Part": '"C25"'})
    w.conform("util", "CodecTrace", s)


@check
def C26(w):
    w.mc("ArithMC", consts={"MaxM": 1, "MaxX": 3, "MaxE": 1, "MaxU": 6, "MaxL": 4 if not THOROUGH else 5, "VLen": 0})
    s = w.generate("ArithGen", cfg="secpgen.cfg", consts={"Part": '"C26"'})
    w.conform("util", "ArithTrace", s, cfg="secp.cfg")


@check
def C27(w):
    w.mc("ArithMC", consts={"MaxM": 13 if not THOROUGH else 40, "MaxX": 15, "MaxE": 7, "MaxU": 2, "MaxL": 1, "VLen": 2 if not THOROUGH else 3})
    s = w.generate("ArithGen", cfg="secpgen.cfg", consts={"Part": '"C27"'})
    w.conform("util", "ArithTrace", s, cfg="secp.cfg")


def groups(w, part, race=False, env=None):
    s = w.generate("GroupsGen", cfg="groupsgen.cfg", consts={"Part": '"%s"' % part})
    w.conform("groups", "GroupsTrace", s, cfg="groups.cfg", race=race, replay_env=env)


@check
def C19(w):
    w.mc("GroupsMC", consts={"Used": '{"P"}', "SmallOrder": 7 if THOROUGH else 5, "SmallR": 3, "NReg": 3})
    groups(w, "C19")


@check
def C20(w):
    for t in ("G1", "G2", "GT"):
        w.mc("GroupsMC", consts={"Used": '{"%s"}' % t, "SmallOrder": 3, "SmallR": 7 if THOROUGH else 5, "NReg": 3})
    groups(w, "C20")


@check
def C21(w):
    w.mc("GroupsMC", consts={"Used": '{"G1", "G2", "GT"}', "SmallOrder": 3, "SmallR": 5 if THOROUGH else 3, "NReg": 2})
    groups(w, "C21")


@check
def C22(w):
    w.mc("GroupsMC", consts={"Used": '{"G1"}', "SmallOrder": 3, "SmallR": 5, "NReg": 3})
    groups(w, "C22")


@check
def C23(w):
    w.mc("TryIncMC", consts={"Fields": "{7, 11}" if not THOROUGH else "{7, 11, 19, 23}", "Tries": 3})
    groups(w, "C23")


@check
def C28(w):
    w.mc("CommitMC", consts={"SmallOrder": 11 if THOROUGH else 7})
    groups(w, "C28")
    ccs(w, "C28")


def ccs(w, part, race=False, env=None):
    s = w.generate("CcsGen", cfg="ccsgen.cfg", consts={"Part": '"%s"' % part})
    w.conform("ccs", "CcsTrace", s, cfg="ccs.cfg", race=race, replay_env=env)


def sigma(w, goal, sizes):
    for u, l, r in sizes:
        w.mc("CcsMC", consts={"U": u, "L": l, "Goal": '"%s"' % goal, "SmallR": r})


@check
def C13(w):
    sigma(w, "complete", [(2, 1, 3), (2, 1, 5)])
    sigma(w, "sound", [(2, 1, 3)])
    ccs(w, "C13")


@check
def C14(w):
    sigma(w, "complete", [(2, 1, 3), (2, 1, 5)])
    sigma(w, "sound", [(2, 1, 3)])
    ccs(w, "C14")


@check
def C15(w):
    w.mc("IntervalMC", consts={"Reach": 12 if THOROUGH else 9, "M": 151 if THOROUGH else 61, "MaxU": 6 if THOROUGH else 5, "MaxL": 4})
    ccs(w, "C15")


@check
def C16(w):
    sigma(w, "sound", [(2, 1, 3)])
    sigma(w, "tamper", [(2, 1, 3)])
    ccs(w, "C16")


@check
def C17(w):
    w.mc("BBMC", consts={"SmallR": 7 if not THOROUGH else 13})
    ccs(w, "C17")


@check
def C18(w):
    sigma(w, "hidden", [(2, 1, 3)])
    ccs(w, "C18")


def bp(w, part, race=False, env=None):
    s = w.generate("BPGen", cfg="secpgen.cfg", consts={"Part": '"%s"' % part})
    w.conform("bp", "BPTrace", s, cfg="secp.cfg", race=race, replay_env=env)


def life(w):
    """Shared objects under interleaved operations: safe if operations write to memory of their own only, and
    unsafe otherwise, so that the invariants are not vacuous."""
    c = {"Procs": "{1, 2, 3}", "Cells": 2, "Proofs": '{"a", "b"}', "MaxOps": 5 if THOROUGH else 4}
    w.mc("LifeMC", consts=dict(c, Discipline='"own"'), invs="Results Untouched NoRace")
    for d, inv in (("normalise", "NoRace"), ("scratch", "Results"), ("inplace", "Results")):
        w.mc_fails("LifeMC", dict(c, Discipline='"%s"' % d), inv)


def bpmc(w, goal, n, q, blinds, slopes):
    gens = ["G", "H", "U"] + [g + str(i) for g in "gh" for i in range(n)]
    st = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    w.mc("BPMC", consts={"Goal": '"%s"' % goal, "N": n, "SmallOrder": q, "Blinds": st(blinds), "Slopes": st(slopes),
                         "Gens": "{" + ", ".join('"%s"' % g for g in gens) + "}"})


@check
def C01(w):
    bpmc(w, "complete", 1, 5, [2], [0, 1, 3])
    bpmc(w, "complete", 2, 5, [1], [1])
    if THOROUGH:
        bpmc(w, "complete", 1, 5, [0, 2], [0, 1])
        bpmc(w, "complete", 2, 5, [3], [0, 1])
        bpmc(w, "complete", 1, 3, range(3), range(3))
    bp(w, "C01")


@check
def C02(w):
    bpmc(w, "digits", 2, 7, [0], [0])
    bpmc(w, "sound", 1, 5, [0], [1])
    if THOROUGH:
        bpmc(w, "digits", 2, 11, [0], [0])
        bpmc(w, "sound", 1, 5, [0], [0, 1, 3])
    bp(w, "C02")


@check
def C03(w):
    bp(w, "C03")


@check
def C04(w):
    bpmc(w, "tamper", 1, 5, [2], [1])
    bp(w, "C04")


@check
def C05(w):
    life(w)
    bp(w, "C05")


@check
def C06(w):
    w.mc("IntervalMC", consts={"Reach": 12 if THOROUGH else 8, "M": 151 if THOROUGH else 61, "MaxU": 2, "MaxL": 5})
    bp(w, "C06")


@check
def C07(w):
    life(w)
    bp(w, "C07")


@check
def C08(w):
    bpmc(w, "hidden", 1, 3, range(3), range(3))
    if THOROUGH:
        bpmc(w, "hidden", 2, 3, range(3), range(3))
    bp(w, "C08")


@check
def C09(w):
    bp(w, "C09")


@check
def C10(w):
    bpmc(w, "ip", 2, 5, [2], [0, 1, 3])
    bpmc(w, "ipsound", 2, 7, [0], [1])
    if THOROUGH:
        bpmc(w, "ip", 4, 5, [2], [1])
        bpmc(w, "ip", 2, 5, range(1, 5), range(5))
        bpmc(w, "ipsound", 2, 7, [0], [0, 1])
    bp(w, "C10")


@check
def C11(w):
    for n in ([1, 2, 4] if THOROUGH else [1, 2]):
        w.mc("ShapeMC", consts={"N": n}, real=True)
    bp(w, "C11")


@check
def C12(w):
    life(w)
    env = {"GORACE": "halt_on_error=1 exitcode=66 history_size=7", "GOMAXPROCS": "8", "VH_SYSRAND": "1"}
    bp(w, "C12", race=True, env=env)
    ccs(w, "C12", race=True, env=env)


@check
def C30(w):
    c = {"Callers": 4 if THOROUGH else 3, "Rounds": 2}
    for d in ("own", "locked", "once"):
        w.mc("Scratch", consts=dict(c, Discipline='"%s"' % d), invs="Alone NoStop")
    w.mc("Scratch", consts={"Callers": 3, "Rounds": 2, "Discipline": '"pool"'}, invs="Alone NoStop")
    for d in ("shared", "early", "lazy", "operand"):
        w.mc_fails("Scratch", dict(c, Discipline='"%s"' % d), "Alone")
    env = {"GORACE": "halt_on_error=1 exitcode=66 history_size=7", "GOMAXPROCS": "8", "VH_SYSRAND": "1"}
    bp(w, "C30", race=True, env=env)
    ccs(w, "C30", race=True, env=env)
    groups(w, "C30", race=True, env=env)
    s = w.generate("ArithGen", cfg="secpgen.cfg", consts={"Part": '"C30"'})
    w.conform("util", "ArithTrace", s, cfg="secp.cfg", race=True, replay_env=env)
    s = w.generate("CodecGen", consts={"Part": '"C30"'})
    w.conform("util", "CodecTrace", s, race=True, replay_env=env)


@check
def C31(w):
    c = {"Elems": 3, "MaxLen": 4 if THOROUGH else 3}
    w.mc("Binding", consts=dict(c, Discipline='"all"'), invs="Bound Canonical")
    for d in ("drop last", "drop first", "set", "half", "short texts"):
        w.mc_fails("Binding", dict(c, Discipline='"%s"' % d), "Bound")
    w.mc_fails("Binding", dict(c, Discipline='"representation"'), "Canonical")
    groups(w, "C31")


@check
def C29(w):
    c = {"K": 4 if THOROUGH else 3, "W": 4 if THOROUGH else 3}
    for d in ("stop", "retry"):
        w.mc("Draws", consts=dict(c, Discipline='"%s"' % d), invs="FailStop SameNumbers NothingAfter")
    for d in ("zero", "last", "oneread"):
        w.mc_fails("Draws", dict(c, Discipline='"%s"' % d), "FailStop")
    bp(w, "C29")
    ccs(w, "C29")


if __name__ == "__main__":
    p = sys.argv[1]
    vlib.main(p, CHECKS[p])
