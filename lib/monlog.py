"""Reads the log of the monitor backend."""
import os
import struct
import fpx
from vcommon import *

EV = struct.Struct("<IIBBHIQQQQ")
(M_ADD, M_SUB, M_MUL, M_DIV, M_FMA, M_CAST, M_CMP, M_USER, M_ENTER, M_EXIT, M_FINAL, M_CLI, M_PREINIT, M_INIT, M_ARG) = range(15)


def build_mon(chk, pre):
    so = os.path.join(chk.work, "libmon.so")
    if not os.path.exists(so):
        must(["gcc", "-w", "-O1", "-shared", "-fPIC", "-I" + pre + "/include", os.path.join(HARNESS, "mon.c"), "-o", so, "-lm"])
    return so


def read(path):
    """list of dicts; multi-record strings are joined"""
    out = []
    with open(path, "rb") as f:
        b = f.read()
    for inst, tid, op, ty, aux, _, a, c2, c3, res in EV.iter_unpack(b):
        if op in (M_ENTER, M_EXIT, M_CLI):
            piece = struct.pack("<QQQ", a, c2, c3).split(b"\0")[0]
            if res == 0:
                out.append({"inst": inst, "tid": tid, "op": op, "type": ty, "aux": aux, "s": piece})
            else:
                out[-1]["s"] += piece
        else:
            out.append({"inst": inst, "tid": tid, "op": op, "type": ty, "aux": aux, "a": a, "b": c2, "c": c3, "res": res})
    for e in out:
        if "s" in e:
            e["s"] = e["s"].decode(errors="replace")
    return out


def canon(x, t):
    return "nan" if fpx.is_nan(x, t) else x


def arith(ev, inst=None):
    """arithmetic events as tuples comparable with the model (NaN payloads dropped)"""
    res = []
    for e in ev:
        if e["op"] > M_CMP or (inst is not None and e["inst"] != inst):
            continue
        t = e["type"]
        rt = 0 if e["op"] == M_CAST else t
        res.append((e["op"], t, e["aux"], canon(e["a"], t), canon(e["b"], t), canon(e["c"], t), e["res"] if e["op"] == M_CMP else canon(e["res"], rt)))
    return res


def canon_model(ev):
    out = []
    for op, t, aux, a, b, c, res in ev:
        rt = 0 if op == CAST else t
        out.append((op, t, aux, canon(a, t), canon(b, t), canon(c, t), res if op == CMP else canon(res, rt)))
    return out


def show_ev(e):
    if e is None:
        return "nothing"
    op, t, aux, a, b, c, res = e
    f = lambda x: x if x == "nan" else fpx.b2f(x, t).hex()
    return "%s %s%s(%s, %s%s)" % (("float", "double")[t], OPNAME[op], "[%d]" % aux if op == CMP else "", f(a), f(b), ", " + f(c) if op == FMA else "")
