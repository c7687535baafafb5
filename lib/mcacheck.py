"""Runs operations under an MCA configuration and checks each result against its envelope."""
from vcommon import *
import fpx
import workload as wl
import mcaoracle


def option(conf):
    s = "libinterflop_%s.so --mode=%s" % ("mca" if conf["kind"] == "quad" else "mca_int", conf["mode"])
    if conf["kind"] == "quad" and conf.get("popt", True):
        s += " --precision-binary32=%d --precision-binary64=%d" % conf["p"]
    if conf.get("seed") is not None:
        s += " --seed=%d" % conf["seed"]
    if conf.get("abs") is not None:
        s += " --error-mode=%s --max-abs-error-exponent=%d" % ("all" if conf.get("rel", True) else "abs", conf["abs"])
    if conf.get("daz"):
        s += " --daz"
    if conf.get("ftz"):
        s += " --ftz"
    if conf.get("spars", 1) < 1:
        s += " --sparsity=%r" % conf["spars"]
    return s


def envelope_run(chk, drv, pre, conf, recs, log, draws=None, threads=0):
    opt = option(conf)
    kw = {}
    if draws:
        kw["VERIF_DRAWS"] = str(chk.rng.getrandbits(30) + 1)
    outs, r = drive(chk, drv, pre, opt, recs, threads=threads, preload=draws, **kw)
    if outs is None:
        if r.timeout:
            raise Hang("driver timed out under " + opt)
        chk.violation("%s: the program died (status %s) %s" % (opt, r.rc, r.err[-300:]), opt)
        return None
    for (op, t, a, b, c), got in zip(log, outs):
        why = mcaoracle.check(op, t, a, b, c, got, conf)
        chk.observe(1, (conf["mode"], conf.get("abs") is not None, bool(conf.get("daz")), bool(conf.get("ftz")), op, t,
                        fpx.bucket(a, t), fpx.bucket(got, wl.rtype(op, t))[:2], bool(draws)))
        if why:
            chk.violation("[%s]%s %s: %s" % (opt, " extreme draws" if draws else "", wl.show(op, t, a, b, c, got), why),
                          {"backend": opt, "op": OPNAME[op], "type": t, "a": hex(a), "b": hex(b), "c": hex(c), "got": hex(got), "why": why})
    chk.count("results checked under mode %s" % conf["mode"], len(log))
    chk.sample({"config": opt, "op": wl.show(*log[0], got=outs[0])})
    return outs
