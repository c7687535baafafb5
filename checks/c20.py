#!/usr/bin/env python3
"""C20: the profile of function instrumentation tells what the run did."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
from concurrent.futures import ThreadPoolExecutor
import fgen


def one(chk, pre, it, sd):
    r = random.Random(sd)
    prog = fgen.Prog(r)
    d = chk.tmp("p%d" % it)
    fgen.build(d, pre, prog)
    bad = []
    w0, x = fgen.execute(d, pre, "nat", None, "nat.log")
    if x.rc != 0 or w0 is None:
        raise Inconclusive("the plain program failed")
    ref = fgen.events(prog, w0)
    mode = r.choice(("ieee", "full", "ib", "ob"))
    inst = r.choice((None, "none", "all", "arguments", "operations"))
    opt = "libinterflop_vprec.so --mode=%s --prec-output-file=%s/prof" % (mode, d)
    if inst:
        opt += " --instrument=" + inst
    trace = r.random() < 0.5
    if trace:
        opt += " --prec-log-file=%s/trace" % d
    two = r.random() < 0.25     # a second backend sees the same arguments
    full = opt + ("; libinterflop_ieee.so" if two else "")
    w1, y = fgen.execute(d, pre, "vfc", full, "vfc.log")
    ncall = nsite = 0
    if y.rc != 0 or w1 is None:
        bad.append("the instrumented program ended with status %s: %s" % (y.rc, y.err[-200:].decode(errors="replace")))
    else:
        ev = fgen.events(prog, w1)
        df = fgen.same_log(prog, ev, ref)
        if df:
            bad.append("the program computes other values: " + df)
        else:
            try:
                txt = open(d + "/prof").read()
                es = fgen.parse_profile(txt)
            except (OSError, ValueError) as e:
                es = None
                bad.append("no readable profile: %s" % e)
            if es is not None:
                b, sh = fgen.check_profile(prog, ref, es)
                bad += b
                ncall, nsite = sum(sh.calls.values()), len(sh.calls)
                if trace and not b:
                    t = fgen.check_trace(prog, sh, es, open(d + "/trace").read())
                    if t:
                        bad.append(t)
                # the profile is an input file too
                if not b:
                    o2 = "libinterflop_vprec.so --mode=%s --instrument=%s --prec-input-file=%s/prof --prec-output-file=%s/prof2" % (mode, r.choice(("all", "arguments", "operations", "none")), d, d)
                    w2, z = fgen.execute(d, pre, "vfc", o2, "in.log")
                    if z.rc != 0 or w2 is None:
                        bad.append("its own profile is refused as input: status %s: %s" % (z.rc, z.err[-200:].decode(errors="replace")))
                    else:
                        df = fgen.same_log(prog, fgen.events(prog, w2), ref)
                        if df:
                            bad.append("with its own profile as input the program computes other values: " + df)
                        try:
                            e2 = fgen.parse_profile(open(d + "/prof2").read())
                            k = lambda l: sorted((e.id, e.p64, e.r64, e.p32, e.r32, e.nin, e.nout, str(e.inputs), str(e.outputs)) for e in l)
                            if k(e2) != k(es):
                                bad.append("the profile written after reading it is another one")
                        except (OSError, ValueError) as e:
                            bad.append("no readable profile after reading one: %s" % e)
    src = "".join(open(d + "/t%d.c" % i).read() for i in range(prog.ntu)) if bad else None
    shutil.rmtree(d)
    keys = set()
    for s in prog.sites:
        keys.add((s.fn.kind, s.via, len(s.fn.params), s.fn.ret, tuple(s.arrays), s.tu == s.fn.tu))
    return bad, keys, (ncall, nsite, len(ref)), (opt, src)


def body(chk):
    pre = vbuild.build("std")
    n = chk.n(150, 2500)
    seeds = ["c20-%d-%d" % (chk.seed, i) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for (bad, keys, (nc, ns, ne), (opt, src)), sd in zip(ex.map(lambda i: one(chk, pre, i, seeds[i]), range(n)), seeds):
            for k in keys:
                chk.observe(1, k)
            chk.count("programs")
            chk.count("calls", nc)
            chk.count("call sites", ns)
            chk.count("events", ne)
            for b in bad[:2]:
                chk.violation("[%s] %s" % (opt.split(" ", 1)[1], b), {"scenario": sd, "backend": opt, "source": src})
            chk.sample({"scenario": sd, "calls": nc, "sites": ns, "events": ne})


run_check("C20", "random call graphs (1 or 2 translation units, recursion, loops, library calls, calls through pointers and through functions without floating point, scalars and local "
          "arrays, huge and special values) compiled with function instrumentation: the profile against a shadow profile of the program's own event log, the values against the native "
          "program, the profile read back; distinct = shapes of call sites", body,
          ["calls through pointers and of functions that show no floating point are not listed by design", "the bounds are the integers around the values, saturated; special values do not count",
           "the pointee of a pointer that is not a local array is unknown to the tool: its bounds and type are not specified"])
