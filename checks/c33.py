#!/usr/bin/env python3
"""C33: vfc_ci setup: only the workflow is added, the CI branch is created, the workflow really stores results there."""
import sys, os, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vcommon import *
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/vp/venv/bin/python"
NAMES = ["master", "main", "dev", "feature/x", "fix-1_2", "release/2.0", "2.0", "1024", "no", "on", "vfc_ci", "a.b", "UPPER", "null", "x/y/z", "1e3", "0x10"]


OTHER = ["untracked", "modified", "staged", "behind", "diverged", "noupstream", "ahead", "deleted", "reject-dev", "reject-ci", "again", "remote-ci"]


class G:
    """git in a scratch directory, with its own configuration and home"""

    def __init__(self, d):
        self.d = d
        self.env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": d + "/home", "GIT_CONFIG_GLOBAL": d + "/home/gitconfig", "GIT_CONFIG_NOSYSTEM": "1",
                    "GIT_TERMINAL_PROMPT": "0", "GIT_ASKPASS": "/bin/false", "GIT_SSH_COMMAND": "/bin/false", "GIT_CEILING_DIRECTORIES": d, "LC_ALL": "C.UTF-8", "GIT_PYTHON_REFRESH": "quiet"}
        os.makedirs(d + "/home")

    def __call__(self, cwd, *a, ok=True):
        r = run(["git"] + list(a), env=self.env, cwd=cwd, timeout=100)
        if ok and r.rc != 0:
            raise Inconclusive("git %s in the scratch repository: %s" % (" ".join(a), r.err[-300:].decode(errors="replace")))
        return r.out.decode(errors="replace").strip()


def refs(g, d):
    """branches, tags (not the remote-tracking ones)"""
    o = g(d, "for-each-ref", "--format=%(refname) %(objectname)", "refs/heads", "refs/tags")
    return dict(l.split(" ") for l in o.split("\n") if l)


def tree(d):
    """every file outside .git: content, mode"""
    t = {}
    for root, ds, fs in os.walk(d):
        if root == d and ".git" in ds:
            ds.remove(".git")
        for f in fs:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                t[rel] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    t[rel] = (os.stat(p).st_mode & 0o111 != 0, fh.read())
    return t


def put(d, rel, data, x=False):
    p = os.path.join(d, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)
    if x:
        os.chmod(p, 0o755)


def blob(r):
    return bytes(r.getrandbits(8) for _ in range(r.randint(0, 60))) + b"\n"


def steps(doc, host):
    """the shell scripts of the rendered workflow, and the branch it runs for"""
    out = []
    if host == "github":
        on = doc.get("on", doc.get(True))
        br = on["push"]["branches"]
        for job in doc["jobs"].values():
            for s in job["steps"]:
                if "run" in s:
                    out.append(s["run"])
        return out, br
    br = []
    for name, job in doc.items():
        if isinstance(job, dict) and "script" in job:
            out.append("\n".join((job.get("before_script") or doc.get("before_script") or []) + job["script"]))
            for rule in job.get("rules", []):
                m = re.search(r"\$CI_COMMIT_BRANCH\s*==\s*[\"']([^\"']*)[\"']", rule.get("if", ""))
                br += [m.group(1)] if m else []
            for k in ("only",):
                br += job.get(k, {}).get("refs", []) if isinstance(job.get(k), dict) else job.get(k, [])
    return out, br


def one(chk, pre, it, seed):
    r = random.Random(seed)
    D = chk.tmp("s%d" % it)
    os.makedirs(D)
    bad = []
    try:
        tag = scenario(r, D, pre, bad, it)
    finally:
        shutil.rmtree(D, ignore_errors=True)
    return bad, tag


def scenario(r, D, pre, bad, it):
    g = G(D)
    host = r.choice(("github", "gitlab"))
    dev = r.choice(NAMES)
    srv = D + "/srv"
    os.makedirs(srv)
    g(D, "config", "--global", "user.email", "v@example.com")
    g(D, "config", "--global", "user.name", "v")
    g(D, "config", "--global", "init.defaultBranch", "trunk0")
    g(D, "init", "-q", "--bare", srv + "/proj.git")
    form = r.choice(("https", "https.git", "ssh", "scp", "http.git")) if host == "gitlab" else r.choice(("file", "https.git"))
    H = r.choice(("gitlab.example.com", "git.example.org:8443")) if form.startswith("http") else "gitlab.example.com"
    user, mail, tok = r.choice(("ci-bot", "robot")), "bot%d@example.com" % r.randint(0, 9), "T%d" % r.getrandbits(30)
    url = {"file": srv + "/proj.git", "https": "https://%s/grp/proj" % H, "https.git": "https://%s/grp/proj.git" % H, "http.git": "http://%s/grp/proj.git" % H,
           "ssh": "ssh://git@%s/grp/proj.git" % H, "scp": "git@%s:grp/proj.git" % H}[form]
    # the host serves the repository at .../proj and .../proj.git
    os.symlink("proj.git", srv + "/proj")
    for base in ("https://%s/grp/" % H, "http://%s/grp/" % H, "ssh://git@%s/grp/" % H, "git@%s:grp/" % H, "https://%s:%s@%s/grp/" % (user, tok, H)):
        g(D, "config", "--global", "--add", "url.%s/.insteadOf" % srv, base)
    w = D + "/w"
    g(D, "init", "-q", w)
    two = r.choice((0, 0, 1, 2))
    if two == 1:
        g(w, "remote", "add", "backup", D + "/nowhere/backup.git")
    g(w, "remote", "add", "origin", url)
    if two == 2:
        g(w, "remote", "add", "backup", D + "/nowhere/backup.git")
    g(w, "checkout", "-q", "-b", dev)
    files = {"a.c": blob(r), "src/b.c": blob(r), "run.sh": blob(r)}
    if r.random() < 0.6:
        files["README.md"] = b"my own readme\n" + blob(r)
    if r.random() < 0.3:
        files[".github/workflows/other.yml"] = b"name: other\n"
    if r.random() < 0.25:
        files[".github/workflows/vfc_test_workflow.yml" if host == "github" else ".gitlab-ci.yml"] = b"old: 1\n"
    ign = {}
    if r.random() < 0.5:
        files[".gitignore"] = b"*.o\nbuild/\n"
        ign = {"x.o": blob(r), "build/exe": blob(r)}
    for f, b in files.items():
        put(w, f, b, f == "run.sh")
    if r.random() < 0.3:
        os.symlink("a.c", w + "/lnk")
    g(w, "add", "-A")
    g(w, "commit", "-q", "-m", "c0")
    for f, b in ign.items():
        put(w, f, b)
    for i in range(r.randint(0, 3)):
        put(w, "a.c", blob(r) + b"%d" % i)
        g(w, "commit", "-q", "-am", "c%d" % (i + 1))
    g(w, "push", "-q", "-u", "origin", dev)
    others = [n for n in r.sample(["topic", "old", "wip"], r.randint(0, 3))]
    for n in others:
        g(w, "branch", n, "HEAD")
        if r.random() < 0.5:
            g(w, "push", "-q", "origin", n)
    if r.random() < 0.4:
        g(w, "tag", "v1")
    state = OTHER[it // 2 % len(OTHER)] if it % 2 else "clean"
    if state == "untracked":
        put(w, r.choice(("notes.txt", "secret/key", "README.new")), blob(r))
    elif state == "modified":
        put(w, "a.c", blob(r) + b"changed")
    elif state == "deleted":
        os.unlink(w + "/src/b.c")
    elif state == "staged":
        put(w, r.choice(("a.c", "new.c")), blob(r) + b"staged")
        g(w, "add", "-A")
    elif state in ("behind", "diverged", "ahead"):
        if state != "ahead":
            g(D, "clone", "-q", "-b", dev, srv + "/proj.git", D + "/o")
            put(D + "/o", "other.c", blob(r))
            g(D + "/o", "add", "-A")
            g(D + "/o", "commit", "-q", "-m", "theirs")
            g(D + "/o", "push", "-q", "origin", dev)
        if state != "behind":
            put(w, "a.c", blob(r) + b"ours")
            g(w, "commit", "-q", "-am", "ours")
    elif state == "noupstream":
        g(w, "branch", "--unset-upstream")
    elif state.startswith("reject"):
        hook = srv + "/proj.git/hooks/update"
        ref = "refs/heads/" + (dev if state == "reject-dev" else "vfc_ci_" + dev)
        put(D, "srv/proj.git/hooks/update", b"#!/bin/sh\n[ \"$1\" = \"%s\" ] && { echo refused >&2; exit 1; }\nexit 0\n" % ref.encode(), True)
    old = []
    if state in ("again", "remote-ci"):     # the results of an earlier setup
        o = D + "/old"
        g(D, "init", "-q", o)
        g(o, "checkout", "-q", "-b", "vfc_ci_" + dev)
        put(o, "README.md", b"`%s` vfc_ci_%s" % (dev.encode(), dev.encode()))
        old = ["vfcruns/%07x.vfcrun.h5" % r.getrandbits(28) for _ in range(r.randint(1, 3))]
        for f in old:
            put(o, f, blob(r))
        g(o, "add", "-A")
        g(o, "commit", "-q", "-m", "results")
        g(o, "push", "-q", srv + "/proj.git", "vfc_ci_" + dev)
        if state == "again":
            g(w, "fetch", "-q", "origin", "vfc_ci_%s:vfc_ci_%s" % (dev, dev))
    ctx = " [%s, branch %s, %s, remote %s]" % (host, dev, state, url.replace(D, ""))
    L0, R0, T0, S0 = refs(g, w), refs(g, srv + "/proj.git"), tree(w), g(w, "status", "--porcelain")
    c0 = g(w, "rev-parse", "HEAD")
    env = dict(g.env, PYTHONPATH=pre + "/py")
    inp = ("%s\n%s\n" % (user, mail)).encode()
    x = run([PY, "-m", "verificarlo.ci", "setup", host], env=env, cwd=w, timeout=120, stdin=inp)
    if x.timeout:
        bad.append("does not end" + ctx)
        return (host, state)
    L1, R1, T1 = refs(g, w), refs(g, srv + "/proj.git"), tree(w)
    err = x.err[-300:].decode(errors="replace")
    ci = "vfc_ci_" + dev
    kd, kc = "refs/heads/" + dev, "refs/heads/" + ci

    def E(m):
        bad.append(m + ctx)

    mustfail = state in ("modified", "staged", "behind", "diverged", "noupstream", "deleted", "reject-dev", "reject-ci")
    if mustfail and x.rc == 0:
        E("the setup reports success")
    if x.rc != 0:
        if state == "clean":
            E("the setup fails: %s" % err)
        elif state == "again":
            E("a second setup fails: %s" % err)
        elif not state.startswith("reject"):
            if L0 != L1 or R0 != R1:
                E("refused, but branches changed: %s" % sorted(k for k in set(L0) | set(L1) | set(R0) | set(R1) if L0.get(k) != L1.get(k) or R0.get(k) != R1.get(k)))
            elif T0 != T1 or S0 != g(w, "status", "--porcelain"):
                E("refused, but the work tree changed: %s" % sorted(k for k in set(T0) | set(T1) if T0.get(k) != T1.get(k)))
        if g(w, "rev-parse", "--abbrev-ref", "HEAD", ok=False) not in (dev, "heads/" + dev):
            E("failed, and the current branch is now %s" % g(w, "rev-parse", "--abbrev-ref", "HEAD", ok=False))
        lost = [f for f in T0 if T1.get(f) != T0[f] and not (".github" in f or f == ".gitlab-ci.yml")]
        if lost:
            E("failed, and files changed: %s" % lost)
        return (host, state)
    if bad:
        return (host, state)
    # success: what must be there
    if g(w, "rev-parse", "--abbrev-ref", "HEAD") not in (dev, "heads/" + dev):
        E("the current branch is now %s" % g(w, "rev-parse", "--abbrev-ref", "HEAD"))
        return (host, state)
    if R1.get(kd) != L1.get(kd):
        E("the workflow is not on the remote branch")
    if old and not (kc in R1 and set(old) <= set(g(srv + "/proj.git", "ls-tree", "-r", "--name-only", kc).split("\n"))):
        E("the earlier results of the CI branch are gone")
        return (host, state)
    if R1.get(kc) is None or not old and R1.get(kc) != L1.get(kc):
        E("the CI branch %s is not on the remote (branches: %s)" % (ci, sorted(R1)))
        return (host, state)
    ch = [k for k in set(L0) | set(L1) if k not in (kd, kc) and L0.get(k) != L1.get(k)] + [k for k in set(R0) | set(R1) if k not in (kd, kc) and R0.get(k) != R1.get(k)]
    if ch:
        E("other branches or tags changed: %s" % ch)
    if g(w, "log", "--format=%P", "-1", dev) != c0:
        E("the branch is not one commit ahead of where it was")
        return (host, state)
    names = g(w, "diff", "--name-only", c0, kd).split("\n")
    wf = [n for n in names if (n.startswith(".github/workflows/") and n.endswith((".yml", ".yaml"))) or n == ".gitlab-ci.yml"]
    if len(names) != 1 or len(wf) != 1 or (host == "gitlab") != (wf[0] == ".gitlab-ci.yml"):
        E("the setup commit changes %s, must be the workflow only" % names)
        return (host, state)
    if {k: v for k, v in T1.items() if k != wf[0]} != {k: v for k, v in T0.items() if k != wf[0]}:
        E("files of the work tree changed: %s" % sorted(k for k in set(T0) | set(T1) if T0.get(k) != T1.get(k) and k != wf[0]))
    if g(w, "status", "--porcelain") != S0:
        E("the work tree is not as it was: %s" % g(w, "status", "--porcelain"))
    o = srv + "/proj.git"
    if not old and g(o, "log", "--format=%P", kc).strip():
        E("the CI branch is not an orphan")
    ct = g(o, "ls-tree", "-r", "--name-only", kc).split("\n")
    if sorted(ct) != sorted(["README.md"] + old):
        E("the CI branch has the files %s" % ct)
    else:
        rd = g(o, "show", kc + ":README.md")
        if "`%s`" % dev not in rd or ci not in rd:
            E("the README of the CI branch does not name the branches")
    if bad:
        return (host, state)
    # the workflow, run as the host would
    x = run([PY, "-c", "import yaml, json, sys; print(json.dumps({str(k): v for k, v in yaml.safe_load(open(sys.argv[1])).items()}))", w + "/" + wf[0]], timeout=60)
    try:
        doc = json.loads(x.out)
        if "True" in doc:
            doc["on"] = doc.pop("True")
        scripts, br = steps(doc, host)
    except (ValueError, KeyError, TypeError, AttributeError):
        E("the workflow is not readable: %s" % x.err[-200:].decode(errors="replace"))
        return (host, state)
    if br != [dev]:
        E("the workflow runs for %r, must be %r" % (br, [dev]))
        return (host, state)
    os.makedirs(D + "/bin")
    put(D, "bin/vfc_ci", b"#!/bin/sh\necho \"$@\" >> %s/calls\nh=$(git rev-parse --short HEAD)\necho run $h > $h.vfcrun.h5\necho raw > $h.vfcraw.h5\n[ ! -x %s/during ] || %s/during\n" % ((D.encode(),) * 3), True)
    race = r.random() < 0.5
    if race:        # someone pushes to the branch while the workflow runs
        g(D, "clone", "-q", "-b", dev, o, D + "/someone")
        put(D, "during", b"#!/bin/sh\ncd %s/someone && git pull -q && echo x >> z.c && git add z.c && git commit -qm z && git push -q\n" % D.encode(), True)

    want = {"README.md"} | set(old)
    prev = R1[kc]
    for k in range(2):
        if k:
            g(w, "pull", "-q", "--ff-only")
            put(w, "a.c", blob(r) + b"next")
            g(w, "commit", "-q", "-am", "next")
            g(w, "push", "-q", "origin", dev)
        sha = g(w, "rev-parse", dev)
        rd = D + "/runner%d" % k
        g(D, "clone", "-q", "-b", dev, url, rd)
        if host == "gitlab":
            g(rd, "checkout", "-q", "--detach", sha)
        wenv = dict(g.env, PATH=D + "/bin:" + g.env["PATH"], GITHUB_SHA=sha, GITHUB_WORKSPACE=rd, CI_COMMIT_SHA=sha, CI_COMMIT_BRANCH=dev, CI_PUSH_TOKEN=tok,
                    GIT_CONFIG_GLOBAL=D + "/home/runner%d" % k)
        shutil.copy(D + "/home/gitconfig", D + "/home/runner%d" % k)
        y = run(["bash", "-e", "-c", "\n".join(scripts)], env=wenv, cwd=rd, timeout=120)
        R2 = refs(g, srv + "/proj.git")
        if y.rc != 0 or y.timeout:
            E("the scripts of the workflow fail: %s" % y.err[-300:].decode(errors="replace"))
            break
        want.add("vfcruns/%s.vfcrun.h5" % g(w, "rev-parse", "--short", sha))
        got = set(g(o, "ls-tree", "-r", "--name-only", kc).split("\n"))
        if got != want or g(o, "log", "--format=%P", "-1", kc) != prev:
            E("after %d runs of the workflow the CI branch has %s, must be %s" % (k + 1, sorted(got), sorted(want)))
            break
        if {q: v for q, v in R2.items() if q != kc} != dict({q: v for q, v in R1.items() if q != kc}, **{kd: g(D + "/someone", "rev-parse", "HEAD") if race else sha}):
            E("a run of the workflow changes other branches")
            break
        if host == "gitlab" and g(o, "log", "--format=%an %ae", "-1", kc) != "%s %s" % (user, mail):
            E("the results are committed as %s" % g(o, "log", "--format=%an %ae", "-1", kc))
            break
        prev = R2[kc]
    calls = open(D + "/calls").read().split("\n")[:-1] if os.path.exists(D + "/calls") else []
    if not bad and [c.split()[0] for c in calls if c] != ["test"] * 2:
        E("the workflow calls vfc_ci with %s" % calls)
    return (host, state, form, dev)


def body(chk):
    pre = vbuild.build("std")
    n = chk.n(72, 720)
    seeds = ["c33-%d-%d" % (chk.seed, i) for i in range(n)]
    with ThreadPoolExecutor(NPROC) as ex:
        for (bad, tag), sd in zip(ex.map(lambda i: one(chk, pre, i, seeds[i]), range(n)), seeds):
            chk.observe(1, tag)
            chk.count("setups")
            chk.count("%s" % tag[1])
            for b in bad[:2]:
                chk.violation(b, {"scenario": sd})
            chk.sample({"seed": sd, "case": list(tag)})


run_check("C33", "real `vfc_ci setup` in scratch repositories with a local remote behind the host's address: random branches, files, ignored files, states (clean, untracked, modified, staged, deleted, "
          "behind, ahead, diverged, no upstream, set up before, push refused by the remote), both hosts; refs of both repositories, work tree and index compared before and after; the shell scripts of the rendered "
          "workflow then run twice in fresh clones with a stand-in for vfc_ci; distinct = host x state x form of the address x branch name", body,
          ["the branch names are made of letters, digits and . _ - /", "the git host runs the scripts of the workflow with bash -e in a clone of the branch"])
