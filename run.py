#!/usr/bin/env python3
"""Build and run one check against /repo's working tree.

  run.py <ID> [quick|thorough] [--replay IDX] [--workers N]

Everything is built in a scratch directory that is removed at the end; /repo is only read.
"""
import os, shutil, subprocess, sys, tempfile, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
INTERNAL = {"C08", "C13"}      # look at types the package does not export
GOROOT = "/opt/veriftools/go1.27.3"


def env(scratch):
    e = dict(os.environ)
    e.update(PATH=GOROOT + "/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
             GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=mod", GOTMPDIR=scratch, HOME="/root",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_EXTRA="", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def copy_sources(dst):
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "testdata", "zzmc") and not d.startswith(".")]
        rel = os.path.relpath(root, REPO)
        for f in files:
            if f.endswith("_test.go") or f in ("go.mod", "go.sum"):
                continue
            if not (f.endswith(".go") or f.endswith(".s") or f.endswith(".h") or f.endswith(".c")):
                continue
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            shutil.copy(os.path.join(root, f), os.path.join(dst, rel, f))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(VERIF, "gomod", f), dst)


def build(pid, scratch):
    if pid not in INTERNAL:
        return build_with(pid, scratch, "src", False)
    try:
        return build_with(pid, scratch, "src", True)
    except subprocess.CalledProcessError:
        # the types inside have changed: what can be seen through the matcher is still checked
        print("note: the library's internal types are not as expected; checking through the matcher only", file=sys.stderr)
        return build_with(pid, scratch, "src2", False)


def build_with(pid, scratch, name, internal):
    src = os.path.join(scratch, name)
    os.makedirs(src)
    copy_sources(src)
    tags = []
    if internal:
        tags.append("mcint")
        for f in os.listdir(os.path.join(VERIF, "mc", "inpkg")):
            shutil.copy(os.path.join(VERIF, "mc", "inpkg", f), os.path.join(src, f.replace(".go.txt", ".go")))
    mc = os.path.join(src, "zzmc")
    os.makedirs(mc)
    for f in os.listdir(os.path.join(VERIF, "mc")):
        if f.endswith(".go"):
            shutil.copy(os.path.join(VERIF, "mc", f), mc)
    e = env(scratch)
    if pid == "C07":
        # the controlled scheduler needs a scheduling point before every statement
        tags.append("mcsched")
        ins = os.path.join(scratch, "instr")
        os.makedirs(ins)
        shutil.copy(os.path.join(VERIF, "instr", "main.go"), ins)
        with open(os.path.join(ins, "go.mod"), "w") as f:
            f.write("module instr\n\ngo 1.21\n")
        subprocess.run(["go", "build", "-o", os.path.join(scratch, "instrument"), "."], cwd=ins, env=e, check=True)
        # an untouched copy for the free running part, built with the race detector
        racesrc = os.path.join(scratch, "racesrc")
        shutil.copytree(src, racesrc)
        subprocess.run(["go", "build", "-race", "-tags", "mcrace", "-o", os.path.join(scratch, "mcrace"), "./zzmc"],
                       cwd=racesrc, env=e, check=True)
        subprocess.run([os.path.join(scratch, "instrument"), src, os.path.join(VERIF, "instr")], check=True)
    out = os.path.join(scratch, "mc")
    cmd = ["go", "build", "-o", out]
    if tags:
        cmd += ["-tags", ",".join(tags)]
    subprocess.run(cmd + ["./zzmc"], cwd=src, env=e, check=True)
    return out


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    if pid == "setup":
        # nothing to keep: checks build in scratch; this only shows that the harness builds
        scratch = tempfile.mkdtemp(prefix="mc-setup-")
        try:
            build("C01", scratch)
            return 0
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    tier = os.environ.get("VERIF_TIER", "quick")
    extra = []
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            extra += ["-worker", "0", "-workers", "1", "-v", "-only", args.pop(0)]
        else:
            extra.append(a)
    seed = os.environ.get("VERIF_SEED", "1")
    scratch = tempfile.mkdtemp(prefix="mc-" + pid + "-")
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(5))
    try:
        try:
            binary = build(pid, scratch)
        except subprocess.CalledProcessError as x:
            print("build failed:", x, file=sys.stderr)
            return 5
        cmd = [binary, "-id", pid, "-tier", tier, "-seed", seed, "-scratch", scratch,
               "-evidence", os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence")),
               "-known", os.path.join(VERIF, "known_findings.json")] + extra
        e = dict(os.environ)
        e["MC_RACE"] = os.path.join(scratch, "mcrace")
        e["TMPDIR"] = scratch
        return subprocess.run(cmd, cwd=scratch, env=e).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
