"""Shared by the checks that run external commands."""
import os, shutil, subprocess
import vc
def build_probe(ctx, what="probe"):
    p = os.path.join(ctx.scratch, what)

    r = subprocess.run(["gcc", "-O1", "-static", "-o", p, os.path.join(vc.VERIF, "harness/probe/%s.c" % what)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError(r.stdout)
    os.chmod(p, 0o755)
    return p
def install(probe, d, *names):
    for n in names:
        f = os.path.join(d, n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        os.chmod(os.path.dirname(f), 0o755)
        shutil.copy(probe, f); os.chmod(f, 0o755)
def hexed(*args):
    return " ".join("<%s>" % a.encode("utf-8", "surrogateescape").hex() for a in args) + "\n"

