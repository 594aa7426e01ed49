"""A Go toolchain whose package syscall asks a hook before each file operation (an overlay; nothing is installed).

The hook sees what the code under test asks of the kernel and not how it is written, so the points at which files
vanish and operations fail are enumerated the same way whichever of os's functions it calls."""
import json, os, re, subprocess
import vc
OPS = "openat fstatat Getdents Fstat read write pread pwrite Close Fsync Ftruncate Renameat renameat2 unlinkat Unlinkat readlinkat Fchmod fchmodat Fchmodat mkdirat Mkdirat Seek faccessat linkat symlinkat".split()

def replacements(ctx):
    """The overlay entries for package syscall."""
    root = subprocess.run(["go", "env", "GOROOT"], env=vc.GOENV, stdout=subprocess.PIPE, text=True).stdout.strip()
    src = os.path.join(root, "src/syscall/zsyscall_linux_amd64.go")
    text, n = open(src).read(), 0
    def patch(m):
        nonlocal n
        name, args = m.group(1), m.group(2)
        if name not in OPS:
            return m.group(0)
        n += 1
        path = "path" if re.search(r"\bpath\b", args) else "oldpath" if "oldpath" in args else '""'
        fd = "fd" if re.search(r"\bfd\b", args) else "-1"
        return m.group(0) + "\n\tif err = verifFault(%s, %s, %s); err != nil {\n\t\treturn\n\t}" % (json.dumps(name), path, fd)
    text = re.sub(r"^func (\w+)\(([^)]*)\) \([^)]*\berr error\) \{", patch, text, flags=re.M)
    if n < 10:
        raise vc.CannotBuild("package syscall is not as expected")
    out = os.path.join(ctx.scratch, "zsyscall.go")
    with open(out, "w") as f:
        f.write(text)
    return {src: out, os.path.join(root, "src/syscall/zz_verif_fault.go"): os.path.join(vc.VERIF, "harness/sysfault/zz_verif_fault.go")}

def build(ctx, mains, name="ohf"):
    """The shell with the hooked package syscall and the given files added to package main."""
    rep = replacements(ctx)
    for m in mains:
        rep[os.path.join(vc.REPO, os.path.basename(m))] = os.path.join(vc.VERIF, "harness", m)
    ov = os.path.join(ctx.scratch, name + ".json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    return ctx.build_oh(name, extra=("-overlay", ov))
