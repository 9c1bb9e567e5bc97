"""Builds the drivers and spiff from /repo's current working tree, out of tree."""
import glob, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all"
CONFIGS = {
    # name: (library flags, driver flags, link flags)
    "san": ("-O1 -g1 -fno-omit-frame-pointer " + SAN, "-O0 -g1 -fno-omit-frame-pointer " + SAN, SAN),
    "plain": ("-O1 -g1", "-O0 -g1", ""),
}


class BuildError(Exception):
    pass


def write_ninja(cfg):
    libf, drvf, ldf = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(os.path.join(d, "obj"), exist_ok=True)
    com = f"-std=c++20 -w -I{REPO} -I{REPO}/cli/spiff -I{VERIF}/drivers"
    L = []
    dep = "\n  depfile = $out.d\n  deps = gcc\n"
    L.append(f"rule lib\n  command = clang++ {libf} {com} -MMD -MF $out.d -c $in -o $out{dep}")
    L.append(f"rule drv\n  command = clang++ {drvf} {com} -MMD -MF $out.d -c $in -o $out{dep}")
    L.append(f"rule ref\n  command = clang++ -O2 {com} -MMD -MF $out.d -c $in -o $out{dep}")
    L.append(f"rule link\n  command = clang++ {ldf} $in -o $out\n")
    objs = []

    def obj(rule, src):
        o = "obj/" + src.strip("/").replace("/", "_") + ".o"
        L.append(f"build {o}: {rule} {src}\n")
        return o

    for f in sorted(glob.glob(REPO + "/spffl/*/*.cpp")):
        objs.append(obj("lib", f))
    libs = " ".join(objs)
    L.append(f"rule ar\n  command = rm -f $out && ar crs $out $in\nbuild libspffl.a: ar {libs}\n")
    fw = obj("drv", VERIF + "/drivers/fw.cpp")
    ref = obj("ref", VERIF + "/drivers/ref.cpp")
    for f in sorted(glob.glob(VERIF + "/drivers/d_*.cpp")):
        n = os.path.basename(f)[:-4]
        L.append(f"build {n}: link {obj('drv', f)} {fw} {ref} libspffl.a\n")
    so = [obj("lib", f) for f in sorted(glob.glob(REPO + "/cli/spiff/*.cpp"))]
    L.append(f"build spiff: link {' '.join(so)} libspffl.a\n")
    for f in sorted(glob.glob(REPO + "/cli/*/*.cpp")):
        sub = f.split("/")[-2]
        if sub == "spiff":
            continue
        n = "cli_" + os.path.basename(f)[:-4]
        L.append(f"build {n}: link {obj('lib', f)} libspffl.a\n")
    txt = "".join(L)
    p = os.path.join(d, "build.ninja")
    old = open(p).read() if os.path.exists(p) else None
    if old != txt:
        with open(p, "w") as fh:
            fh.write(txt)
    return d


def build(cfg, targets, jobs=None):
    """Build targets; returns the directory that holds them."""
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        write_ninja(cfg)
        cmd = ["ninja", "-C", d] + (["-j", str(jobs)] if jobs else []) + list(targets)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-6000:])
    return d


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
