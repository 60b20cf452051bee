"""Build graph of the harnesses: writes build/build.ninja from targets.py and runs ninja.

Everything is compiled from /repo's working tree; nothing of /repo is copied.  Besides
ninja's time stamps the contents of every /repo source are hashed, so that a file that
changed without a newer time stamp is rebuilt as well."""
import glob, hashlib, json, os, subprocess, sys

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
GEN = os.path.join(B, "gen")

COMMON = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-pipe", "-w",
          "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-fPIC"]
VARIANT = {
    "asan": ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow",
             "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}

class Lib:
    def __init__(self, srcs=(), incs=(), libs=(), flags=(), link=(), pch=None, order=()):
        self.srcs, self.incs, self.libs = list(srcs), list(incs), list(libs)
        self.flags, self.link, self.pch, self.order = list(flags), list(link), pch, list(order)

class Target(Lib):
    def __init__(self, *a, san="asan", **k):
        super().__init__(*a, **k)
        self.san = san

def write_if_changed(path, text):
    try:
        if open(path).read() == text: return False
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = f"{path}.{os.getpid()}.tmp"
    with open(tmp, "w") as f: f.write(text)
    os.replace(tmp, path)
    return True

def closure(libs, name, key):
    """Names of libs reachable from target/lib `key`, in dependency order."""
    seen, out = set(), []
    def go(l):
        for d in l.libs:
            if d not in seen:
                seen.add(d); go(libs[d]); out.append(d)
    go(key)
    return out

def esc(p): return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")

def emit(libs, targets, protos):
    o = []
    w = o.append
    w("ninja_required_version = 1.10\nbuilddir = build_state\n")
    w("rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $out\n")
    w("rule pch\n  command = g++ $flags -MMD -MF $out.d -x c++-header -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = PCH $out\n")
    w("rule link\n  command = g++ $flags -o $out @$out.rsp $libs\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = LINK $out\n")
    w("rule proto\n  command = protoc --cpp_out=$dir -I$inc $in\n  description = PROTO\n")
    pdir, pinc, pfiles = protos
    outs = []
    for f in pfiles:
        b = os.path.splitext(os.path.basename(f))[0]
        outs += [f"{pdir}/{b}.pb.cc", f"{pdir}/{b}.pb.h"]
    if pfiles:
        w(f"build {' '.join(map(esc, outs))}: proto {' '.join(map(esc, pfiles))}\n  dir = {pdir}\n  inc = {pinc}\n")
    w(f"build protos: phony {' '.join(map(esc, outs))}\n")
    done = {}
    def flags_of(l, san):
        fl = COMMON + VARIANT[san]
        for d in closure(libs, None, l): fl = fl + libs[d].flags
        fl = fl + l.flags
        incs = list(l.incs)
        for d in reversed(closure(libs, None, l)):
            incs += [i for i in libs[d].incs if i not in incs]
        return fl + [f"-I{i}" for i in incs]
    def objects(name, l, san):
        key = (name, san)
        if key in done: return done[key]
        fl = flags_of(l, san)
        order = set(l.order)
        for d in closure(libs, None, l): order |= set(libs[d].order)
        if "protos" in order or any("protos" in libs[d].order for d in closure(libs, None, l)):
            order = {"protos"}
        ord_ = (" || " + " ".join(sorted(order))) if order else ""
        pch_dep, pch_flag = "", []
        if l.pch:
            g = f"obj/{san}/{name}/{os.path.basename(l.pch)}.gch"
            w(f"build {g}: pch {esc(l.pch)}{ord_}\n  flags = {' '.join(fl)}\n")
            pch_flag = ["-Winvalid-pch", "-include", f"{B}/{g[:-4]}"]
            write_if_changed(f"{B}/{g[:-4]}", f'#include "{l.pch}"\n')
            pch_dep = f" | {g}"
        objs = []
        for s in l.srcs:
            short = s.replace(R + "/", "repo/").replace(V + "/", "verif/").replace("/", "__")
            obj = f"obj/{san}/{name}/{short}.o"
            w(f"build {esc(obj)}: cxx {esc(s)}{pch_dep}{ord_}\n  flags = {' '.join(pch_flag + fl)}\n")
            objs.append(obj)
        done[key] = objs
        return objs
    for name, t in targets.items():
        objs = objects("t_" + name, t, t.san)
        link = list(t.link)
        for d in reversed(closure(libs, None, t)):
            objs = objs + objects(d, libs[d], t.san)
            link += [x for x in libs[d].link if x not in link]
        w(f"build bin/{name}: link {' '.join(map(esc, objs))}\n  flags = {' '.join(VARIANT[t.san])} -rdynamic\n  libs = {' '.join(link)} -pthread\n")
    w("build all: phony " + " ".join(f"bin/{n}" for n in targets) + "\n")
    write_if_changed(f"{B}/build.ninja", "\n".join(o))

EXT = (".hpp", ".cpp", ".h", ".c", ".proto", ".msg", ".srv", ".ipp", ".cc")
def repo_hashes():
    out = {}
    for top in ("common", "external", "openscenario", "simulation", "test_runner", "mock"):
        for d, ds, fs in os.walk(os.path.join(R, top)):
            ds[:] = [x for x in ds if not x.startswith(".")]
            for f in fs:
                if f.endswith(EXT):
                    p = os.path.join(d, f)
                    try: out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
                    except OSError: pass
    return out

def refresh():
    """Drop objects that depend on a /repo file whose content changed (or vanished)
    whatever its time stamp says."""
    path = f"{B}/repo_hashes.json"
    new = repo_hashes()
    try: old = json.load(open(path))
    except (OSError, ValueError): old = None
    if old is not None:
        changed = {p for p in set(old) | set(new) if old.get(p) != new.get(p)}
        if changed and os.path.exists(f"{B}/.ninja_deps") or changed and os.path.exists(f"{B}/build_state/.ninja_deps"):
            deps = subprocess.run(["ninja", "-C", B, "-t", "deps"], capture_output=True, text=True).stdout
            cur, bad = None, set()
            for line in deps.splitlines():
                if line and not line.startswith(" "):
                    cur = line.split(": #deps")[0]
                elif line.strip() in changed:
                    bad.add(cur)
            for b in bad:
                try: os.remove(os.path.join(B, b))
                except OSError: pass
    return path, new

def build(names, jobs=None):
    import targets, msggen
    os.makedirs(f"{B}/bin", exist_ok=True)
    import fcntl
    lock = open(f"{B}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    msggen.generate(R, V, f"{GEN}/msgs")
    libs, tg, protos = targets.define(R, V, GEN)
    os.makedirs(protos[0], exist_ok=True)
    path, new = refresh()
    emit(libs, tg, protos)
    cmd = ["ninja", "-C", B] + os.environ.get("VERIF_NINJA", "").split() + ([f"-j{jobs}"] if jobs else []) + [f"bin/{n}" for n in names]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode == 0:
        write_if_changed(path, json.dumps(new, sort_keys=True))
    return r.returncode, r.stdout

if __name__ == "__main__":
    import targets
    names = sys.argv[1:]
    if not names:
        import msggen
        names = list(targets.define(R, V, GEN)[1])
    rc, out = build(names)
    sys.stdout.write(out if rc else "\n".join(out.splitlines()[-2:]) + "\n")
    sys.exit(rc)
