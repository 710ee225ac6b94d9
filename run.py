#!/usr/bin/env python3
"""run.py <property id> quick|thorough [--replay case]

Builds what the check needs from /repo's current working tree (out of tree, in
/verif/build) and runs the check.  Exit: 0 held, 1 violated, other: no answer.
"""
import fcntl, os, subprocess, sys, time, json
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", V + "/build")
J = str(os.cpu_count() or 4)
WARN = []

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

FLAVOURS = {
    # name: (C, C++, Fortran compiler, build type, C++ flags, Fortran flags)
    "rel":  ("gcc", "g++", "gfortran", "Release", "", ""),
    "tsan": ("gcc", "g++", "gfortran", "None", "-O1 -g1 -fsanitize=thread", "-O1 -g1 -fsanitize=thread"),
    "san":  ("gcc", "g++", "gfortran", "None", "-O1 -g1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern", "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -finit-real=nan -finit-integer=-2147483647"),
}

def start_lib(flavour):
    cc, cxx, fc, bt, cf, ff = FLAVOURS[flavour]
    d = f"{B}/{flavour}"
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, CC=cc, CXX=cxx, FC=fc)
    for k in ("CFLAGS", "CXXFLAGS", "FFLAGS", "LDFLAGS"): env.pop(k, None)
    script = (f'cmake -S {R} -B {d} -G Ninja -DCMAKE_BUILD_TYPE={bt} "-DCMAKE_CXX_FLAGS={cf}" "-DCMAKE_Fortran_FLAGS={ff}" '
              f'-DBUILD_EXAMPLES=OFF -DENABLE_MATHEMATICA=OFF -DCMAKE_EXPORT_COMPILE_COMMANDS=ON > {d}/cmake.log 2>&1 && '
              f'ninja -C {d} -j{J} Himalaya_static DSZ_static > {d}/ninja.log 2>&1')
    return subprocess.Popen(["bash", "-c", script], env=env), d

def newest(paths):
    return max((os.path.getmtime(p) for p in paths if os.path.exists(p)), default=0)

def compile_objs(jobs):
    """jobs: list of (source, object, command) -- recompile when anything the depfile names is newer"""
    procs = []
    for src, obj, cmd in jobs:
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        dep, cmdf = obj + ".d", obj + ".cmd"
        deps = [src]
        if os.path.exists(dep):
            deps += open(dep).read().replace("\\\n", " ").split(":", 1)[-1].split()
        line = " ".join(cmd)
        if (os.path.exists(obj) and os.path.exists(dep) and os.path.exists(cmdf) and open(cmdf).read() == line
                and all(os.path.exists(p) for p in deps) and newest(deps) < os.path.getmtime(obj)):
            continue
        procs.append((src, line, cmdf, subprocess.Popen(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj],
                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for src, line, cmdf, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            print(f"cannot compile {src}:\n{out[-4000:]}"); ok = False
        else:
            open(cmdf, "w").write(line)
    return ok

INC = [f"-I{R}/include", f"-I{R}/source", f"-I{V}/lib", "-isystem", "/usr/include/eigen3"]

def build(pid, conf):
    flavour = conf.get("flavour", "rel")
    cxx = FLAVOURS[flavour][1]
    lib, d = start_lib(flavour)
    flags = ["-std=c++14", "-pthread"] + conf.get("cxxflags", ["-O1"])
    jobs = []
    objs = []
    od = f"{B}/obj-{pid}"
    for s in conf.get("sources", [f"checks/{pid}.cpp", "lib/vh.cpp"]):
        src = s if s.startswith("/") else f"{V}/{s}"
        if s.startswith("REPO/"): src = f"{R}/{s[5:]}"
        obj = f"{od}/{os.path.basename(src)}.o"
        objs.append(obj)
        extra = conf.get("perfile", {}).get(s, [])
        jobs.append((src, obj, [cxx] + flags + [x.replace("VERIF", V).replace("REPO", R) for x in extra] + INC))
    ok = compile_objs(jobs)
    lib.wait()
    if lib.returncode:
        print("cannot build the library from", R)
        for f in ("cmake.log", "ninja.log"):
            try: print(open(f"{d}/{f}").read()[-3000:])
            except OSError: pass
        return None
    if not ok: return None
    exe = f"{B}/{pid}"
    libs = [f"{d}/libHimalaya.a", f"{d}/libDSZ.a"]
    if newest([exe]) <= newest(objs + libs) or not os.path.exists(exe):
        r = sh([cxx] + (conf.get("ldflags_first", [])) + objs + libs + ["-lgfortran", "-pthread", "-ldl"] + conf.get("ldflags", []) + ["-o", exe])
        if r.returncode:
            print("link failed\n" + r.stdout[-4000:]); return None
    for var, a in conf.get("also", {}).items():     # companion executables from the same library
        aobjs = []; jobs2 = []
        for f in a["sources"]:
            obj = f"{od}/{os.path.basename(f)}.o"; aobjs.append(obj)
            if obj not in objs:
                jobs2.append((f"{V}/{f}", obj, [cxx] + flags + conf.get("perfile", {}).get(f, a.get("cxxflags", [])) + INC))
        if not compile_objs(jobs2): return None
        e2 = f"{B}/{pid}.{var}"
        if newest([e2]) <= newest(aobjs + libs) or not os.path.exists(e2):
            r = sh([cxx] + aobjs + libs + ["-lgfortran", "-pthread", "-ldl"] + a.get("ldflags", []) + ["-o", e2])
            if r.returncode:
                print("link failed\n" + r.stdout[-4000:]); return None
        conf.setdefault("env", {})[var] = e2
    return exe

def main():
    pid, tier = sys.argv[1], sys.argv[2]
    args = sys.argv[3:]
    if pid == "setup":      # nothing to keep: every check builds from /repo's current tree
        for t in ("cmake", "ninja", "gcc", "g++", "gfortran"):
            if subprocess.call(["which", t], stdout=subprocess.DEVNULL): print("missing", t); return 2
        return 0
    conf = json.load(open(f"{V}/checks.json")).get(pid, {})
    os.makedirs(B, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{B}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        exe = build(pid, conf)
        if exe is None: return 2
        print(f"built in {time.time()-t:.1f} s", flush=True)
    env = dict(os.environ, VERIF_TIER=tier, VERIF_DIR=V)
    env.update(conf.get("env", {}))
    env.setdefault("VERIF_SEED", "1")
    return subprocess.call([exe] + args, env=env, cwd=V)

sys.exit(main())
