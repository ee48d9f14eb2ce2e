# Builds the Python package of /repo's working tree into a directory.
import os, shutil, subprocess, sysconfig
def _incs():
    r = subprocess.run(["/usr/bin/python3.12", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True)
    inc = [r.stdout.strip()]
    for d in ("/usr/include", "/usr/lib/python3/dist-packages/pybind11/include", "/usr/local/include"):
        if os.path.isdir(os.path.join(d, "pybind11")): inc.append(d); break
    return inc
def jobs(repo, out, modules, occ_inc="/usr/include/opencascade", libs=()):
    src = os.path.join(repo, "python", "frackit"); res = []
    for m in sorted(os.listdir(src)):
        d = os.path.join(src, m)
        if not os.path.isdir(d) or (modules != "all" and m not in modules): continue
        o = os.path.join(out, "frackit", m); os.makedirs(o, exist_ok=True)
        for f in os.listdir(d):
            if f.endswith(".py"): shutil.copy(os.path.join(d, f), o)
            if f.startswith("_") and f.endswith(".cc"):
                cmd = ["g++", "-w", "-std=c++17", "-O0", "-shared", "-fPIC", "-fvisibility=hidden"]
                cmd += ["-I" + i for i in _incs()[1:]] + ["-I" + _incs()[0], "-I" + repo, "-I" + occ_inc]
                cmd += [os.path.join(d, f), "-o", os.path.join(o, f[:-3] + ".so")] + ["-l" + l for l in libs]
                res.append(("python module " + m, cmd))
    return res
