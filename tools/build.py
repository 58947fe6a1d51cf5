"""Builds the code under test (from /repo's working tree) and the explorer."""
import os, subprocess, sys, hashlib, fcntl, shutil, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
MC = VERIF + "/mc"
BUILD = os.environ.get("VP_BUILD", VERIF + "/build")
WRAP = ["malloc","calloc","realloc","free","posix_memalign","aligned_alloc","memalign","_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t",
        "_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","exit","_exit","abort",*[p+f for p in ("fftw_","fftwf_") for f in ("plan_many_dft","plan_dft_1d","plan_dft_2d","plan_dft","plan_guru_dft","destroy_plan")]]
LIBS = {"kiss_d": ["-DFFT_KISS","-DFFT_DOUBLE"], "kiss_s": ["-DFFT_KISS","-DFFT_SINGLE"], "fftw_d": ["-DFFT_FFTW3","-DFFT_DOUBLE"], "fftw_s": ["-DFFT_FFTW3","-DFFT_SINGLE"]}
# back ends whose libraries are not installed, against stand-ins of their interfaces; optional: if they do not build they are left out
FAKES = {"fftw2_d": ["-DFFT_FFTW2","-DFFT_DOUBLE"], "fftw2_s": ["-DFFT_FFTW2","-DFFT_SINGLE"], "mkl_d": ["-DFFT_MKL","-DFFT_DOUBLE"], "mkl_s": ["-DFFT_MKL","-DFFT_SINGLE"]}
ASAN = ["-fsanitize=address"]
CXX = ["g++","-g1","-O1","-fPIC","-std=c++17","-fno-gnu-unique","-w","-fno-omit-frame-pointer"]

class BuildError(Exception): pass
def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()
def fresh(target, key):
    try: return os.path.exists(target) and open(target + ".key").read() == key
    except OSError: return False
def stamp(target, key): open(target + ".key","w").write(key)

def repo_sources():
    s = REPO + "/src"
    return [s + "/" + f for f in os.listdir(s) if f.endswith((".cpp",".h",".f90",".c",".hpp"))]
def dim_sources(dim):
    d = "%dd" % dim; base = ["fft%s.cpp"%d,"remap%s.cpp"%d,"fft%s_wrap.cpp"%d,"remap%s_wrap.cpp"%d,"memory.cpp","error.cpp"]
    # the repository's own list, if the Makefile changed
    try:
        for line in open(REPO + "/src/Makefile").read().replace("\\\n", " ").split("\n"):
            t = line.split("=",1)
            if len(t) == 2 and t[0].strip() == "SRC%dD" % dim:
                l = [x for x in t[1].split() if x.endswith(".cpp")]
                if l: base = l
    except OSError: pass
    return base

def build_lib(dim, name, out, native=False, mpiinc=None):
    """one shared library: repository sources of a dimension + our C++/Fortran shims"""
    work = "%s/obj_%s%dd_%s" % (BUILD, "n" if native else "", dim, name); os.makedirs(work, exist_ok=True)
    flags = {**LIBS, **FAKES}[name] + ["-DFFT_MEMALIGN=64"]
    cxx = (["mpicxx"] + CXX[1:]) if native else CXX + ASAN
    inc = ["-I", REPO + "/src", "-I", MC] if native else (["-I", MC + "/fake"] if name in FAKES else []) + ["-I", MC + "/include", "-I", REPO + "/src", "-I", MC]
    objs = []
    for f in dim_sources(dim):
        o = work + "/" + os.path.basename(f) + ".o"; sh(cxx + flags + inc + ["-c", REPO + "/src/" + f, "-o", o]); objs.append(o)
    o = work + "/shim.o"; sh(cxx + flags + ["-DVP_DIM=%d" % dim] + inc + ["-c", MC + "/shim.cpp", "-o", o]); objs.append(o)
    sh([sys.executable, MC + "/gen_shimf.py", work])
    for f in [REPO + "/src/fft%dd_wrap.f90" % dim, REPO + "/src/remap%dd_wrap.f90" % dim, work + "/shim%dd.f90" % dim]:
        o = work + "/" + os.path.basename(f) + ".fo"
        sh(["gfortran","-cpp","-g1","-O1","-fPIC","-J",work,"-I",work] + flags + ["-c", f, "-o", o], cwd=work); objs.append(o)
    link = (["mpicxx"] if native else ["g++"] + ASAN) + ["-shared","-Wl,-Bsymbolic","-Wl,-z,now","-o",out + ".tmp"] + objs
    if not native: link += ["-Wl,--wrap=" + w for w in WRAP]
    link += ["-lgfortran"]
    if native and name.startswith("fftw"): link += ["-lfftw3","-lfftw3f"]
    sh(link); os.replace(out + ".tmp", out)

def build(native=False, log=None):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock","w"); fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    mcfiles = [MC + "/" + f for f in os.listdir(MC) if os.path.isfile(MC + "/" + f)] + [MC + "/include/mpi.h"]
    shim = [MC + "/shim.cpp", MC + "/api.h", MC + "/gen_shimf.py", MC + "/include/mpi.h"]
    self_ = open(os.path.abspath(__file__)).read()
    rk = digest(repo_sources() + [REPO + "/src/Makefile"] + shim, self_)
    fk = digest([MC + "/fake/" + f for f in os.listdir(MC + "/fake")], rk)
    optional = []
    with cf.ThreadPoolExecutor(8) as ex:
        for dim in (2,3):
            for name in (FAKES if not os.environ.get('VP_NOFAKES') else ()):
                out = "%s/lib%dd_%s.so" % (BUILD, dim, name)
                if not fresh(out, fk):
                    try: os.remove(out)
                    except OSError: pass
                    optional.append((out, fk, ex.submit(build_lib, dim, name, out)))
            for name in LIBS:
                out = "%s/lib%dd_%s.so" % (BUILD, dim, name)
                if not fresh(out, rk): jobs.append((out, rk, ex.submit(build_lib, dim, name, out)))
                if native and name in ("kiss_d","fftw_s"):
                    out = "%s/nat%dd_%s.so" % (BUILD, dim, name)
                    if not fresh(out, rk): jobs.append((out, rk, ex.submit(build_lib, dim, name, out, True)))
        hk = digest(mcfiles, self_)
        exe = BUILD + "/explore"
        def host():
            objs = []
            with cf.ThreadPoolExecutor(4) as e2:
                fs = []
                for f in ("vmpi","prog","main","suites"):
                    o = BUILD + "/h_" + f + ".o"; objs.append(o)
                    fs.append(e2.submit(sh, ["g++","-g1","-O2","-std=c++17","-w","-fno-omit-frame-pointer"] + ASAN + ["-I", MC + "/include","-I", MC,"-c", MC + "/" + f + ".cpp","-o", o]))
                for f in fs: f.result()
            sh(["g++"] + ASAN + ["-rdynamic","-o", exe + ".tmp"] + objs + ["-Wl,--no-as-needed","-lfftw3","-lfftw3f","-lgfortran","-ldl","-lm"]); os.replace(exe + ".tmp", exe)
        if not fresh(exe, hk): jobs.append((exe, hk, ex.submit(host)))
        nexe = BUILD + "/native"
        if native and not fresh(nexe, hk):
            def nat(): sh(["mpicxx","-g1","-O1","-std=c++17","-w","-rdynamic","-I",MC,"-o",nexe + ".tmp", MC + "/native.cpp", MC + "/prog.cpp","-ldl"]); os.replace(nexe + ".tmp", nexe)
            jobs.append((nexe, hk, ex.submit(nat)))
        errs = []
        for out, key, f in jobs:
            try: f.result(); stamp(out, key)
            except BuildError as e: errs.append(str(e))
        for out, key, f in optional:
            try: f.result(); stamp(out, key)
            except BuildError as e: open(out + ".log","w").write(str(e))
    if errs: raise BuildError("\n".join(errs))
if __name__ == "__main__":
    try: build("native" in sys.argv)
    except BuildError as e: print(e); sys.exit(2)
