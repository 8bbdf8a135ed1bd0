"""Extraction: compiles a contract harness together with the real /repo sources to LLVM IR (for the
verifier) and to a shared object (for replaying counterexamples)."""
import os, subprocess, re, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = ["-I" + VERIF + "/contracts", "-I" + VERIF + "/stubs", "-I" + VERIF + "/stubs/gen", "-I" + REPO + "/lib/common/include",
       "-I" + REPO + "/lib/units/include", "-I" + REPO + "/lib/core/include", "-I" + REPO + "/lib/variable/include", "-I" + REPO + "/lib/dataset/include", "-I" + REPO + "/lib", "-I/usr/include/eigen3"]
COMMON = ["-std=c++17", "-DNDEBUG", "-w", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_MAX_ALIGN_BYTES=0", "-ftemplate-depth=2000", "-ffp-contract=off"]


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), (p.stderr or p.stdout)[-4000:]))
    return p.stdout


NOINLINE_DEFAULT = r"std::__cxx11::basic_string|to_string|std::basic_ostream|std::__cxx11::basic_ostringstream|std::__cxx11::basic_stringstream|std::operator\+<|__throw|::Unit::name|(Error|Exception)<.*>::|std::runtime_error|std::logic_error|std::basic_string_view<.*>::(compare|find)|::\w*Error::\w*Error"


def noinline(text, rx):
    names = re.findall(r'^define[^@\n]*@("[^"]*"|[-a-zA-Z$._0-9]+)\(', text, re.M)
    raw = [n.strip('"') for n in names]
    dem = subprocess.run(["llvm-cxxfilt"], input="\n".join(raw), capture_output=True, text=True).stdout.split("\n")
    hit = {n for n, d in zip(names, dem) if rx.search(d)}

    def f(m):
        l = m.group(0)
        n = m.group(1)
        if n not in hit or "alwaysinline" in l: return l
        # add noinline in front of the attribute group
        k = re.search(r" (#\d+)( comdat.*| personality.*| align.*| \{.*|)", l)
        l2 = re.sub(r" (#\d+)(?=( comdat| personality| align| \{|$))", r" noinline \1", l, count=1)
        return l2
    return re.sub(r'^define[^@\n]*@("[^"]*"|[-a-zA-Z$._0-9]+)\(.*$', f, text, flags=re.M), sorted(hit)


def build_ir(src, out, entries, opaque="", defines=(), passes=None, nodefault=False):
    ll = out + ".0.ll"
    run(["clang++", *COMMON, "-DVERIF_IR", "-fno-access-control", *defines, "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-unroll-loops",
         "-fno-strict-aliasing", "-S", "-emit-llvm", *INC, src, "-o", ll])
    text = open(ll).read()
    # alwaysinline/inlinehint attributes do not matter; optnone never present at -O1
    rx = re.compile("|".join(x for x in ([] if nodefault else [NOINLINE_DEFAULT]) + [opaque] if x) or r"$^")
    # drop alwaysinline so that opaque functions can stay out of line
    text, hit = noinline(text, rx)
    text = re.sub(r"^(attributes #\d+ = \{.*)$", lambda m: m.group(1).replace(" alwaysinline ", " "), text, flags=re.M)
    open(ll, "w").write(text)
    fin = out + ".ll"
    p = passes or "internalize,globaldce,cgscc(inline),function(sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg,adce),globaldce"
    run(["opt", "-S", "-passes=" + p, "-internalize-public-api-list=" + ",".join(entries), "-inline-threshold=1000000", ll, "-o", fin])
    os.unlink(ll)
    return fin


def build_so(src, out, defines=(), opt="-O1"):
    so, obj = out + ".so", out + ".o"
    run(["g++", *COMMON, "-DVERIF_REPLAY", "-fno-access-control", *defines, opt, "-fPIC", "-c", "-ffp-contract=off", *INC, src, "-o", obj])
    # library functions which the harness never reaches abort
    und = [l.split()[-1] for l in run(["nm", "-u", obj]).split("\n") if re.search(r" _ZNK?(5(scipp|units)|4llnl)", " " + l.split()[-1] if l.split() else "")]
    extra = []
    if und:
        asm = out + ".missing.s"
        open(asm, "w").write("".join("\t.globl %s\n\t.type %s,@function\n%s:\n\tcall abort@PLT\n" % (x, x, x) for x in und) + '\t.section .note.GNU-stack,"",@progbits\n')
        extra = [asm]
    run(["g++", "-shared", "-fPIC", obj, *extra, "-o", so, "-lpthread"])
    os.unlink(obj)
    return so
