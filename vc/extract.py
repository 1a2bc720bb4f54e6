"""Mechanical extraction: /repo/src/idna.cpp -> LLVM IR text.

Nothing is written by hand: clang compiles the unmodified source; the only
substitution is the <string> header (vstd/).  Functions that carry a contract
stay separate; everything else is inlined into its callers."""
import os, re, subprocess, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
VSTD = os.path.join(os.path.dirname(HERE), "vstd")
CXX = ["clang++-18"]
FLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-exceptions", "-fno-rtti",
         "-fno-threadsafe-statics", "-fno-discard-value-names", "-Wno-everything",
         "-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,bounds",
         "-fsanitize-trap=all", "-gline-tables-only"]

class ExtractError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return r.stdout

def compile_raw(extra=()):
    return run(CXX + FLAGS + list(extra) +
               ["-isystem", VSTD, "-I", REPO + "/include", "-I", REPO + "/src",
                "-S", "-emit-llvm", "-o", "-", REPO + "/src/idna.cpp"])

def demangle(names):
    out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout
    return dict(zip(names, out.split("\n")))

LIBKEEP = re.compile(r'_ZNKSt6ranges18__binary_search_fnclITkSt16forward_iteratorPKj.*St8identity.*NS_4lessE|_ZSt13binary_searchIPKj[jD]i?EbT_S\d_RKT0_$')
DEFINE = re.compile(r'^define .*?@("[^"]+"|[^"(]+)\(')

def prepare(raw, keep):
    """keep: predicate on demangled name -> bool. Returns (optimised IR, {mangled: demangled})."""
    lines = raw.split("\n")
    names = [m.group(1).strip('"') for m in (DEFINE.match(l) for l in lines) if m]
    dem = demangle(names)
    # attribute groups: strip noinline; add alwaysinline to functions not kept
    out = []
    for l in lines:
        if l.startswith("attributes #"):
            l = l.replace(" noinline", "").replace(" optnone", "")
            out.append(l); continue
        m = DEFINE.match(l)
        if m:
            n = m.group(1).strip('"')
            l = re.sub(r' comdat(\([^)]*\))?', '', l)
            l = re.sub(r'^define (linkonce_odr |internal |weak_odr |linkonce )?', 'define ', l)
            if keep(dem[n]) or LIBKEEP.match(n):
                l = re.sub(r' (#\d+)', r' noinline \1', l, 1)
            else:
                l = l.replace('define ', 'define internal ', 1)
                l = re.sub(r' (#\d+)', r' alwaysinline \1', l, 1)
        out.append(l)
    txt = "\n".join(out)
    with tempfile.TemporaryDirectory() as td:
        a = os.path.join(td, "a.ll")
        open(a, "w").write(txt)
        txt2 = run(["opt-18" if os.path.exists("/usr/bin/opt-18") else "opt", "-S",
             "-passes=always-inline,function(sroa,early-cse,simplifycfg,early-cse,adce),always-inline,function(sroa,early-cse,simplifycfg,early-cse,adce),globaldce,function(loop-simplify,simplifycfg)", a, "-o", "-"])
    return txt2, dem
