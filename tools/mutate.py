"""tools/mutate.py SEED COUNT OUT [FILE...]: random small changes to the sources, in a copy, run through the checks that should see them.
Used to look for blind spots; not part of any check. Writes one line per change: killed by which check, or SURVIVED."""
import sys, os, re, random, subprocess, shutil
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; only = sys.argv[4:]
W = "/tmp/mut%d" % seed; REPO = W + "/repo"; V = W + "/verif"
A = "src/atm/"; B = "src/base/"
MAP = {A+"Connectivity.cpp": "C01 C04 C02 C03", A+"Grid.cpp": "C25 C26 C01 C15 C14 C21 C10 C05 C16 C03", A+"GridPatch.cpp": "C25 C26 C01 C16 C10 C05 C21 C03", A+"GridGLL.cpp": "C14 C15 C22 C16",
 A+"GridCSGLL.cpp": "C15 C01 C04 C10 C22 C16", A+"GridCartesianGLL.cpp": "C15 C01 C04 C10 C22 C16 C21", A+"GridPatchGLL.cpp": "C15 C04 C22 C10 C17", A+"GridPatchCSGLL.cpp": "C15 C21 C10 C22 C04", A+"GridPatchCartesianGLL.cpp": "C15 C21 C10 C22 C04",
 A+"CubedSphereTrans.cpp": "C15", A+"LinearColumnOperator.cpp": "C14", A+"LinearColumnOperatorFEM.cpp": "C14", A+"HorizontalDynamicsFEM.cpp": "C22 C17", A+"HorizontalDynamicsFEMV2.cpp": "C22 C17", A+"VerticalDynamicsFEM.cpp": "C19 C17 C16",
 A+"TimestepSchemeStrang.cpp": "C16 C18", A+"TimestepSchemeERK.cpp": "C16 C18", A+"TimestepSchemeARS343.cpp": "C16 C18", A+"TimestepSchemeARK232.cpp": "C16 C18", A+"TimestepSchemeSSP3332.cpp": "C16 C18", A+"TimestepSchemeARS443.cpp": "C16 C18", A+"TimestepSchemeGARK2.cpp": "C16 C18", A+"TimestepSchemeSplitExp.cpp": "C16 C18",
 A+"Model.cpp": "C09 C11 C05 C21 C18", A+"OutputManager.cpp": "C09 C10", A+"OutputManagerReference.cpp": "C10 C09", A+"OutputManagerComposite.cpp": "C05 C06", A+"EquationSet.cpp": "C21 C10", A+"HeldSuarezPhysics.cpp": "C20", A+"OutputManagerChecksum.cpp": "C26 C09", A+"FluxCorrectionFunction.cpp": "C13", A+"Direction.cpp": "C01 C03", B+"GaussQuadrature.cpp": "C13", B+"GaussLobattoQuadrature.cpp": "C13", B+"DataArray2D.h": "C12", B+"DataArray4D.h": "C12", B+"DataStruct.h": "C12 C05", A+"PatchBox.h": "C01", A+"GridGLL.h": "C14", B+"MathHelper.h": "C13", A+"PhysicalConstants.h": "C21 C05", A+"TimestepSchemeARS222.cpp": "C16 C18", A+"TimestepSchemeARS232.cpp": "C16 C18", A+"VerticalStretch.h": "C15", A+"GridSpacing.cpp": "C13 C15", A+"WorkflowProcess.cpp": "C09", A+"ConsolidationStatus.cpp": "C02 C03",
 B+"TimeObj.cpp": "C07 C08", B+"DataContainer.cpp": "C12", B+"DataArray1D.h": "C12", B+"DataArray3D.h": "C12", B+"LegendrePolynomial.cpp": "C13", B+"PolynomialInterp.cpp": "C13", B+"LinearAlgebra.cpp": "C13", B+"CommandLine.h": "C11", A+"TempestInitialize.h": "C11"}
rng = random.Random(seed)
if not os.path.isdir(W):
    os.makedirs(W); subprocess.check_call(["cp", "-a", "/repo", REPO]); subprocess.check_call(["git", "clone", "-q", "/verif", V])
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" \+= ", " -= "), (r" -= ", " += "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" == ", " != "), (r" && ", " || "), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+1\b", "+0"), (r"-1\b", "-0"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "1.0"), (r"\biA\b", "iB"), (r"\biB\b", "iA"), (r"\bk\b", "0"), (r"DataLocation_REdge", "DataLocation_Node"), (r"DataLocation_Node", "DataLocation_REdge"), (r"\bi\+1\b", "i"), (r"^(\t+)([A-Za-z_].*;)$", r"\1;"), (r"\bUIx\b", "VIx"), (r"Alpha", "Beta"), (r"\bdDeltaT\b", "0.5*dDeltaT")]
FLAGS = "-std=gnu++17 -O1 -w -I%s/src/base -I%s/src/atm -I%s/engine/include -DTEMPEST_LAPACK_FORTRAN_INTERFACE -DTEMPEST_NETCDF -DTEMPEST_MPIOMP" % (REPO, REPO, V)
def obj(f):
    src = os.path.join(REPO, f)
    if f.endswith(".h"): return open(src).read()
    r = sh("g++ %s -c %s -o %s/x.o && objdump -d --no-show-raw-insn %s/x.o | md5sum; objdump -s -j .rodata -j .data %s/x.o | md5sum" % (FLAGS, src, W, W, W))
    return None if r.returncode or "error:" in r.stderr else r.stdout
files = only or list(MAP)
done = 0; tries = 0
log = open(out, "a")
while done < count and tries < 40*count:
    tries += 1; f = rng.choice(files); p = os.path.join(REPO, f); s = open(p).read(); lines = s.split("\n"); i = rng.randrange(len(lines)); l = lines[i]
    if not l.startswith("\t") or l.strip().startswith(("//", "*", "#", "_EXC")) or "EXCEPTION" in l or "Announce" in l: continue
    ops = [o for o in OPS if re.search(o[0], l)]
    if not ops: continue
    o = rng.choice(ops); m = rng.choice(list(re.finditer(o[0], l))); nl = l[:m.start()] + m.expand(o[1]) + l[m.end():]
    base = obj(f)
    if base is None: log.write("NOCOMPILE %s\n" % f); log.flush(); files = [x for x in files if x != f]; continue
    lines[i] = nl; open(p, "w").write("\n".join(lines)); r = obj(f)
    if r is None or r == base: open(p, "w").write(s); continue
    done += 1; res = "SURVIVED"
    for c in MAP.get(f, "C16 C17").split():
        try: q = sh("cd %s && VERIF_REPO=%s timeout 600 taskset -c %s python3 check.py %s quick" % (V, REPO, os.environ.get("MUTCPUS", "0-3"), c))
        except Exception as e: res = "ERR %s" % e; break
        if q.returncode == 1 and "VIOLATION" in q.stdout: res = "killed " + c; break
        if q.returncode != 0: res = "noanswer %s %d" % (c, q.returncode); break
    log.write("%s\t%s:%d\t%s\t=>\t%s\n" % (res, f, i+1, l.strip(), nl.strip())); log.flush()
    open(p, "w").write(s)
