"""rewrites the 'fixed:' part of known_findings.txt from the fix commits in /repo (finding: lines are kept)"""
import subprocess, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
RULES = [  # first match wins: (pattern in the subject, property)
    ("rectangular centre matrix", "C29"), ("tensor() accepted site=-1", "C28"), ("MPS.measure() accepted", "C28"), ("a gate of the wrong dimension", "C28"), ("MPS.applyMPO() left a half", "C28"),
    ("accepted an MPO with more sites", "C28"), ("raised a KeyError from the formatting", "C28"), ("orthonormalizeSVD did not check", "C28"), ("in-place applyMPO overwrote", "C28"),
    ("matchState", "C24"), ("computedx", "C24"), ("fromList", "C03"), ("svd fallback", "C02"), ("MPS.truncate ignored schmidt_thresh and D whenever", "C04"), ("directsum", "C05"), ("addMPS", "C05"), ("-mps", "C05"),
    ("mps+=", "C05"), ("conjugate", "C05"), ("mps*=", "C05"), ("MPS.copy", "C05"), ("overlap ignored", "C06"), ("measureMatrixElementList", "C06"),
    ("matrixElementLocal", "C06"), ("MPS.measure failed", "C07"), ("numpy integers", "C03"), ("complex gates", "C08"), ("applyTwoSiteGate", "C08"),
    ("applyMPO", "C09"), ("canonizeMPS", "C10"), ("TransferOperator and Mixed", "C12"), ("MixedUnitcell", "C12"), ("TMeigs", "C12"),
    ("truncation of infinite", "C11"), ("MPS.truncate ignored", "C11"), ("regauge(gauge", "C11"), ("TFI_2", "C13"), ("XXZflipped", "C13"), ("SpinlessFermions", "C13"),
    ("HubbardChain", "C13"), ("fromMPO", "C13"), ("LiebLiniger", "C13"), ("twoSiteGate", "C14"), ("mixes", "C13"), ("an MPO built from a list", "C13"), ("TDVPupdate", "C26"), ("HomogeneousDiscretizedBosonEngine", "C21"), ("getLprojected", "C22"), ("half-infinite environments", "C22"), ("SFwick", "C24"), ("bisection", "C24"), ("MPS.imag", "C05"), ("engines could not move", "C15"), ("HAproductZeroSite", "C15"),
    ("FinegrainDolfi", "C09"), ("LanczosEngine raised", "C16"), ("Lanczos time evolution", "C17"), ("evolveTensorsolve_ivp", "C17"), ("evolveTensorRadau", "C17"),
    ("eigsh", "C16"), ("lobpcg", "C16"), ("gexpmv", "C17"), ("single-site DMRG left", "C18"), ("lanczos and lanczosbond", "C16"),
    ("backwards in time", "C20"), ("outdated environments", "C20"), ("verbose=0", "C19"), ("numsteps=0", "C19"), ("TimeEvolutionEngine.TEBD", "C19"),
    ("checkpoint", "C23"), ("MPS.load", "C23"), ("VUMPS", "C21"), ("IDMRG", "C21"), ("getBoundaryHams", "C22"), ("GMRES", "C22"), ("Pseudo", "C22"), ("wick", "C24"), ("Wick", "C24"),
    ("binarybasis", "C24"), ("imag", "C05"), ("MPSinit", "C27"), ("dtype", "C03"),
]
import sys
EXTRA = {}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bb28631.."], text=True).splitlines()
out = ["# genuine defects found by these checks.  'fixed:' entries were repaired in /repo and suppress nothing;",
       "# 'finding:' entries (property=<id> key=<key> text) are reported as KNOWN-FINDING and not as violations."]
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    for pat, pr in RULES:
        if pat in s:
            out.append("fixed: property=%s %s %s" % (pr, h, s))
            break
    else:
        sys.exit("no property for: " + s)
p = os.path.join(here, "known_findings.txt")
old = [l.rstrip("\n") for l in open(p)] if os.path.exists(p) else []
out += [l for l in old if l.startswith("finding:")]
open(p, "w").write("\n".join(out) + "\n")
print(len(out) - 2)
