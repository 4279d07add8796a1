# Lists what the generated robot models contain (links, transforms, Jacobians) as X macros for harness/P29*.cpp.
# Run once when the models change; the result is committed.
import re, sys
R = sys.argv[1] if len(sys.argv) > 1 else "/repo"
B = R + "/ct_models/include/ct/models/"
ROB = [("HyA", "ct_HyA"), ("HyQ", "HyQ"), ("InvertedPendulum", "ct_InvertedPendulum"),
       ("DoubleInvertedPendulum", "ct_DoubleInvertedPendulum"), ("QuadrotorWithLoad", "ct_quadrotor")]
out = ["// generated by tools/genmodels.py", "#pragma once"]
for d, ns in ROB:
    g = B + d + "/generated/"
    tr = open(g + "transforms.h").read()
    grp = {}
    cur = None
    for l in tr.splitlines():
        m = re.match(r"class (Motion|Force|Homogeneous)Transforms", l)
        if m:
            cur = m.group(1)
            grp[cur] = []
        m = re.match(r"\s+Type_(\w+)_X_(\w+) (\w+);", l)
        if m and cur:
            grp[cur].append((m.group(1), m.group(2)))
    idh = open(g + "inverse_dynamics.h").read()
    links = []
    for m in re.finditer(r"\(xm->fr_(\w+?)_X_fr_(\w+?)\)\(q\)", idh):
        if m.groups() not in links:
            links.append(m.groups())
    jh = open(g + "jacobians.h").read()
    jac = re.findall(r"^\s+Type_(\w+)_J_(\w+) \w+;", jh, re.M)
    nsm = re.search(r"namespace iit \{\s*namespace (\w+)", open(g + "declarations.h").read()).group(1)
    base = links[0][1]
    P = d.upper()
    def tab(n, rows):
        out.append(f"#define {P}_{n}(X) \\")
        for r in rows:
            out.append("    X(" + ", ".join(r) + ") \\")
        out.append("")
    out.append(f"#define {P}_NS {nsm}")
    out.append(f"#define {P}_BASE {base}")
    tab("LINKS", links)
    for k in ("Homogeneous", "Motion", "Force"):
        tab(k.upper(), grp[k])
    tab("JACOBIANS", jac)
    print(d, nsm, base, len(links), {k: len(v) for k, v in grp.items()}, len(jac), links, file=sys.stderr)
open("/verif/harness/robots.h", "w").write("\n".join(out) + "\n")
