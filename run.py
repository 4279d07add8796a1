#!/usr/bin/env python3
"""run.py <PROPERTY> <quick|thorough>: build the property's harnesses from /repo's working tree, explore them
exhaustively within their bounds, write evidence/<PROPERTY>.json.  Exit 0: held; exit 1 + VIOLATION line: broken;
exit 2: the check itself could not run."""
import sys, os, re, json, glob, subprocess, time, struct, shutil, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("MC_REPO", "/repo")
COMMON = ["-std=c++14", "-w", "-DCPPAD", "-DCT_USE_LAPACK", "-DHAVE_CSTDDEF", "-DBUILD_WITH_IPOPT_SUPPORT",
          "-D_GLIBCXX_ASSERTIONS", "-include", f"{V}/lib/mc_pre.h", f"-I{V}/lib",
          f"-I{R}/ct_core/include", f"-I{R}/ct_optcon/include", f"-I{R}/ct_rbd/include", f"-I{R}/ct_models/include",
          "-isystem", "/usr/include/eigen3"]
ASAN = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
ENVX = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=65536:malloc_fill_byte=255:"
        "allocator_may_return_null=1:detect_odr_violation=0",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
JOBS = int(os.environ.get("MC_JOBS", "8"))


def meta(src):
    m = {}
    for line in open(src):
        g = re.match(r"//\s*MC_(\w+):\s*(.*)$", line)
        if g:
            m[g.group(1)] = g.group(2).strip()
    return m


def compile_one(src, bdir, tier):
    m = meta(src)
    exe = os.path.join(bdir, os.path.basename(src)[:-4])
    san = m["SAN"].split() if "SAN" in m else ASAN
    extra = m.get("FLAGS", "").replace("@V@", V).replace("@R@", R).split()
    libs = m.get("LIBS", "").split()
    srcs = [src] + [os.path.join(V, x) for x in m.get("SRCS", "").split()]
    t = time.time()
    if "INSTR" in m:  # flags for compiling the harness only, not for linking and not for the runtime it is linked with
        objs = []
        for i, x in enumerate(srcs):
            o = f"{exe}.{i}.o"
            p = subprocess.run(["g++"] + COMMON + san + extra + (m["INSTR"].split() if i == 0 else []) + ["-c", x, "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                return src, None, p.stdout[-6000:]
            objs.append(o)
        srcs = objs
    cmd = ["g++"] + COMMON + san + extra + srcs + ["-o", exe] + libs + ["-lpthread"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return src, None, p.stdout[-6000:]
    return src, exe, f"{time.time()-t:.1f}s"


def read_progress(path):
    try:
        b = open(path, "rb").read()
        n = struct.unpack_from("i", b, 0)[0]
        n = max(0, min(n, 4095))
        return list(struct.unpack_from(f"{n}i", b, 4))
    except Exception:
        return []


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3:] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bdir = os.path.join(V, "build", f"{prop}-{tier}-{os.getpid()}")
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    srcs = sorted(glob.glob(f"{V}/harness/{prop}*.cpp"))
    srcs = [s for s in srcs if meta(s).get("TIER", tier) == tier]
    if not srcs:
        print("no harness for", prop)
        return 2
    known = []
    kf = f"{V}/known_findings.txt"
    if os.path.exists(kf):
        for l in open(kf):
            g = re.match(r"known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if g and g.group(1) == prop:
                known.append((g.group(2), g.group(3)))
    env = dict(os.environ, **ENVX, MC_KNOWN=",".join(k for k, _ in known), MC_SCRATCH=bdir, MC_VERIF=V)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            built = list(ex.map(lambda s: compile_one(s, bdir, tier), srcs))
        for s, exe, msg in built:
            if exe is None:
                print(f"ERROR: {s} does not compile against {R}:\n{msg}")
                return 2
            print(f"built {os.path.basename(s)} in {msg}")
        jobs = []
        for s, exe, _ in built:
            m = meta(s)
            p = subprocess.run([exe, "--list", "--tier", tier], stdout=subprocess.PIPE, text=True, env=env)
            if p.returncode != 0:
                print("ERROR: cannot list suites of", s)
                return 2
            nsh = int(m.get("SHARDS", "4"))
            if tier == "thorough":
                nsh = int(m.get("SHARDS_THOROUGH", str(max(nsh, 8))))
            for su in p.stdout.split():
                if only and su not in only:
                    continue
                for k in range(nsh):
                    jobs.append((exe, su, k, nsh, m))
        budget = 540 if tier == "quick" else 6 * 3600
        hard = 700 if tier == "quick" else 7 * 3600

        def run(j):
            exe, su, k, nsh, m = j
            base = f"{bdir}/{os.path.basename(exe)}.{su}.{k}"
            lim = m.get("EXEC_LIMIT", "30")
            cmd = [exe, "--suite", su, "--shard", f"{k}/{nsh}", "--tier", tier, "--out", base + ".json", "--progress",
                   base + ".prog", "--budget", str(budget - (time.time() - t0)), "--exec-limit", lim]
            e = dict(env, MC_SCRATCH=base + ".d")
            os.makedirs(base + ".d", exist_ok=True)
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=base + ".d",
                                   timeout=hard)
                return j, p.returncode, p.stderr.decode("utf8", "replace"), base
            except subprocess.TimeoutExpired:
                return j, -999, "hard timeout", base

        with ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(run, jobs))

        violations, errors, stats = [], [], {}
        knownhits = set()
        for j, rc, err, base in results:
            exe, su, k, nsh, m = j
            name = f"{os.path.basename(exe)}.{su}"
            st = stats.setdefault(name, dict(executions=0, transitions=0, pruned=0, states=set(), outcomes=set(),
                                             complete=True, bound="", samples=[], replayed_twice=0, wall_s=0.0))
            for l in err.splitlines():
                if l.startswith("KNOWNHIT "):
                    knownhits.add(l.split()[1])
            d = None
            if os.path.exists(base + ".json"):
                d = json.load(open(base + ".json"))
            if rc in (0, 1) and d:
                st["executions"] += d["executions"]
                st["transitions"] += d["transitions"]
                st["pruned"] += d["pruned"]
                st["replayed_twice"] += d["replayed_twice"]
                st["complete"] &= d["complete"]
                st["bound"] = d["bound"]
                st["wall_s"] += d["wall_s"]
                st["samples"] += d["samples"]
                for key in ("states", "outcomes"):
                    b = open(f"{base}.json.{key}", "rb").read()
                    st[key].update(struct.unpack(f"{len(b)//8}Q", b))
                for extra_k, v in d.get("extra", {}).items():
                    st.setdefault("extra", {}).setdefault(extra_k, 0)
                    st["extra"][extra_k] += v
                if d["fail"]:
                    violations.append((exe, su, d["fail"]["choices"], d["fail"]["msg"], d["fail"]["trace"]))
                elif rc == 1:
                    errors.append(f"{name}: exit 1 without failure record")
            elif rc == -999:
                errors.append(f"{name} shard {k}: hard timeout")
            else:
                # crash / sanitizer report / hang inside the code under test: confirm it alone before reporting
                ch = read_progress(base + ".prog")
                rf = base + ".replay"
                open(rf, "w").write(" ".join(map(str, ch)) + "\n")
                try:
                    p = subprocess.run([exe, "--suite", su, "--tier", tier, "--replay", rf, "--exec-limit", "120"],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=base + ".d",
                                       timeout=180)
                    prc, po = p.returncode, p.stdout.decode("utf8", "replace")
                except subprocess.TimeoutExpired:
                    prc, po = 5, "replay did not finish"
                if prc == 0 and rc == 5:
                    errors.append(f"{name}: execution slow but terminates when run alone")
                elif prc == 0 and rc in (4,):
                    errors.append(f"{name}: divergence: {err[-500:]}")
                elif prc == 0:
                    # depends on the preceding executions in the process (e.g. heap state): the crash itself is real
                    violations.append((exe, su, ch, f"crashed (exit {rc}); replay alone passes", err[-3000:]))
                elif prc == 4:
                    errors.append(f"{name}: divergence on replay: {po[-500:]}")
                else:
                    violations.append((exe, su, ch, f"crash or hang (exit {rc}, confirmed on replay with exit {prc})",
                                       (po + "\n" + err)[-3500:]))
        states = sum(len(s["states"]) for s in stats.values())
        execs = sum(s["executions"] for s in stats.values())
        trans = sum(s["transitions"] for s in stats.values())
        samples = []
        for n, s in stats.items():
            for x in s["samples"][:1]:
                samples.append({"suite": n, "trace": x})
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=execs,
                                distinct_outcomes=sum(len(s["outcomes"]) for s in stats.values()),
                                exhaustive=all(s["complete"] for s in stats.values()) and not violations and not errors,
                                replayed_twice_identical=sum(s["replayed_twice"] for s in stats.values()),
                                suites={n: dict(bound=s["bound"], executions=s["executions"],
                                                transitions=s["transitions"], states=len(s["states"]),
                                                distinct_outcomes=len(s["outcomes"]), complete=s["complete"],
                                                cpu_s=round(s["wall_s"], 2), **s.get("extra", {}))
                                        for n, s in stats.items()},
                                samples=samples[:12]),
                  assumptions=["values outside the enumerated alphabets are not covered",
                               "g++ 13, -O1, AddressSanitizer, Eigen and libstdc++ assertions enabled"],
                  wall_s=round(time.time() - t0, 2), violations=len(violations))
        json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
        for n, s in stats.items():
            print(f"  {n}: executions={s['executions']} transitions={s['transitions']} states={len(s['states'])} "
                  f"outcomes={len(s['outcomes'])} cpu={s['wall_s']:.1f}s complete={s['complete']}")
        for k, what in known:
            if k in knownhits:
                print(f"KNOWN-FINDING: property={prop} {what}")
        if violations:
            vdir = f"{V}/evidence/violations"
            os.makedirs(vdir, exist_ok=True)
            for i, (exe, su, ch, msg, tr) in enumerate(violations[:20]):
                f = f"{vdir}/{prop}-{os.path.basename(exe)}-{su}-{i}.txt"
                open(f, "w").write(
                    f"# property {prop}, harness {os.path.basename(exe)}, suite {su}, tier {tier}\n# {msg}\n"
                    f"# choices:\n{' '.join(map(str, ch))}\n# replay with: python3 {V}/replay.py {f}\n# trace:\n" +
                    "".join("# " + l + "\n" for l in tr.splitlines()))
                print(f"  {su}: {msg}")
                if i < 3:
                    print("    " + "\n    ".join(tr.splitlines()[-25:]))
                print(f"VIOLATION property={prop} replay={f}")
            return 1
        if errors:
            print("ERROR:", *errors, sep="\n  ")
            return 2
        print(f"{prop} {tier}: held; states={states} transitions={trans} executions={execs} "
              f"wall={time.time()-t0:.1f}s")
        return 0
    finally:
        if not os.environ.get("MC_KEEP"):
            shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
