#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   decide one property (see DESIGN.md)
   check.py --replay <file>         re-execute one recorded case"""
import sys, os, subprocess, json, time, tempfile, shutil, fnmatch, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ENIGMA_REPO", "/repo")
T = os.path.join(REPO, "trunk")
NSH = 8

def incs():
    r = []
    for base in ("src", "dependencies"):
        for d, sub, _ in os.walk(os.path.join(T, base)):
            sub.sort(); r.append("-I" + d)
    return r

def build(pid, work):
    src = os.path.join(V, "harness", pid + ".cpp")
    flags = ["-std=c++14", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
             "-I/usr/include/eigen3", "-I" + os.path.join(V, "harness")]
    txt = open(src).read()
    m = re.search(r"^// *FLAGS: *(.*)$", txt, re.M)
    if m: flags += m.group(1).split()
    exe = os.path.join(work, pid)
    p = subprocess.run(["g++"] + flags + incs() + [src, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[:6000]); print("BUILD FAILED for", pid); sys.exit(2)
    return exe

def env():
    e = dict(os.environ); e["MALLOC_PERTURB_"] = "165"; e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e

class Res:
    def __init__(s): s.F=[]; s.C=[]; s.D={}; s.S=[]; s.H=set(); s.O=set(); s.end=None

def parse(path, res):
    end = None
    if not os.path.exists(path): return None
    for l in open(path, errors="replace"):
        k = l[:2]
        if k == "H ": res.H.add(l[2:-1])
        elif k == "O ": res.O.add(l[2:-1])
        elif k == "F ":
            a = l[2:].rstrip("\n").split(" ", 2); res.F.append((int(a[0]), a[1], a[2] if len(a) > 2 else ""))
        elif k == "D ":
            a = l[2:].rstrip("\n").split(" ", 1); res.D[int(a[0])] = a[1] if len(a) > 1 else ""
        elif k == "S ":
            a = l[2:].rstrip("\n").split(" ", 1); res.S.append((int(a[0]), a[1] if len(a) > 1 else ""))
        elif k == "C ":
            a = l.split(); res.C.append((int(a[1]), int(a[2])))
        elif l.startswith("END "):
            end = [int(x) for x in l.split()[1:]]
    return end

SIG = {6: "abort", 8: "fpe", 11: "segv", 26: "hang", 7: "bus", 4: "ill"}

def run_once(exe, sec, thorough, shard, nsh, after, only, work, tmo=6000):
    d = tempfile.mkdtemp(dir=work); out = os.path.join(d, "out.txt")
    cmd = [exe, "run", sec, out, "1" if thorough else "0", str(shard), str(nsh), str(after)]
    if only: cmd.append(",".join(map(str, only)))
    try:
        p = subprocess.run(cmd, cwd=d, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=tmo)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -999
    res = Res(); end = parse(out, res)
    shutil.rmtree(d, ignore_errors=True)
    return rc, res, end

def run_shard(exe, sec, thorough, shard, nsh, work):
    """Runs one shard, resuming behind crashing cases. Returns (Res, totals, err)."""
    tot = Res(); after = -1; sums = [0, 0, 0, 0, 0, 0]
    for attempt in range(40):
        rc, res, end = run_once(exe, sec, thorough, shard, nsh, after, None, work)
        tot.F += res.F; tot.S += res.S; tot.H |= res.H; tot.O |= res.O
        if end is not None:
            sums[0] = end[0]
            for i in range(1, 6): sums[i] += end[i]
            return tot, sums, None
        if not res.C: return tot, sums, "section %s shard %d ended with status %s and no record" % (sec, shard, rc)
        idx, sig = res.C[-1]
        if idx < 0: tot.F.append((-1, "setup-" + SIG.get(sig, str(sig)), "outside any case")); return tot, sums, None
        tot.F.append((idx, "crash-" + SIG.get(sig, str(sig)), "signal %d" % sig))
        after = idx
    return tot, sums, None

def load_known(pid):
    ks = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid: ks.append((m.group(2), m.group(3)))
    return ks

def replay_cases(exe, sec, thorough, idxs, work):
    """Re-executes cases in fresh processes -> {idx: (desc, {kind: detail})}."""
    out = {}; todo = sorted(set(i for i in idxs if i >= 0))
    if -1 in idxs: out[-1] = ("(section set-up)", {"setup": ""})
    while todo:
        rc, res, end = run_once(exe, sec, thorough, 0, 1, -1, todo, work)
        for i in todo:
            if i in res.D: out.setdefault(i, (res.D[i], {}))
        for i, k, d in res.F:
            if i in out: out[i][1][k] = d
        if end is not None: break
        if not res.C: break
        i, sig = res.C[-1]
        out.setdefault(i, (res.D.get(i, ""), {}))[1]["crash-" + SIG.get(sig, str(sig))] = "signal %d" % sig
        todo = [j for j in todo if j > i]
    return out

def main():
    if sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2])); pid = rp["property"]
        work = tempfile.mkdtemp(prefix="vk-")
        try:
            exe = build(pid, work)
            o = replay_cases(exe, rp["section"], rp["tier"] == "thorough", [rp["index"]], work)
            d, ks = o.get(rp["index"], ("?", {}))
            print("case:", d)
            for k, t in ks.items(): print("FAILS %s: %s" % (k, t))
            if not ks: print("passes now")
            sys.exit(1 if ks else 0)
        finally: shutil.rmtree(work, ignore_errors=True)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vk-")
    try: sys.exit(decide(pid, tier, thorough, seed, t0, work))
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(pid, tier, thorough, seed, t0, work):
    exe = build(pid, work); tb = time.time() - t0
    secs = [l.split("\t") for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    jobs = [(s[0], k) for s in secs for k in range(NSH)]
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: run_shard(exe, j[0], thorough, j[1], NSH, work), jobs))
    per = {}; err = None
    for (s, k), (res, sums, e) in zip(jobs, rs):
        if e: err = e; print("ERROR:", e)
        a = per.setdefault(s, dict(total=0, cases=0, tr=0, traces=0, capped=0, H=set(), O=set(), F=[], S=[]))
        a["total"] = max(a["total"], sums[0]); a["cases"] += sums[1]; a["tr"] += sums[2]; a["traces"] += sums[3]; a["capped"] |= sums[5]
        a["H"] |= res.H; a["O"] |= res.O; a["F"] += res.F; a["S"] += res.S
    known = load_known(pid); knownHit = {}; viol = []
    for s, b in secs:
        a = per[s]
        if not a["F"]: continue
        idxs = sorted(set(f[0] for f in a["F"]))[:3000]
        rep = replay_cases(exe, s, thorough, idxs, work)
        first = {}
        for i, k, d in a["F"]: first.setdefault(i, []).append((k, d))
        for i in idxs:
            desc, ks = rep.get(i, ("?", {}))
            if not ks:
                print("DIVERGENCE: section %s case %d failed (%s) but not on replay" % (s, i, first[i])); 
                ks = dict(first[i]) ; desc += " [not reproduced in isolation]"
            for k, d in ks.items():
                key = "%s|%s|%s" % (s, desc, k)
                hit = [x for x in known if fnmatch.fnmatchcase(key.replace("[", "(").replace("]", ")"), x[0].replace("[", "(").replace("]", ")"))]
                if hit: knownHit[hit[0]] = knownHit.get(hit[0], 0) + 1
                else: viol.append((s, i, k, d, desc))
    states = sum(len(per[s]["H"]) for s, _ in secs); outs = sum(len(per[s]["O"]) for s, _ in secs)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=states, transitions=sum(per[s]["tr"] for s, _ in secs),
        traces_validated_against_impl=sum(per[s]["traces"] for s, _ in secs),
        cases_executed=sum(per[s]["cases"] for s, _ in secs), distinct_outcomes=outs,
        exhaustive=not err and not any(per[s]["capped"] for s, _ in secs),
        sections=[dict(name=s, bounds=b, cases=per[s]["cases"], enumerated=per[s]["total"], states=len(per[s]["H"]),
                       transitions=per[s]["tr"], traces=per[s]["traces"], distinct_outcomes=len(per[s]["O"])) for s, b in secs],
        samples=[dict(section=s, case=c, index=i) for s, _ in secs for i, c in sorted(per[s]["S"])[:3]]),
        assumptions=["double precision (the instantiation the tests use)", "bounds as stated per section",
                     "states = distinct canonical case/model states; transitions = operations executed on the real code; traces = complete cases compared with the oracle"],
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: build %.1fs total %.1fs; states=%d transitions=%d traces=%d outcomes=%d" % (pid, tier, tb, time.time() - t0, states, ev["coverage"]["transitions"], ev["coverage"]["traces_validated_against_impl"], outs))
    for s, b in secs:
        a = per[s]; print("  section %-22s cases=%d/%d states=%d outcomes=%d ops=%d" % (s, a["cases"], a["total"], len(a["H"]), len(a["O"]), a["tr"]))
    for (k, txt), n in knownHit.items(): print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, txt, n))
    if viol:
        rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True); shown = 0; seen = {}
        for s, i, k, d, desc in viol:
            n = seen[(s, k)] = seen.get((s, k), 0) + 1
            if n > 3 or shown > 30: continue
            f = os.path.join(rd, "%s-%s-%d-%s.json" % (pid, re.sub(r"\W+", "_", s), i, re.sub(r"\W+", "_", k)))
            json.dump(dict(property=pid, tier=tier, section=s, index=i, kind=k, detail=d, case=desc), open(f, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, f)); print("    %s | %s | %s | %s" % (s, desc[:700], k, d[:500])); shown += 1
        print("total violations: %d" % len(viol))
        for (s, k), n in seen.items(): print("    %s/%s: %d" % (s, k, n))
        return 1
    if err: return 2
    return 0
main()
