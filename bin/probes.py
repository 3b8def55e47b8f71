"""Programs of safe code that would view a value as another type or outlive its owner, if the
library let them. A program the compiler refuses is held; one it accepts is run under
AddressSanitizer, which decides."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor

def run(cfg, ctxt, scratch, res, m):
    crate = os.path.join(m.ROOT, "probes")
    b = m.BUILD["asan"]
    env = dict(os.environ, RUSTFLAGS=b["flags"], CARGO_TARGET_DIR=os.path.join(m.TARGET, b["dir"]), CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", *b["args"], "--offline", "-q", "--bins", "--keep-going", "--message-format=json"], env=env, cwd=crate, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=700)
    exes, errors = {}, {}
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get("reason") == "compiler-artifact" and j.get("executable"):
            exes[j["target"]["name"]] = j["executable"]
        elif j.get("reason") == "compiler-message" and j["message"]["level"] == "error" and "bin" in j["target"]["kind"]:
            errors.setdefault(j["target"]["name"], []).append((j["message"].get("code") or {}).get("code") or j["message"]["message"][:60])
    names = sorted(f[:-3] for f in os.listdir(os.path.join(crate, "src/bin")))
    senv = dict(os.environ, **m.SAN_ENV)
    def one(n):
        try:
            p = subprocess.run([exes[n]], env=senv, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            return n, p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return n, None, "timeout"
    out, viol, cnt = {}, [], {"probe programs refused by the compiler": 0, "probe programs run without a fault": 0}
    with ThreadPoolExecutor(8) as ex:
        for n, rc, text in ex.map(one, [n for n in names if n in exes]):
            if n == "control":
                if rc != 99:
                    res["inconclusive"].append("the control program's fault was not seen")
                else:
                    cnt["control faults seen"] = 1
                continue
            src = open(os.path.join(crate, "src/bin", n + ".rs")).read().split("\n", 7)[-1]
            if rc is None:
                res["inconclusive"].append(f"probe {n}: timeout")
            elif rc == 99 or rc < 0 or rc in (97, 98):
                viol.append({"sig": f"probe:{n}", "detail": f"safe code reached a fault: {m.crash_kind(text, rc)} in {m.frames_of(text)}\n" + m.excerpt(text)[:1500], "input": src, "count": 1})
                out[n] = "fault"
            else:
                cnt["probe programs run without a fault"] += 1
                out[n] = "ran clean"
    for n in names:
        if n not in exes:
            codes = sorted(set(errors.get(n, ["no message"])))
            out[n] = "refused: " + ", ".join(codes)
            cnt["probe programs refused by the compiler"] += 1
            if n.startswith("ok_") or n == "control" or n not in errors:
                res["inconclusive"].append(f"probe {n} did not compile: {codes}")
    res["shards"].append({"stage": "probes", "evaluations": len(names), "distinct": len(names), "counters": cnt, "samples": [], "violations": viol, "inconclusive": {}})
    res["extra"]["probe_programs"] = out
