"""C29: the probe of /verif/cfg in every cargo configuration."""
import hashlib
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FEATURES = ["decimal", "complex", "binary", "docs", "linked-hashmap"]
PROFILES = ["dev", "release"]
ALL = ["f64", "f64 unchecked", "f64 implicit", "f64 custom calls", "f32", "i32", "i128", "wrapper"]


def name(features, profile):
    return "%s, %s" % ("+".join(features) or "no features", profile)


def build(features, profile, target):
    args = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "cfg/Cargo.toml"), "--profile", profile, "-j", "2"]
    if features:
        args += ["--features", ",".join(features)]
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    p = subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout[-1500:]


def program(target, profile):
    return os.path.join(target, "debug" if profile == "dev" else "release", "cfgprobe")


def run(path, length):
    """Digest and number of lines of each section; the lines are kept in a file."""
    out = path + ".out"
    with open(out, "wb") as f:
        rc = subprocess.run([path, str(length)], stdout=f, stderr=subprocess.DEVNULL, timeout=800).returncode
    res, cur, h, n = {}, None, None, 0
    with open(out, "rb") as f:
        for line in f:
            if line.startswith(b"## "):
                if cur is not None:
                    res[cur] = (h.hexdigest(), n)
                cur, h, n = line[3:].decode().strip(), hashlib.sha1(), 0
            else:
                h.update(line)
                n += 1
    return rc, res, out


def lines(out, section):
    res, on = {}, False
    with open(out, encoding="utf-8") as f:
        for line in f:
            if line.startswith("## "):
                on = line[3:].strip() == section
            elif on:
                k, _, v = line.rstrip("\n").partition("\t")
                res[k] = v
    return res


def close(a, b):
    """The same value but for the last digits of a float."""
    if not (a.startswith("ok ") and b.startswith("ok ")):
        return False
    try:
        x, y = float(a[3:]), float(b[3:])
        return abs(x - y) <= 1e-12 * max(abs(x), abs(y))
    except ValueError:
        return False


def expected(features):
    s = {"histories", "tokens"}
    for c in ALL + (["decimal", "decimal implicit"] if "decimal" in features else []) + ["complex"] * ("complex" in features) + ["binary"] * ("binary" in features):
        s |= {c + " names", c + " expressions", c + " operations"}
        if "docs" in features:
            s.add(c + " docs")
        if "linked-hashmap" in features:
            s.add(c + " order")
    return s


def groups():
    for i in range(8):
        base = [f for k, f in enumerate(FEATURES[:3]) if i >> k & 1]
        yield i, base, [base + extra for extra in ([], ["docs"], ["linked-hashmap"], ["docs", "linked-hashmap"])]


def setup():
    def one(g):
        i, _, combos = g
        for profile in PROFILES:
            build(combos[3], profile, os.path.join(VERIF, "target/cfg", str(i)))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, groups()))


def explore(tier, fail):
    length = {"dev": 3, "release": 4 if tier == "thorough" else 3}
    violations, results, states = [], [], 0

    def one(g):
        i, _, combos = g
        target = os.path.join(VERIF, "target/cfg", str(i))
        res = []
        # all the features first
        for features in reversed(combos):
            for profile in PROFILES:
                ok, log = build(features, profile, target)
                if not ok:
                    res.append((features, profile, None, log))
                    continue
                rc, sections, out = run(program(target, profile), length[profile])
                keep = "%s.%s.%d" % (out, profile, len(res))
                os.replace(out, keep)
                res.append((features, profile, (rc, sections, keep), None))
        return res

    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, list(groups())):
            results += r
    # the most features first: it is the reference
    results.sort(key=lambda r: (-len(r[0]), r[1] != "dev"))
    if results[0][2] is None:
        fail("build failed of the probe with all the features: " + results[0][3])
    reference = {}
    for features, profile, res, log in results:
        who = name(features, profile)
        if res is None:
            violations.append({"key": "[%s] does not compile" % who, "detail": log[-600:]})
            continue
        rc, sections, out = res
        if rc != 0:
            violations.append({"key": "[%s] ended with %d" % (who, rc), "detail": "in the section after " + str(list(sections)[-1:])})
            continue
        want = expected(features)
        got = set(sections) - {"end"}
        if got != want:
            violations.append({"key": "[%s] sections" % who, "detail": "missing %s, unexpected %s" % (sorted(want - got), sorted(got - want))})
        for s, (digest, n) in sections.items():
            states += n
            # the longer texts are run in the release builds only
            ref = reference.setdefault((s, length[profile]), (digest, out, who))
            if ref[0] == digest:
                continue
            a, b = lines(ref[1], s), lines(out, s)
            bad = [k for k in list(a) + [k for k in b if k not in a] if a.get(k) != b.get(k) and not close(a.get(k, ""), b.get(k, ""))]
            for k in sorted(bad, key=len)[:3]:
                violations.append({"key": "[%s] %s: %s" % (who, s, k), "detail": "%s but %s with %s (%d differ)" % (b.get(k), a.get(k), ref[2], len(bad))})
    for r in results:
        if r[2]:
            os.remove(r[2][2])
    violations.sort(key=lambda v: len(v["key"]))
    return {
        "variant": "cfg", "states": states, "transitions": states, "traces": states,
        "samples": [name(f, p) for f, p, _, _ in results][:40], "violations": violations[:200], "total_violations": len(violations),
        "bounds": {"configurations": "all the %d: every combination of %s, in %s builds" % (len(results), ", ".join(FEATURES), " and ".join(PROFILES)),
                   "texts": "every sequence of up to %d of 16 fragments in each context (release builds: %d), and short ones next to 12 others" % (length["dev"], length["release"]),
                   "operations": "every operation of every context over a grid of 20 operands", "definitions": "every history of up to %d of 14" % length["dev"]},
        "assumptions": ["two configurations that differ only in the last digits of a float (1e-12) agree"], "notes": [], "capped": False,
    }
