"""C20: the REPL. Every sequence of actions (lines, keys, events) up to a depth is executed by the real program
(the explorer of stubs/crossterm forks it at each point where it asks for an event); what it shows after each
action is compared with the model of a session below."""
import multiprocessing
import os
import re
import shutil
import subprocess
import tempfile
import time
from decimal import Decimal

PROMPT = ">>> "
NAMES = ("pi", "e")


class Bad(Exception):
    pass


# ---------------------------------------------------------------- expressions
def literal(kind, s):
    """What the assignment accepts: one number."""
    if kind == "integer":
        if re.fullmatch(r"[+-]?[0-9]+", s):
            return int(s)
    elif kind == "binary":
        if re.fullmatch(r"b[01]+", s):
            return int(s[1:], 2)
        if re.fullmatch(r"[0-9]+", s):
            return int(s)
    elif kind == "complex":
        if re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", s):
            return complex(float(s), 0)
        if re.fullmatch(r"[0-9]+i", s):
            return complex(0, float(s[:-1]))
    elif re.fullmatch(r"-?[0-9]+(\.[0-9]+)?", s):
        return Decimal(s) if kind == "decimal" else float(s)
    raise Bad("literal " + s)


TOKEN = {
    "binary": re.compile(r"\s*(b[01]+|[0-9]+|[$A-Za-z_][A-Za-z0-9_]*|<<|[|()])"),
    "complex": re.compile(r"\s*([0-9]+(?:\.[0-9]+)?i?(?![A-Za-z0-9_])|[0-9]+(?:\.[0-9]+)?|[$A-Za-z_][A-Za-z0-9_]*|[-+*()])"),
    None: re.compile(r"\s*([0-9]+(?:\.[0-9]+)?|[$A-Za-z_][A-Za-z0-9_]*|[-+*()])"),
}


class Parser:
    """Numbers, variables, groups, implicit products and a few operators: what the scenarios use."""

    def __init__(self, kind, variables, text):
        self.kind, self.vars, self.toks, self.i = kind, variables, [], 0
        rx = TOKEN.get(kind) or TOKEN[None]
        text = text.strip()
        p = 0
        while p < len(text):
            m = rx.match(text, p)
            if not m:
                raise Bad("lexeme at %d of %r" % (p, text))
            self.toks.append(m.group(1))
            p = m.end()

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def run(self):
        v = self.sum()
        if self.peek() is not None:
            raise Bad("trailing " + self.peek())
        return v

    def sum(self):
        ops = ("|",) if self.kind == "binary" else ("+", "-")
        v = self.prod()
        while self.peek() in ops:
            o = self.peek()
            self.i += 1
            w = self.prod()
            v = v | w if o == "|" else v + w if o == "+" else v - w
        return v

    def prod(self):
        o = "<<" if self.kind == "binary" else "*"
        v = self.implicit()
        while self.peek() == o:
            self.i += 1
            w = self.implicit()
            v = v << w if o == "<<" else v * w
        return v

    def implicit(self):
        v, what = self.operand()
        nxt = self.peek()
        if nxt is not None and nxt not in ("+", "-", "*", "|", "<<", ")"):
            ok = (what == "number" and not nxt[0].isdigit() and not (self.kind == "binary" and re.fullmatch(r"b[01]+", nxt))) or what == "group"
            if not ok or self.kind == "binary":
                raise Bad("adjacent values")
            return v * self.implicit()
        return v

    def operand(self):
        t = self.peek()
        if t is None:
            raise Bad("operand expected")
        self.i += 1
        if t in ("+", "-") and self.kind != "binary":
            v, what = self.operand()
            return (-v if t == "-" else v), what
        if t == "(":
            v = self.sum()
            if self.peek() != ")":
                raise Bad("unclosed")
            self.i += 1
            return v, "group"
        if t[0].isdigit() or (self.kind == "binary" and re.fullmatch(r"b[01]+", t)):
            return literal(self.kind, t), "number"
        if t[0].isalpha() or t[0] in "$_":
            if t in self.vars:
                return self.vars[t], "name"
            if t.lower() in NAMES and self.kind != "binary":
                if self.kind == "integer":
                    return {"pi": 3, "e": 2}[t.lower()], "name"
                raise Bad("constants are not used in the scenarios")
            raise Bad("unknown " + t)
        raise Bad("operand expected")


def shown(kind, text):
    """The number that a printed value denotes."""
    text = text.strip()
    if kind == "integer":
        return int(text)
    if kind == "binary":
        if not re.fullmatch(r"[01]+", text):
            raise Bad("binary digits expected")
        return int(text, 2)
    if kind == "decimal":
        return Decimal(text)
    if kind == "float":
        return float(text)
    m = re.fullmatch(r"(-?[0-9.]+)([+-][0-9.]+)i", text)
    if not m:
        raise Bad("complex number expected")
    return complex(float(m.group(1)), float(m.group(2)))


# ---------------------------------------------------------------- the session
class Session:
    __slots__ = ("kind", "size", "vars", "hist", "cur", "buf", "ended")

    def __init__(self, kind, size):
        zero = {"complex": 0j, "decimal": Decimal(0), "float": 0.0}.get(kind, 0)
        self.kind, self.size = kind, size
        self.vars, self.hist, self.cur, self.buf, self.ended = {"$result": zero}, [], 0, "", False

    def copy(self):
        s = Session.__new__(Session)
        s.kind, s.size, s.vars, s.hist = self.kind, self.size, dict(self.vars), list(self.hist)
        s.cur, s.buf, s.ended = self.cur, self.buf, self.ended
        return s

    def key(self, k, expect):
        """Applies a key; appends to `expect` what each submitted line must show: (line, 'value' v | 'error' | 'none')."""
        if self.ended:
            return
        if k.startswith("c:"):
            self.buf += k[2:]
        elif k == "Backspace":
            self.buf = self.buf[:-1]
        elif k in ("Esc", "ctrlc"):
            self.ended = True
        elif k == "Up":
            if self.cur > 0:
                self.cur -= 1
                self.buf = self.hist[self.cur]
        elif k == "Down":
            if self.cur < len(self.hist):
                self.cur += 1
                self.buf = self.hist[self.cur] if self.cur < len(self.hist) else ""
        elif k == "Enter":
            line, self.buf = self.buf, ""
            if line.strip() == "exit":
                self.ended = True
                expect.append((line, "none", None))
                return
            expect.append((line,) + self.submit(line.strip()))
            if line.strip():
                if not self.hist or self.hist[-1] != line:
                    self.hist.append(line)
                    if len(self.hist) > self.size:
                        self.hist.pop(0)
                self.cur = len(self.hist)

    def submit(self, line):
        try:
            if "=" in line:
                parts = [p.strip() for p in line.split("=")]
                if len(parts) != 2:
                    raise Bad("assignment")
                value = literal(self.kind, parts[1])
                name = parts[0]
                if not name or any(c.isspace() for c in name) or (name.lower() in NAMES and self.kind != "binary"):
                    raise Bad("name")
                self.vars[name] = value
                return ("none", None)
            v = Parser(self.kind, self.vars, line).run()
            self.vars["$result"] = v
            return ("value", v)
        except Bad:
            return ("error", None)


# ---------------------------------------------------------------- the screen
def screen(line, data):
    """Applies what was written to the current line (its text and the column of the cursor).
    Returns the lines completed and the new current line."""
    done, cur, col = [], list(line[0]), line[1]
    i = 0
    while i < len(data):
        c = data[i]
        if c == "\x1b":
            m = re.compile(r"\x1b\[([0-9;?]*)([A-Za-z])").match(data, i)
            if not m:
                return None
            i = m.end()
            arg, cmd = m.groups()
            if cmd == "K":
                cur = [] if arg in ("2", "") or col == 0 else cur
                if not cur:
                    cur = [" "] * col
            elif cmd == "D":
                col = max(0, col - int(arg or "1"))
            elif cmd == "G":
                col = int(arg or "1") - 1
            elif cmd == "C":
                col += int(arg or "1")
            elif cmd == "J":
                del cur[col:]
            elif cmd not in ("m", "h", "l"):
                return None
            continue
        i += 1
        if c == "\n":
            done.append("".join(cur).rstrip())
            cur, col = [], 0
        elif c == "\r":
            col = 0
        elif c == "\x08":
            col = max(0, col - 1)
        else:
            while len(cur) < col:
                cur.append(" ")
            cur[col:col + 1] = [c]
            col += 1
    return done, ("".join(cur), col)


def strip_prompt(s):
    p = PROMPT.strip()
    while s.startswith(p):
        s = s[len(p):]
        s = s[1:] if s.startswith(" ") else s
    return s


def same(kind, text, want):
    try:
        got = shown(kind, text)
    except (Bad, ValueError, ArithmeticError):
        return False
    return got == want


def judge(sess, before, line, expect, status, out, err):
    """Compares what was shown with what had to be. Returns (screen line, problem or None)."""
    if status.startswith("signal:"):
        return None, "no answer" if status == "signal:14" else "the program was killed, " + status
    if sess.ended:
        if status == "-":
            return None, "the program did not end"
        if status != "exit:0":
            return None, "ended with " + status
        if any(e[1] != "none" for e in expect):
            return None, None
        return None, None
    if status != "-":
        return None, "the program ended, " + status + " " + err[-200:]
    sc = screen(line, out)
    if sc is None:
        return None, "unknown control sequence %r" % out
    done, cur = sc
    errors = sum(1 for e in expect if e[1] == "error" and e[0].strip())
    blank = sum(1 for e in expect if e[1] == "error" and not e[0].strip())
    texts = [strip_prompt(d) for d in done]
    # the submitted lines themselves stay on the screen
    lines = [e[0].rstrip() for e in expect]
    values = [e[2] for e in expect if e[1] == "value"]
    results = []
    for t in texts:
        if lines and t == lines[0]:
            lines.pop(0)
        elif t.strip():
            results.append(t)
    if lines:
        return cur, "the line %r is not on the screen: %r" % (lines[0], texts)
    if len(results) != len(values) or not all(same(sess.kind, t, v) for t, v in zip(results, values)):
        return cur, "shows %r instead of %r" % (results, [str(v) for v in values])
    if errors and not err.strip():
        return cur, "the error is not reported"
    if not errors and not blank and err.strip():
        return cur, "unexpected error %r" % err[:200]
    if strip_prompt(cur[0]).rstrip() != sess.buf.rstrip():
        return cur, "the screen shows %r instead of %r" % (strip_prompt(cur[0]), sess.buf)
    if not cur[0].startswith(PROMPT.strip()):
        return cur, "no prompt: %r" % cur
    return cur, None


def name(action):
    words = action.split("\t")
    if len(words) > 12:
        return "%s .. %s (%d)" % (name("\t".join(words[:2])), name("\t".join(words[-2:])), len(words))
    return " ".join(w[2:] if w[:2] in ("s:", "c:") else "<%s>" % w for w in action.split("\t")).replace(" <Enter>", "<Enter>")


def keys(action):
    res = []
    for w in action.split("\t"):
        res += ["c:" + c for c in w[2:]] if w.startswith("s:") else [w]
    return res


def line(s):
    return "s:%s\tEnter" % s if s else "Enter"


ARITH = ["x = 3", "x=5", "y = x", "x + 1", "$result * 2", "$result", "z", "exit", "a = b = c", "PI = 3", " ", "2x + (1", "3x", "$result = 9", "X", " x ", "x - -2", "= 3", "(2)x"]
SESSIONS = {
    "integer": ARITH + ["7 = 8"],
    "decimal": ARITH + ["x = 2.5", "x = -0.25"],
    "float": ARITH + ["x = 2.5", "x = -0.5"],
    "complex": ARITH + ["x = 2i", "3i + x"],
    "binary": ["x = b11", "x=5", "y = x", "x | b100", "$result << 1", "$result", "z", "exit", "a = b = c", "x = 3.5", " ", "2x", "$result = b101", "(x", "b1010"],
}


def scenarios(tier):
    thorough = tier == "thorough"
    res = []
    edit = [line("1+1"), line("x=2"), line("x"), "Enter", "Up", "Down", "Backspace", "c:5"]
    for size in (None, 0, 1, 2, 3):
        res.append(("integer", size, edit, 6 if thorough else 5 if size in (None, 2) else 4))
    nav = [line("1"), line("2"), "Up", "Down", "Enter", "c:3"]
    for size in (None, 1, 2):
        res.append(("integer", size, nav, 7 if thorough else 6 if size == 2 else 5))
    events = ["c:7", "Enter", "Left", "Right", "Delete", "Home", "Tab", "F1", "resize", "idle", "ctrlc", "Esc", "Backspace", "Up", line("exit"), line("  exit ")]
    res.append(("integer", None, events, 4 if thorough else 3))
    # long sessions, long lines and many steps through the history
    times = lambda n, w: "\t".join([w] * n)
    long = ["\t".join(line("1+%d" % (1000 + n)) for n in range(130)), times(97, "Up"), times(9, "Up"), times(50, "Down"), "Enter",
            "s:" + "x+" * 150 + "1", times(40, "Backspace"), "\t".join(line("x=%d" % n) for n in range(40)),
            "\t".join(line(c) for n in range(20) for c in ("(1", "x", "1/"))]
    for size in (None, 5, 64, 128, 129, 130, 300) if thorough else (None, 64, 129):
        res.append(("integer", size, long, 4 if thorough else 3))
    for kind, lines in SESSIONS.items():
        res.append((kind, None, [line(s) for s in lines], 4 if thorough else 3))
    return res


def explore(job):
    binary, scenario, tmp, n, color = job
    out = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "violations": {}}
    explore_into(binary, scenario, tmp, n, out, color)
    return out


def explore_into(binary, scenario, tmp, n, out, color):
    kind, size, actions, depth = scenario
    base = os.path.join(tmp, "s%d" % n)
    with open(base + ".plan", "w") as f:
        f.write("\n".join(actions) + "\n")
    jobs = []
    parts = 4
    for p in range(parts):
        env = dict(os.environ, VP_EXPLORE=base + ".plan", VP_DEPTH=str(depth), VP_PART="%d/%d" % (p, parts), VP_LOG="%s.log%d" % (base, p), RUST_BACKTRACE="0")
        args = [binary] + ([] if color else ["--no-color"]) + ["repl", "-t", kind] + (["--history", str(size)] if size is not None else [])
        jobs.append(subprocess.Popen(args, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=tmp))
    first = [j.communicate() for j in jobs]
    tag = "[%s%s]" % (kind, "" if size is None else " history=%d" % size)
    for j, (o, e) in zip(jobs, first):
        if j.returncode != 77:
            if j.returncode == 78:
                raise RuntimeError("the explorer could not fork")
            out["violations"][tag + " start"] = "ended with %s: %s" % (j.returncode, e.decode(errors="replace")[-300:])
            return
    sc = screen(("", 0), first[0][0].decode())
    root = Session(kind, 100 if size is None else size)
    # path -> (session, screen line), None below a violation
    nodes = {(): (root, sc[1] if sc else (PROMPT, len(PROMPT)))}
    seen = set()
    for p in range(parts):
        with open("%s.log%d" % (base, p)) as f:
            for rec in f:
                path, status, o, e = rec.split(" ")
                path = () if path == "." else tuple(map(int, path.split(",")))
                if path in seen:
                    continue
                seen.add(path)
                out["states"] += 1
                if not path:
                    continue
                parent = nodes.get(path[:-1])
                if parent is None:
                    nodes[path] = None
                    continue
                sess = parent[0].copy()
                expect = []
                for k in keys(actions[path[-1]]):
                    sess.key(k, expect)
                o = bytes.fromhex(o[1:]).decode(errors="replace")
                e = bytes.fromhex(e.strip()[1:]).decode(errors="replace")
                shown_line, problem = judge(sess, parent[0], parent[1], expect, status, o, e)
                out["transitions"] += 1
                if problem:
                    key = "%s %s" % (tag, " ".join(name(actions[a]) for a in path))
                    out["violations"][key] = problem
                    nodes[path] = None
                elif sess.ended:
                    nodes[path] = None
                else:
                    nodes[path] = (sess, shown_line)
                if (out["transitions"] & (out["transitions"] - 1)) == 0 and len(out["samples"]) < 40:
                    out["samples"].append("%s %s" % (tag, " ".join(name(actions[a]) for a in path)))
    # every sequence has to be there
    want = 0
    live = [()]
    for d in range(depth):
        nxt = []
        for q in live:
            for a in range(len(actions)):
                c = q + (a,)
                if c not in seen:
                    raise RuntimeError("sequence %s is missing" % (c,))
                want += 1
                if nodes.get(c):
                    nxt.append(c)
        live = nxt
    out["traces"] += want
    for p in range(parts):
        os.remove("%s.log%d" % (base, p))


def run(binary, tier):
    start = time.time()
    out = {"variant": "repl", "states": 0, "transitions": 0, "traces": 0, "samples": [], "violations": {}}
    tmp = tempfile.mkdtemp(prefix="vp-repl-")
    todo = scenarios(tier)
    try:
        jobs = [(binary, s, tmp, n, n % 3 == 2) for n, s in enumerate(todo)]
        jobs.sort(key=lambda j: -len(j[1][2]) ** j[1][3])
        with multiprocessing.Pool(8) as pool:
            for r in pool.imap_unordered(explore, jobs, chunksize=1):
                for k in ("states", "transitions", "traces"):
                    out[k] += r[k]
                out["samples"] += r["samples"]
                out["violations"].update(r["violations"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    v = sorted(out["violations"].items(), key=lambda x: (len(x[0]), x[0]))
    out["total_violations"] = len(v)
    out["violations"] = [{"key": k, "detail": d} for k, d in v[:200]]
    out["samples"] = sorted(out["samples"])[::max(1, len(out["samples"]) // 40)][:40]
    out["bounds"] = {"scenarios": ["%s, history %s, %d actions, depth %d: %s" % (k, h, len(a), d, ", ".join(name(x) for x in a)) for k, h, a, d in todo]}
    out["assumptions"] = ["the terminal echoes nothing by itself; key events arrive one by one (crossterm and ctrlc are replaced by an explorer that supplies the events)"]
    out["notes"] = []
    out["wall_s"] = time.time() - start
    return out


if __name__ == "__main__":
    import json
    import sys
    r = run(sys.argv[1], sys.argv[2])
    for v in r["violations"][:30]:
        print(v["key"], "|", v["detail"])
    print({k: r[k] for k in ("states", "transitions", "traces", "total_violations", "wall_s")})
