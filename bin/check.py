#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Extracts /repo/src, has Verus discharge every obligation of the contracts in
/verif/contracts, and runs the bounded replay of the property against the real
crate. See DESIGN.md ("How a check decides").
"""
import fnmatch, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = 840.0 if TIER == "quick" else 5400.0
WORK = os.path.join(VERIF, "work", PROP)
CONTRACTS = os.path.join(VERIF, "contracts")
CPUS = max(2, os.cpu_count() or 8)
NOTES = []


def left():
    return BUDGET - (time.time() - T0)


def note(s):
    NOTES.append(s)
    print("note:", s, flush=True)


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def cargo(dir_, *args):
    env = dict(os.environ, RUSTFLAGS="-Awarnings", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("CARGO_TARGET_DIR", None)
    return run(["cargo", "build", "--offline", "--release", *args], 700, cwd=os.path.join(VERIF, dir_), env=env)


# ------------------------------------------------------------ property map

def expand(s):
    m = re.search(r"\{([^{}]*)\}", s)
    if not m:
        return [s]
    return [y for x in m.group(1).split(",") for y in expand(s[:m.start()] + x.strip() + s[m.end():])]


def load_props():
    out = []
    for l in open(os.path.join(CONTRACTS, "props.txt")):
        l = l.split("#")[0].strip()
        if l:
            pat, ps = l.rsplit(" : ", 1)
            for p in expand(pat):
                out.append((p.replace("[", "[[]"), ps.split()))
    return out


MAP = load_props()


def props_of(fn):
    for p, ps in MAP:
        if fnmatch.fnmatchcase(fn, p):
            return ps
    return ["C03"]


def pending():
    f = os.path.join(CONTRACTS, "pending.txt")
    return [l.split(" ", 1)[1].strip() for l in open(f) if l.startswith("trust ")] if os.path.exists(f) else []


# ------------------------------------------------------------ the proof

class Proof:
    """One run of the extraction and of Verus, with functions taken out of the proof when they cannot be brought in."""

    def __init__(self):
        self.status = "not run"
        self.undecided = {}      # function -> reason
        self.failed = {}         # function -> list of (kind, text)
        self.verified = 0
        self.errors = 0
        self.meta = {"functions": []}
        self.smt_ms = 0
        self.verus_ms = 0
        self.version = ""
        self.trusted = []
        self.canary = False
        self.cmd = ""
        self.lex = Lex()

    KINDS = [
        ("postcondition not satisfied", "ensures"),
        ("precondition not satisfied", "requires"),
        ("invariant not satisfied", "invariant"),
        ("loop invariant", "invariant"),
        ("decreases not satisfied", "decreases"),
        ("assertion failed", "assert"),
        ("possible arithmetic underflow/overflow", "overflow"),
        ("possible division by zero", "overflow"),
        ("possible bit shift underflow/overflow", "overflow"),
        ("unreachable", "assert"),
        ("recommendation not met", "note"),
        ("Resource limit", "rlimit"),
        ("rlimit", "rlimit"),
    ]

    def kind(self, msg):
        for t, k in self.KINDS:
            if t in msg:
                return k
        return "compile"

    def go(self):
        try:
            self.go2()
        except Exception as e:  # the proof is then undecided
            self.status = "undecided: " + repr(e)
            note("proof machinery: " + repr(e))

    def go2(self):
        rc, o, e = cargo("extract")
        if rc != 0:
            self.status = "undecided: extractor does not build"
            note("extractor build failed: " + e[-400:])
            return
        ex = os.path.join(VERIF, "extract/target/release/vx-extract")
        out = os.path.join(WORK, "out.rs")
        over = {f: "trust" for f in pending()}
        base = dict(over)
        for attempt in range(10):
            of = os.path.join(WORK, "over.txt")
            with open(of, "w") as f:
                f.writelines(f"{w} {p}\n" for p, w in over.items())
            rc, o, e = run([ex, os.path.join(REPO, "src"), CONTRACTS, out, "", of], 60)
            if rc != 0:
                self.status = "undecided: the extraction failed"
                note("extraction failed: " + e[-400:])
                return
            self.meta = json.load(open(out + ".meta.json"))
            self.lex.start(self.meta["lexer"])
            paths = {f["path"] for f in self.meta["functions"]}
            again = False
            for er in self.meta["errors"]:
                fn = self.match_path(er, paths)
                if fn is None:
                    note("extraction: " + er)
                    self.undecided.setdefault("(crate)", er)
                elif fn not in over:
                    self.undecided[fn] = "extraction: " + er
                    over[fn] = "trust"
                    again = True
            if again:
                continue
            for l in self.meta["lost"]:
                if l not in self.undecided:
                    self.undecided[l] = "the function under this contract is gone"
            text = open(out).read()
            mark = "} // verus!\nfn main() {}"
            assert mark in text
            text = text.replace(mark, open(os.path.join(CONTRACTS, "canary.rs")).read() + mark)
            open(out, "w").write(text)
            n = 8 if CPUS >= 8 else CPUS
            cmd = ["verus", "--edition", "2024", "out.rs", "--error-format=json", "--output-json", "--time", "--num-threads", str(n), "--rlimit", "60"]
            self.cmd = " ".join(cmd)
            t = time.time()
            rc, o, e = run(cmd, max(30, min(600, left() - 200)), cwd=WORK)
            self.verus_ms = int((time.time() - t) * 1000)
            open(os.path.join(WORK, "verus.log"), "w").write(e)
            if rc is None:
                self.status = "undecided: the verifier ran out of time"
                note(self.status)
                return
            if self.read(o, e, text, over):
                continue
            break
        else:
            self.status = "undecided: too many rounds"
            return
        self.retry(ex, over)
        self.scan(text)
        self.pend = set(base)
        if self.status == "not run":
            self.status = "failed" if self.failed else "undecided" if self.undecided else "proved"

    def retry(self, ex, over):
        """A contract holds if any choice of loop invariants and ghost code proves it: give a function that failed another one."""
        out = os.path.join(WORK, "retry.rs")
        alts = self.meta.get("alts", {})
        for ways in [["flat"]] + [x for k in range(max(alts.values(), default=0)) for x in (["alt%d" % k], ["alt%d" % k, "flat"])]:
            fns = {f["path"]: f for f in self.meta["functions"]}
            todo = [f for f in list(self.failed) + [u for u, w in self.undecided.items() if w.startswith("the solver gave up")]
                    if f in fns and fns[f]["loops"] and (ways[0] == "flat" and f in self.failed or ways[0] != "flat" and alts.get(f, 0) > int(ways[0][3:]))]
            if not todo or left() < 450:
                continue
            of = os.path.join(WORK, "over2.txt")
            with open(of, "w") as f:
                f.writelines(f"{w} {p}\n" for p, w in over.items())
                f.writelines(f"{w} {p}\n" for p in todo for w in ways)
            rc, o, e = run([ex, os.path.join(REPO, "src"), CONTRACTS, out, "", of], 60)
            if rc != 0:
                continue
            q = Proof()
            q.meta = json.load(open(out + ".meta.json"))
            mods = sorted({f.split("::")[0] if "::" in f and not f[0].isupper() else "" for f in todo})
            sel = [y for m in mods for y in (["--verify-root"] if m == "" else ["--verify-only-module", m])]
            rc, o, e = run(["verus", "--edition", "2024", "retry.rs", "--error-format=json", "--output-json", "--time", "--num-threads", str(CPUS), "--rlimit", "60", *sel], 150, cwd=WORK)
            if rc is None:
                continue
            more = q.read(o, e, open(out).read(), dict(over))
            for f in todo:
                if q.verified and not more and f not in q.failed and f not in q.undecided and "(crate)" not in q.undecided:
                    self.failed.pop(f, None)
                    self.undecided.pop(f, None)
                    self.verified += 1
                    note(f"{f} proved with other annotations ({' '.join(ways)})")

    def match_path(self, er, paths):
        best = None
        for p in paths:
            if er.startswith(p + ":") and (best is None or len(p) > len(best)):
                best = p
        return best

    def read(self, o, e, text, over):
        """Returns True if another round is needed."""
        try:
            j = json.loads(o[o.index("{"):])
        except ValueError:
            j = {}
        v = j.get("verification-results", {})
        self.verified = v.get("verified", 0)
        self.errors = v.get("errors", 0)
        self.version = j.get("verus", {}).get("version", "")
        tm = j.get("times-ms", {})
        self.smt_ms = (tm.get("smt") or {}).get("total", 0) if isinstance(tm.get("smt"), dict) else 0
        ranges = [(f["start"], f["end"], f["path"]) for f in self.meta["functions"]]
        lines = text.split("\n")

        def fn_at(n):
            for a, b, p in ranges:
                if a <= n <= b:
                    return p
            return None
        failed, compile_, glob = {}, {}, []
        canary_at = next((i for i, x in enumerate(lines, 1) if x.startswith("pub mod canary")), 1 << 30)
        self.canary = False
        for l in e.split("\n"):
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("level") != "error" or not d.get("spans"):
                if d.get("level") == "error" and not d["message"].startswith("aborting"):
                    glob.append(d["message"])
                continue
            k = self.kind(d["message"])
            sp = d["spans"]
            # the function whose body the error is in: prefer spans at exits / calls over the contract's
            hits = [(s, fn_at(s["line_start"])) for s in sp]
            hits = [(s, p) for s, p in hits if p]
            if any(s["line_start"] > canary_at for s in sp):
                self.canary = True
                continue
            prim = [p for s, p in hits if s["is_primary"]] or [p for s, p in hits]
            # callee contracts show up as secondary spans of a precondition failure
            if k == "requires":
                prim = [p for s, p in hits if not (s.get("label") or "").startswith("failed")] or prim
            fn = prim[0] if prim else None
            desc = d["message"] + ": " + " | ".join(
                "%s%s" % ((s.get("label") + ": ") if s.get("label") else "", (s["text"][0]["text"].strip()[:160] if s.get("text") else "")) for s in sp[:3])
            if fn is None:
                ln = sp[0]["line_start"]
                pf = next((m.group(m.lastindex) for q in range(ln - 1, max(0, ln - 400), -1) for m in [re.search(r"\bproof fn (\w+)|\bspec fn (\w+)|^pub fn (\w+)", lines[q])] if m), None)
                if k == "compile":
                    glob.append(desc)
                else:
                    failed.setdefault("lemma:" + str(pf), []).append((k, desc))
            elif k == "compile":
                compile_.setdefault(fn, []).append(desc)
            elif k != "note":
                failed.setdefault(fn, []).append((k, desc))
        again = False
        for fn, ds in compile_.items():
            w = over.get(fn)
            self.undecided[fn] = "outside the verifier's reach: " + ds[0][:300]
            if w is None:
                over[fn] = "trust"
                again = True
            elif w == "trust":
                over[fn] = "bare"
                again = True
            else:
                glob.append(ds[0])
        if again:
            return True
        if glob:
            self.undecided["(crate)"] = glob[0][:400]
            self.status = "undecided: " + glob[0][:200]
            note(self.status)
            return False
        for fn, es in list(failed.items()):
            if any(k == "rlimit" for k, _ in es):
                self.undecided[fn] = "the solver gave up: " + es[0][1][:200]
                del failed[fn]
            elif fn.startswith("lemma:"):
                self.undecided[fn] = "lemma: " + es[0][1][:200]
                del failed[fn]
        self.failed = failed
        return False

    def scan(self, text):
        """Everything the proof takes on trust, by name."""
        t = []
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:const\s+)?(proof fn|fn|struct|exec fn)\s+(\w+)", text):
            if not re.match(r"lit_\d+$", m.group(2)):
                t.append(m.group(1) + " " + m.group(2))
        for m in re.finditer(r"\baxiom fn (\w+)", text):
            t.append("axiom " + m.group(1))
        for m in re.finditer(r"assume_specification[^;\[]*\[([^\]]*)\]", text):
            t.append("assumed contract " + m.group(1).strip())
        t.append("string literals: %d constants with their bytes" % len(re.findall(r"pub const fn lit_\d+", text)))
        for m in re.finditer(r"\b(assume|admit)\s*\(([^;]*)\)\s*;", text):
            t.append("%s(%s)" % (m.group(1), m.group(2)[:80]))
        self.trusted = sorted(set(t))


# ------------------------------------------------------------ the lexer

def logos_version(lock):
    try:
        m = re.search(r'name = "logos-codegen"\nversion = "([^"]*)"', open(lock).read())
        return m.group(1) if m else None
    except OSError:
        return None


LEXAX = {"axiom ax_" + x for x in ("tok", "name", "gname", "key", "tz", "gtz", "frame", "ext", "gext")}


class Lex:
    """The second Verus run: the table of the generated lexer has the properties that the axioms `ax_tok`, `ax_name`, ... of the first one state."""

    # the computed checks, and the properties that rest on them
    LEMMAS = {"lemma_first": ["C14", "C01", "C09", "C12"], "lemma_keys": ["C10", "C09"], "lemma_tzgeo": ["C06", "C10"], "lemma_frame": ["C14"], "lemma_ext": ["C06"], "lemma_states": ["C14", "C01"], "lemma_far": ["C06"],
              **{"lemma_names_%d" % i: ["C06", "C01"] for i in range(6)}}

    def __init__(self):
        self.th = None
        self.status = "not run"
        self.failed = {}
        self.verified = self.errors = self.states = self.wall_ms = 0

    def start(self, meta):
        if self.th is None:
            self.th = threading.Thread(target=self.go, args=(meta,))
            self.th.start()

    def go(self, meta):
        try:
            self.go2(meta)
        except Exception as e:
            self.status = "undecided: " + repr(e)
        if self.status != "proved":
            note("lexer: " + self.status)

    def go2(self, meta):
        self.states = meta["states"]
        if meta["error"]:
            self.status = "undecided: the generated code is not what the extraction reads: " + meta["error"]
            return
        a, b = (logos_version(os.path.join(d, "Cargo.lock")) for d in (REPO, os.path.join(VERIF, "extract")))
        a = a or logos_version(os.path.join(VERIF, "replay/Cargo.lock"))
        if a is not None and a != b:
            self.status = f"undecided: the crate is built with logos-codegen {a}, the extraction with {b}"
            return
        t = time.time()
        rc, o, e = run(["verus", "--edition", "2024", "out_lex.rs", "--error-format=json", "--output-json", "--num-threads", str(CPUS), "--rlimit", "60"], max(30, min(400, left() - 200)), cwd=WORK)
        self.wall_ms = int((time.time() - t) * 1000)
        if rc is None:
            self.status = "undecided: the verifier ran out of time"
            return
        open(os.path.join(WORK, "verus-lex.log"), "w").write(e)
        j = json.loads(o[o.index("{"):]) if "{" in o else {}
        v = j.get("verification-results", {})
        self.verified, self.errors = v.get("verified", 0), v.get("errors", 0)
        lines = open(os.path.join(WORK, "out_lex.rs")).read().split("\n")
        other = []
        for l in e.split("\n"):
            d = json.loads(l) if l.startswith("{") else {}
            if d.get("level") != "error" or d["message"].startswith("aborting"):
                continue
            ln = d["spans"][0]["line_start"] if d["spans"] else 0
            fn = next((m.group(1) for q in range(ln - 1, max(-1, ln - 200), -1) for m in [re.search(r"\bproof fn (\w+)|\bspec fn (\w+)", lines[q])] if m), None)
            if fn in self.LEMMAS and "simplifies to `false`" in d["message"]:
                self.failed.setdefault(fn, []).append(("computed", d["message"]))
            else:
                other.append(f"{fn}: {d['message']}")
        if self.failed:
            self.status = "failed: " + ", ".join(self.failed)
        elif other or self.errors or not self.verified:
            self.status = "undecided: " + (other or ["no answer"])[0][:300]
        else:
            self.status = "proved"


# ------------------------------------------------------------ the replay

class Replay:
    def __init__(self):
        self.fail = None
        self.fails = []
        self.ev = {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "fixed": 0, "samples": []}
        self.built = None
        self.lock = threading.Lock()
        self.full = "not run"

    def build(self):
        rc, o, e = cargo("replay")
        self.built = rc == 0
        if not self.built:
            note("the replay crate does not build against /repo: " + e[-1500:])
        return self.built

    FULL = os.path.join(VERIF, "replay/target/full/release/replay")

    def all_features(self, secs, procs):
        """The same search on the crate built with its features mime and language-tags."""
        rc, o, e = cargo("replay", "--features", "full", "--target-dir", os.path.join(VERIF, "replay/target/full"))
        if rc != 0:
            self.full = "does not build"
            note("the replay crate does not build against /repo with all features: " + e[-1500:])
            return
        self.full = f"{procs} processes, {secs} s"
        self.search(secs, procs, "full", 9000, self.FULL)

    def one(self, seed, secs, tag, limit, exe=None):
        out = os.path.join(WORK, f"replay-{tag}.json")
        rf = os.path.join(WORK, f"replay-{tag}.txt")
        for p in (out, rf):
            if os.path.exists(p):
                os.unlink(p)
        main = exe is None
        exe = exe or os.path.join(VERIF, "replay/target/release/replay")
        rc, o, e = run(["bash", "-c", f'ulimit -v 6000000; exec "$0" "$@"', exe, PROP, str(seed), str(secs), out, rf], limit)
        with self.lock:
            if rc == 0 or rc == 1:
                try:
                    d = json.load(open(out))
                    for k in ("evaluations", "distinct_nontrivial", "skipped"):
                        self.ev[k] += d[k]
                    self.ev["fixed"] = max(self.ev["fixed"], d["fixed"])
                    self.ev["samples"] = (self.ev["samples"] + d["samples"])[:4]
                except (OSError, ValueError):
                    pass
            if rc == 1 and os.path.exists(rf):
                if not main:
                    with open(rf, "a") as f:
                        f.write("\nfound with the features mime and language-tags: cargo build --release --offline --features full --target-dir target/full (in replay/), target/full/release/replay\n")
                self.fails.append((rf, (re.findall(r"^FAIL.*$", o, re.M) or [o[-300:]])[0]))
            elif rc is None:
                note(f"replay {tag} did not end in {limit:.0f} s")
            elif rc not in (0, 1):
                self.crash = getattr(self, "crash", 0) + 1
                if rc in (-6, -11, 134, 139):
                    open(rf, "w").write(f"property: {PROP}\nthe process running the library was ended by signal {rc} (stack overflow, abort or out of memory)\nseed {seed}\n{e[-2000:]}\n"
                                        f"run again: replay/target/release/replay {PROP} {seed} {secs} /tmp/o.json /tmp/r.txt\n")
                    self.fails.append((rf, f"FAIL {PROP} the process aborted (signal {rc})"))
                else:
                    note(f"replay {tag} ended with {rc}: {e[-300:]}")

    def elsewhere(self, prop, secs):
        """Whether the replay of another property has a failing input."""
        if secs < 10:
            return False
        hit = []

        def go(i):
            f = os.path.join(WORK, f"else-{prop}-{i}")
            rc, o, e = run(["bash", "-c", 'ulimit -v 6000000; exec "$0" "$@"', os.path.join(VERIF, "replay/target/release/replay"), prop, str(SEED * 7919 + i), str(secs), f + ".json", f + ".txt"], secs + 60)
            if rc not in (0, None):
                hit.append(rc)
        th = [threading.Thread(target=go, args=(i,)) for i in range(CPUS)]
        [x.start() for x in th]
        [x.join() for x in th]
        return bool(hit)

    def search(self, secs, procs, tag, base, exe=None):
        th = [threading.Thread(target=self.one, args=(SEED * 100003 + base + i, secs, f"{tag}{i}", secs + 60 + (0 if TIER == "quick" else 300), exe)) for i in range(procs)]
        [t.start() for t in th]
        [t.join() for t in th]
        return bool(self.fails)


# ------------------------------------------------------------ known findings

def known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) \[demo=(\S+)\] (.*)", l.strip())
            if m and m.group(1) == PROP:
                rc, o, e = run([os.path.join(VERIF, "replay/target/release/replay"), "KNOWN", m.group(2)], 20)
                if rc == 0:
                    out.append(m.group(3))
                else:
                    note("a listed finding no longer shows: " + m.group(3))
    return out


def ghost_names():
    """function -> identifiers in the ghost code and the loop contracts written for it"""
    out, cur = {}, []
    for f in sorted(os.listdir(CONTRACTS)):
        if f.endswith(".vc"):
            cur = []
            for l in open(os.path.join(CONTRACTS, f)):
                if l.startswith("@"):
                    w = l.split(None, 1)
                    if w[0] == "@fn":
                        cur = expand(w[1].strip())
                    elif w[0] in ("@impl", "@module", "@skipimpl", "@alt"):
                        cur = []
                elif not l.startswith("//#"):
                    for p in cur:
                        out.setdefault(p, set()).update(re.findall(r"\b[a-z_]\w*", l))
    return out


NAMES = ghost_names()


def counts(local, fn):
    return {n: local.count(n) for n in NAMES.get(fn, ()) if n in local}


def classify(proof, base, fns):
    """Failed obligations that speak about the code, and those that speak about a function the contracts no longer fit."""
    failing, doubts = {}, {}
    for fn, es in proof.failed.items():
        if fn not in fns:
            continue
        b = base.get(fn)
        shaky = None
        soft = [s for s in proof.meta.get("soft", []) if s.startswith(fn + ": ")]
        if b is None:
            shaky = "a new function"
        elif fn in proof.meta.get("expanded_in", []):
            shaky = "a function without a contract was expanded in it"
        elif soft:
            shaky = soft[0]
        elif counts(fns[fn]["locals"], fn) != counts(b["locals"], fn):
            shaky = "the names its contract refers to are bound differently"
        elif b["loops"] != fns[fn]["loops"]:
            shaky = "its loops are no longer those the invariants were written for"
        else:
            new = [c for c in fns[fn]["calls"] if c not in b["calls"]]
            names = {p.rsplit("::", 1)[-1] for p in fns if p not in base or p in proof.undecided}
            gone = [c for c in new if c in names] + [c for c in fns[fn]["calls"] if any(u.rsplit("::", 1)[-1] == c for u in proof.undecided)]
            if gone:
                shaky = "it relies on " + ", ".join(sorted(set(gone))) + ", which has no proved contract"
        if shaky:
            doubts[fn] = shaky
        else:
            failing[fn] = es
    return failing, doubts


def main():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in os.listdir(WORK):
        fp = os.path.join(WORK, f)
        if os.path.isfile(fp):
            os.unlink(fp)
    proof, rep = Proof(), Replay()
    tp = threading.Thread(target=proof.go)
    tp.start()
    secs = 25 if TIER == "quick" else 600
    tf = threading.Thread(target=rep.all_features, args=(15, 2) if TIER == "quick" else (400, 3))
    tf.start()
    if rep.build():
        rep.search(secs, max(2, CPUS - 2) if TIER == "quick" else CPUS, "a", 0)
    tp.join()
    tf.join()
    if proof.lex.th:
        proof.lex.th.join()
    lex = proof.lex

    base = {}
    bf = os.path.join(CONTRACTS, "baseline.json")
    if os.path.exists(bf):
        base = json.load(open(bf))
    fns = {f["path"]: f for f in proof.meta["functions"]}
    pend = getattr(proof, "pend", set(pending()))
    mine = sorted(f for f in fns if PROP in props_of(f) or PROP == "C03")
    failing, doubts = classify(proof, base, fns)
    if PROP == "C03":
        suspects = {fn: es for fn, es in failing.items() if {k for k, _ in es} & {"requires", "overflow", "decreases"}}
    else:
        suspects = {fn: es for fn, es in failing.items() if PROP in props_of(fn)}
    suspects.update({"lexer::" + l: es for l, es in lex.failed.items() if PROP in lex.LEMMAS[l]})
    if lex.status.startswith("undecided"):
        proof.undecided["(lexer)"] = lex.status
    for fn, w in doubts.items():
        proof.undecided[fn] = w + "; " + proof.failed[fn][0][1][:200]
    searched = 0
    und_mine = [f for f in proof.undecided if f in ("(crate)", "(lexer)") or f.startswith("lemma:") or PROP in props_of(f) or PROP == "C03"]
    if rep.built and not rep.fails and (suspects or und_mine) and left() > 120:
        # an obligation is open: look harder for a failing input
        searched = min(240 if suspects else 90, int(left() - 100)) if TIER == "quick" else 900
        note(f"open obligations, searching {searched} s more: " + ", ".join(list(suspects)[:5] + und_mine[:5]))
        rep.search(searched, CPUS, "b", 500)

    violation = None
    if rep.fails:
        rf, what = rep.fails[0]
        dst = os.path.join(WORK, "violation.txt")
        shutil.copy(rf, dst)
        with open(dst, "a") as f:
            if proof.failed:
                f.write("\nobligations that fail:\n" + "".join(f"  {fn}: {k}: {d}\n" for fn, es in proof.failed.items() for k, d in es))
        print(what)
        violation = (dst, "")
    elif suspects:
        first = [f for f in suspects if PROP == "C03" or (lex.LEMMAS[f[7:]] if f.startswith("lexer::") else props_of(f))[0] == PROP]
        if not first:
            # the contract serves this property too: does the check that answers first have a failing input?
            other = sorted({(lex.LEMMAS[f[7:]] if f.startswith("lexer::") else props_of(f))[0] for f in suspects})
            blame = [p for p in other if rep.elsewhere(p, min(120, int((left() - 60) / len(other))))]
            if blame or left() < 60:
                note("open obligations of functions other checks answer for: " + ", ".join(suspects) + "; failing inputs there: " + ", ".join(blame))
            else:
                first = list(suspects)
        if first:
            dst = os.path.join(WORK, "violation.txt")
            with open(dst, "w") as f:
                f.write(f"property: {PROP}\nproved on the unchanged tree, no longer proved; no failing input found in {searched} s of search\n\n")
                for fn in first:
                    f.write(f"function {fn}\n" + "".join(f"  failed obligation ({k}): {d}\n" for k, d in suspects[fn]))
                f.write("\nverifier output:\n" + open(os.path.join(WORK, "verus.log")).read()[:20000])
            violation = (dst, " no-failing-input-found")

    contract = [f for f in mine if fns[f]["mode"] != "trusted"]
    obl = [f for f in mine if f not in pend and fns[f]["mode"] != "trusted" or f in proof.undecided]
    done = [f for f in obl if f not in proof.failed and f not in proof.undecided and not proof.status.startswith("undecided:")]
    if not proof.canary and not proof.status.startswith("undecided"):
        note("vacuity guard: the canary did not fail")
        proof.status = "undecided: vacuous"
        done = []
    lemmas = 0
    try:
        lemmas = len(re.findall(r"^\s*(?:pub )?(?:broadcast )?proof fn ", open(os.path.join(WORK, "out.rs")).read(), re.M))
    except OSError:
        pass
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": level(PROP),
        "coverage": {
            "obligations": len(obl), "discharged": len(done),
            "checker_cmd": proof.cmd + "   (out.rs: bin/check.py extracts it from /repo/src with extract/ and contracts/)",
            "trusted_base": [x + " (proved of the code logos generates, in out_lex.rs)" if lex.status == "proved" and x in LEXAX else x for x in proof.trusted] + ["function " + f + " (contract assumed, replayed only)" for f in sorted(pend) if f in fns],
            "obligations_rule": "one per function of /repo whose contract serves this property and whose body the verifier is given; all of Verus' queries for it have to be discharged",
            "functions_proved": done,
            "functions_bounded": sorted(f for f in mine if f in pend),
            "undecided": proof.undecided,
            "proof_status": proof.status,
            "back_end": "Verus (Z3) " + str(proof.version),
            "whole_file_verified": proof.verified, "lemmas_in_file": lemmas, "verus_wall_ms": proof.verus_ms, "smt_ms": proof.smt_ms,
            "lexer": {"status": lex.status, "states_of_the_generated_code": lex.states, "queries_verified": lex.verified, "queries_failed": lex.errors, "wall_ms": lex.wall_ms, "checker_cmd": "verus --edition 2024 out_lex.rs --rlimit 60"},
            "canary_failed_as_it_must": proof.canary,
            **({"whole_card_read_back": "spec_z::read_back: every readable, valid card, printed by Display, is read back as the same card by parse and parse_loose: " + ("proved" if proof.verified and not proof.failed and not proof.undecided and not proof.status.startswith("undecided") else "open")} if PROP in ("C01", "C06", "C07", "C09", "C12") else {}),
            "evaluations": rep.ev["evaluations"], "distinct_nontrivial": rep.ev["distinct_nontrivial"], "skipped": rep.ev["skipped"], "fixed_cases": rep.ev["fixed"], "with_features_mime_and_language_tags": rep.full,
            "rule": "replay/src/checks.rs, case generator of " + PROP + ": the real crate against an independent reference; non-trivial cases reach the behaviour the property is about; distinct by the text of the case",
            "samples": rep.ev["samples"], "notes": NOTES,
        },
        "assumptions": ["the extraction keeps the meaning of the code (DESIGN.md lists every rewrite)", "contracts of dependencies (contracts/prelude.rs), the logos run-time functions read, bump_unchecked, set, error and end among them"],
        "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0,
    }
    if not rep.built and not violation and proof.status.startswith("undecided"):
        print("neither the proof nor the replay could be run")
        json.dump(ev, open(os.path.join(VERIF, "evidence", PROP + ".json"), "w"), indent=1)
        sys.exit(2)
    json.dump(ev, open(os.path.join(VERIF, "evidence", PROP + ".json"), "w"), indent=1)
    print(f"{PROP}: proof {proof.status}: {len(done)}/{len(obl)} functions, {len([f for f in mine if f in pend])} bounded; whole file {proof.verified} verified; replay {rep.ev['evaluations']} cases; {ev['wall_s']} s")
    for k in known():
        print(f"KNOWN-FINDING: property={PROP} {k}")
    if violation:
        print(f"VIOLATION property={PROP} replay={violation[0]}{violation[1]}")
        sys.exit(1)
    sys.exit(0)


def level(p):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == p:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "proof"


main()
