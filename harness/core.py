"""Common parts of all checks: running TLC, reading its state dumps, replaying
behaviours on the real code, reporting."""

import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.environ["VERIF_WORK"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CP = ":".join(
    f"/opt/veriftools/tla/{j}"
    for j in ("tla2tools.jar", "CommunityModules-deps.jar")
)
PATIENCE = 400  # seconds without any answer from the code
NPROC = max(1, min(6, os.cpu_count() or 1))
quick = TIER != "thorough"


class MachineryError(Exception):
    """The check itself is broken (never a verdict on the code)."""


class Unevaluable(MachineryError):
    """TLC could not evaluate the specification on a recorded trace."""

    def __init__(self, module, out):
        super().__init__(f"TLC {module}:\n{out[-4000:]}")
        m = re.findall(r"^(?:/\\ )?i = (\d+)$", out, re.M)
        self.at = int(m[-1]) if m else None
        m = re.search(r"^Error: (?!TLC threw)(.*)$", out, re.M)
        self.what = m.group(1)[:300] if m else "evaluation failed"


# --------------------------------------------------------------------- TLC

_STATS = re.compile(
    r"(\d+) states generated, (\d+) distinct states found"
)


class Tlc:
    """One finished TLC run."""

    def __init__(self, module, out, dump):
        self.module, self.out, self.dump = module, out, dump
        m = _STATS.findall(out)
        if not m:
            raise MachineryError(f"TLC {module}: no statistics\n{out[-3000:]}")
        self.generated, self.distinct = map(int, m[-1])
        m = re.findall(r"initial states: (\d+)(?: distinct)? state", out)
        self.initial = int(m[-1]) if m else 1

    def prints(self, tag):
        """Values printed by the specification as <<"tag", ...>>.

        A verdict that TLC wraps over several lines is joined again."""
        res = []
        lines = self.out.splitlines()
        i = 0
        start = f'<<"{tag}"'
        start2 = f'<< "{tag}"'
        while i < len(lines):
            ln = lines[i]
            if ln.startswith(start) or ln.startswith(start2):
                buf = ln
                while buf.count("<<") != buf.count(">>") or buf.count(
                    "{"
                ) != buf.count("}"):
                    i += 1
                    buf += " " + lines[i]
                res.append(tla_value(buf))
            i += 1
        return res


def tlc(module, cfg=None, dump=False, env=None, timeout=800, heap="6g", workers=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    cfg = cfg or module
    meta = os.path.join(WORK, f"meta-{module}-{cfg}-{time.time_ns()}")
    cmd = [
        "java", f"-Djava.io.tmpdir={WORK}", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", CP,
        "tlc2.TLC", "-workers", str(workers or NPROC), "-metadir", meta,
        "-noGenerateSpecTE", "-deadlock",
        "-config", os.path.join(SPEC, cfg + ".cfg"),
    ]
    dump_file = None
    if dump:
        dump_file = os.path.join(WORK, f"dump-{cfg}-{time.time_ns()}")
        cmd += ["-dump", dump_file]
        dump_file += ".dump"
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.setdefault("TIER", TIER)
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=WORK, env=e, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=timeout, text=True,
        )
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC {module}/{cfg} timed out") from exc
    finally:
        subprocess.run(["rm", "-rf", meta], check=False)
    if p.returncode != 0:
        if "TRACE_FILE" in (env or {}):
            raise Unevaluable(module, p.stdout)
        raise MachineryError(
            f"TLC {module}/{cfg} ended with {p.returncode}:\n{p.stdout[-6000:]}"
        )
    res = Tlc(module, p.stdout, dump_file)
    print(
        f"# TLC {cfg}: {res.generated} generated, {res.distinct} distinct, "
        f"{time.time() - t0:.1f}s", flush=True,
    )
    return res


_REC = re.compile(r"(\w+) \|->")
_EMPTY = re.compile(r"<<\s*>>")


def tla_value(s):
    """Convert a TLC value to Python: sequences to tuples, records to dicts,
    sets to frozensets (records inside sets to tuples of items)."""
    s = _EMPTY.sub("\x01", s)
    s = _REC.sub(r"'\1':", s)
    s = (
        s.replace("<<", "(").replace(">>", ",)").replace("\x01", "()")
        .replace("[", "{").replace("]", "}")
        .replace("TRUE", "True").replace("FALSE", "False")
    )
    return eval(s, {"__builtins__": {}}, {})  # pylint: disable=eval-used


def read_dump(path, keep=None, raw=()):
    """Yield each dumped state as a dict variable -> value (only those in
    keep, if given; those in raw as text for tla_value)."""
    with open(path, encoding="utf-8") as f:
        buf = []
        for ln in f:
            if ln.startswith("State "):
                if buf:
                    yield _state(buf, keep, raw)
                buf = []
            else:
                buf.append(ln)
        if buf:
            yield _state(buf, keep, raw)


_VAR = re.compile(r"^(?:/\\ )?(\w+) = (.*)$", re.S)


def _state(lines, keep, raw):
    st, cur = {}, None
    for ln in lines:
        ln = ln.rstrip("\n")
        if ln.startswith("/\\ ") or (cur is None and " = " in ln):
            if cur:
                _put(st, cur, keep, raw)
            cur = ln
        elif cur is not None and ln.strip():
            cur += " " + ln.strip()
    if cur:
        _put(st, cur, keep, raw)
    return st


def _put(st, txt, keep, raw):
    m = _VAR.match(txt)
    if not m:
        raise MachineryError(f"cannot parse dumped state: {txt[:200]}")
    if keep is None or m.group(1) in keep:
        v = m.group(2)
        st[m.group(1)] = v if m.group(1) in raw else tla_value(v)


# ------------------------------------------------------------------ replay

_FUN = None


def _init(fun):
    global _FUN
    _FUN = fun
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)


def _run_chunk(chunk):
    bad, n = [], 0
    for case in chunk:
        n += 1
        try:
            msgs = _FUN(case)
        except MachineryError:
            raise
        except Exception:  # pylint: disable=broad-except
            msgs = ["unexpected exception: " + traceback.format_exc(limit=6)]
        if msgs:
            bad.append((case, list(msgs)[:5]))
            if len(bad) >= 5:
                break
    return n, bad


def replay(fun, cases, chunk=200, nproc=None):
    """Run fun(case) -> list of mismatch messages for all cases, in parallel.
    Returns (number of cases run, list of (case, messages))."""
    cases = list(cases)
    chunks = [cases[i : i + chunk] for i in range(0, len(cases), chunk)]
    n, bad = 0, []
    if not chunks:
        raise MachineryError("nothing to replay")
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc or NPROC, initializer=_init, initargs=(fun,)) as pool:
        results = pool.imap_unordered(_run_chunk, chunks)
        for _ in chunks:
            try:
                k, b = results.next(timeout=PATIENCE)
            except mp.TimeoutError:
                bad.append(("unfinished", [f"no answer within {PATIENCE} s"]))
                pool.terminate()
                break
            n += k
            bad += b
            if len(bad) >= 20:
                pool.terminate()
                break
    return n, bad


# --------------------------------------------------------------- reporting


class Check:
    """Collects what one check run did and ends it."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.rng = random.Random(f"{SEED}-{pid}")
        self.states = self.transitions = self.traces = 0
        self.replayed = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.bad = []  # (kind, case, messages)
        self.doubts = []
        self.known = load_known(pid)
        self.known_hit = {}

    # -- TLC exploration with exhaustive replay
    def explore(self, module, cfg=None, dump=True, **kw):
        r = tlc(module, cfg, dump=dump, **kw)
        self.states += r.distinct
        self.transitions += r.generated - r.initial
        return r

    def replay(self, kind, fun, cases, chunk=200, nproc=None):
        cases = list(cases)
        t0 = time.time()
        n, bad = replay(fun, cases, chunk, nproc)
        self.replayed += n
        self.traces += n
        self.extra[f"replayed_{kind}"] = self.extra.get(f"replayed_{kind}", 0) + n
        self.samples.append({"kind": kind, "case": cases[len(cases) // 2]})
        print(f"# replay {kind}: {n} behaviours, {len(bad)} bad, "
              f"{time.time() - t0:.1f}s", flush=True)
        for case, msgs in bad:
            self.fail(kind, case, msgs)

    # -- validation of recorded traces
    def validate(self, kind, module, records, corrupt, cfg=None, env_extra=None, **kw):
        """records: JSON-able records taken from the real code.
        corrupt: makes the records that are wrong on purpose and that TLC has
        to reject."""
        records = list(records)
        if not records:
            self.doubt(f"{kind}: no records")
            return
        try:
            corrupt = list(corrupt())
        except Exception:  # pylint: disable=broad-except
            corrupt = []
            self.doubt(f"{kind}: no corrupted record: {traceback.format_exc(limit=-2)}")
        if not corrupt:
            self.doubt(f"{kind}: no corrupted record")
        while True:
            path = os.path.join(WORK, f"trace-{kind}-{time.time_ns()}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(records + corrupt, f)
            try:
                r = tlc(module, cfg, env={"TRACE_FILE": path, **(env_extra or {})},
                        workers=1, **kw)
                break
            except Unevaluable as exc:
                # the specification has no meaning for a recorded value
                if exc.at is None or exc.at >= len(records) or len(records) < 2:
                    raise
                self.fail(kind, records.pop(exc.at), [f"outside of {module}: {exc.what}"])
                if len(self.bad) > 5:
                    return
        self.states += r.distinct
        self.transitions += r.generated - r.initial
        done = r.prints("DONE")
        n = len(records) + len(corrupt)
        if not done or done[-1][1] != n:
            raise MachineryError(f"{kind}: TLC judged {done} of {n} records\n{r.out[-3000:]}")
        rejected = {}
        for v in r.prints("REJECT"):
            rejected.setdefault(v[1], []).append(v[2])
        for i in range(len(records), n):
            if i + 1 not in rejected:
                self.doubt(f"{kind}: corrupted record accepted: {(records + corrupt)[i]}")
        good = 0
        for i, rec in enumerate(records):
            if i + 1 in rejected:
                self.fail(kind, rec, [f"rejected by {module}: {rejected[i + 1]}"])
            else:
                good += 1
        self.traces += good
        self.extra[f"traces_{kind}"] = self.extra.get(f"traces_{kind}", 0) + good
        self.extra["corrupted_records_rejected"] = (
            self.extra.get("corrupted_records_rejected", 0) + len(corrupt)
        )
        s = json.dumps(records[0])
        self.samples.append({"kind": kind, "record": s[:1500]})

    # -- verdicts
    def fail(self, kind, case, msgs):
        for pat, what in self.known:
            if pat.search(f"{kind}: {json.dumps(case, default=str)} {' '.join(map(str, msgs))}"):
                self.known_hit[what] = self.known_hit.get(what, 0) + 1
                return
        self.bad.append((kind, case, [str(m) for m in msgs]))

    def doubt(self, msg):
        """Something is odd about the check, unless the code is to blame: an
        error of the check if no violation is found."""
        self.doubts.append(msg)

    def record(self, kind, fun, n):
        """n records made by fun() from the real code, which must not fail."""
        recs, bad = [], 0
        while len(recs) < n and bad < 5:
            try:
                r = fun()
            except MachineryError:
                raise
            except Exception:  # pylint: disable=broad-except
                bad += 1
                self.fail(f"recording-{kind}", {"record": len(recs) + bad},
                          ["unexpected exception: " + traceback.format_exc(limit=-4)])
                continue
            if r is not None:
                recs.append(r)
        return recs

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples[:12],
        }
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED, "level": self.level, "coverage": cov,
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions, "violations": len(self.bad),
        }
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=_default)
        for what, n in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what} ({n} cases)")
        if not self.bad:
            print(f"OK property={self.pid} states={self.states} "
                  f"traces={self.traces} wall={ev['wall_s']}s")
            return 0
        path = os.path.join(VERIF, "evidence", f"replay-{self.pid}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(
                [{"kind": k, "case": c, "messages": m} for k, c, m in self.bad[:20]],
                f, indent=1, default=_default,
            )
        for k, c, m in self.bad[:3]:
            print(f"# {k}: {json.dumps(c, default=_default)[:600]}")
            for x in m[:3]:
                print("#    " + x[:600])
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


def _default(o):
    if isinstance(o, (frozenset, set)):
        return sorted(o, key=str)
    if hasattr(o, "tolist"):
        return o.tolist()
    return str(o)


def load_known(pid):
    """Known findings: lines `finding: property=<id> match=<regex> :: <text>`."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for ln in f:
                m = re.match(r"finding: property=(\w+) match=(.+?) :: (.+)", ln)
                if m and m.group(1) == pid:
                    res.append((re.compile(m.group(2)), m.group(3)))
    return res


def main(pid, runner):
    """Run a check function and translate its ending into the exit code."""
    chk = Check(pid)
    try:
        runner(chk)
    except Exception as exc:  # pylint: disable=broad-except
        if not isinstance(exc, MachineryError) and any(
            f.filename.startswith("/repo/") for f in traceback.extract_tb(exc.__traceback__)
        ):
            chk.fail("recording", "see message",
                     ["unexpected exception: " + traceback.format_exc(limit=-5)])
        if not chk.bad:
            traceback.print_exc()
            return 3
        print(f"# ended early: {type(exc).__name__}: {str(exc)[:300]}")
    if chk.doubts and not chk.bad:
        print("\n".join(["ERROR of the check:"] + chk.doubts), file=sys.stderr)
        return 3
    return chk.finish()
