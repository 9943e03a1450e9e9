"""Shared machinery: run TLC, judge traces, write evidence, report."""

from __future__ import annotations

import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVIDENCE = VERIF / "evidence"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself failed: no verdict."""


class Scratch:
    """A temporary directory for one run."""

    def __init__(self) -> None:
        self.path = Path(tempfile.mkdtemp(prefix="dpdcheck."))

    def cleanup(self) -> None:
        shutil.rmtree(self.path, ignore_errors=True)


def tlc(
    module: str,
    cfg: str,
    scratch: Scratch,
    env: dict[str, str] | None = None,
    workers: int = 8,
    args: tuple[str, ...] = (),
    timeout: int = 800,
    heap: str = "6g",
    jit: bool = False,
) -> dict:
    """Run TLC; return counts and output. Raises MachineryError on anything odd."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch.path)
    cmd = [
        "java", "-XX:+UseParallelGC", *([] if jit or os.environ.get("VERIF_TIER") == "thorough" else ["-XX:TieredStopAtLevel=1"]), f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
        "-config", str(SPEC / cfg), *args, str(SPEC / f"{module}.tla"),
    ]
    t = time.time()
    try:
        proc = subprocess.run(
            cmd, capture_output=True, text=True, timeout=timeout, check=False,
            cwd=scratch.path, env={**os.environ, **(env or {})},
        )
    except subprocess.TimeoutExpired as e:
        msg = f"TLC timed out on {module}/{cfg}"
        raise MachineryError(msg) from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = proc.stdout
    nums = re.findall(r"([\d,]+) states generated[^\n]*?([\d,]+) distinct states found", out)
    generated = distinct = 0
    if nums:
        generated, distinct = (int(x.replace(",", "")) for x in nums[-1])
    return {
        "rc": proc.returncode,
        "out": out,
        "err": proc.stderr,
        "generated": generated,
        "distinct": distinct,
        "wall": time.time() - t,
        "ok": proc.returncode == 0 and ("No error has been found" in out or "simulat" in out.lower()),
    }


def model_check(module: str, cfg: str, scratch: Scratch, **kw) -> dict:
    """Exhaustive design-level run that has to succeed."""
    r = tlc(module, cfg, scratch, **kw)
    if not r["ok"]:
        tail = "\n".join(r["out"].splitlines()[-40:])
        msg = f"design-level model checking of {module}/{cfg} failed:\n{tail}\n{r['err'][-800:]}"
        raise MachineryError(msg)
    return r


def _unescape(s: str) -> str:
    return s.replace('\\"', '"').replace("\\\\", "\\")


OUTSIDE = "outside the domain of the specification"


def judge(module: str, events: list[dict], scratch: Scratch, cfg: str | None = None, **kw) -> dict:
    """Let TLC judge every event of a trace: {index: [failing clauses]}.

    Every `Trace*.tla` prints one line ``JUDGE <json>`` per event.
    """
    verdicts: dict[int, list[str]] = {}
    total = {"generated": 0, "distinct": 0}
    for attempt in range(8):
        todo = [i for i in range(len(events)) if i not in verdicts]
        path = scratch.path / f"{module}.{len(os.listdir(scratch.path))}.ndjson"
        with open(path, "w") as f:
            for i in todo:
                f.write(json.dumps(events[i]) + "\n")
        r = tlc(module, cfg or f"{module}.cfg", scratch, env={"TRACE_FILE": str(path)}, **kw)
        total = {k: n + r[k] for k, n in total.items()}
        for line in r["out"].splitlines():
            line = line.strip()
            if line.startswith('"JUDGE '):
                obj = json.loads(_unescape(line[7:-1]))
                verdicts[todo[obj["i"] - 1]] = sorted(obj["fails"])
        if r["ok"] and len(verdicts) == len(events):
            break
        # an observation that the specification cannot make sense of is none of its behaviours
        error = r["out"].find("Error: ")
        at = re.search(r"idx = (\d+)", r["out"][error:]) if error >= 0 else None
        if not at or "OutOfMemory" in r["out"] or "StackOverflow" in r["out"] or todo[int(at[1]) - 1] in verdicts or attempt > 6:  # noqa: PLR2004
            tail = "\n".join(r["out"].splitlines()[-60:])
            keep = Path(tempfile.gettempdir()) / f"failed-{module}.ndjson"
            shutil.copy(path, keep)
            msg = (
                f"TLC judged {len(verdicts)} of {len(events)} events of {module} (trace {keep}):\n"
                f"{tail}\n{r['err'][-800:]}"
            )
            raise MachineryError(msg)
        verdicts[todo[int(at[1]) - 1]] = [OUTSIDE]
        if len(verdicts) == len(events):
            break
    r.update(total)
    r["verdicts"] = verdicts
    return r


def generate(module: str, cfg: str, scratch: Scratch, num: int, depth: int, seed: int) -> list:
    """Behaviours of a specification from TLC's simulator: `HISTORY <json>` lines."""
    r = tlc(
        module, cfg, scratch, workers=1,
        args=("-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(seed)), jit=num * depth > 400,
    )
    out = [
        json.loads(_unescape(line.strip()[9:-1]))
        for line in r["out"].splitlines() if line.strip().startswith('"HISTORY ')
    ]
    if "Error:" in r["out"] or not out:
        tail = "\n".join(r["out"].splitlines()[-40:])
        msg = f"no behaviours from {module}/{cfg}:\n{tail}"
        raise MachineryError(msg)
    return out


def enumerate_all(module: str, cfg: str, scratch: Scratch) -> tuple[list, dict]:
    """All `HISTORY <json>` lines of an exhaustive run, and the run."""
    r = model_check(module, cfg, scratch, workers=1)
    out = [
        json.loads(_unescape(line.strip()[9:-1]))
        for line in r["out"].splitlines() if line.strip().startswith('"HISTORY ')
    ]
    return out, r


def load_known() -> list[dict]:
    return json.loads((VERIF / "known_findings.json").read_text())["findings"]


class Check:
    """Collects what one check does and produces its verdict."""

    def __init__(self, pid: str) -> None:
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.scratch = Scratch()
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples: list = []
        self.violations: list[dict] = []
        self.known_hits: dict[str, str] = {}
        self.assumptions: list[str] = []
        self.design: list[str] = []
        self.extra: dict = {}
        self.rule = ""
        self.known = [k for k in load_known() if k["property"] == pid and k["status"] == "open"]

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def n(self, quick: int, thorough: int) -> int:
        return thorough if self.thorough else quick

    def model_check(self, module: str, cfg: str, **kw) -> dict:
        r = model_check(module, cfg, self.scratch, **kw)
        if r["distinct"] == 0:
            msg = f"vacuous model checking run {module}/{cfg}"
            raise MachineryError(msg)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.design.append(f"{module}/{cfg}: {r['generated']} generated, {r['distinct']} distinct, {r['wall']:.1f}s")
        return r

    def enumerate(self, module: str, cfg: str) -> list:
        out, r = enumerate_all(module, cfg, self.scratch)
        if not out:
            msg = f"{module}/{cfg} generates nothing"
            raise MachineryError(msg)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.design.append(f"{module}/{cfg}: {r['generated']} generated, {r['distinct']} distinct, {r['wall']:.1f}s")
        return out

    def judge(self, module: str, events: list[dict], canaries=(), cfg: str | None = None, **kw) -> dict:
        """Judge events; `canaries` are corrupted events that must be rejected.

        canaries: list of (event, clause prefix that has to fail).
        """
        if not events:
            msg = "no events to judge"
            raise MachineryError(msg)
        everything = list(events) + [c[0] for c in canaries]
        r = judge(module, everything, self.scratch, cfg=cfg, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.traces += len(events)
        verdicts = r["verdicts"]
        clean = {i for i in range(len(events)) if not verdicts[i]}
        bad = [i for i in range(len(events)) if verdicts[i]]
        for i in bad:
            self.fail(events[i], verdicts[i])
        for n, (event, clause) in enumerate(canaries):
            got = verdicts[len(events) + n]
            # a canary derives from a clean event; if the code is broken it proves nothing
            source = event.get("canary_of")
            if source is not None and source not in clean or got == [OUTSIDE] and bad:
                continue
            if not any(c.startswith(clause) for c in got):
                msg = f"canary {n} ({clause}) was accepted by {module}: {got}"
                raise MachineryError(msg)
        self.extra["canaries_rejected"] = self.extra.get("canaries_rejected", 0) + len(canaries)
        for i in list(clean)[:2]:
            if len(self.samples) < 4:  # noqa: PLR2004
                self.samples.append(shorten(events[i]))
        return r

    def fail(self, event: dict, clauses: list[str]) -> None:
        rest = []
        for c in clauses:
            for k in self.known:
                if re.fullmatch(k["clause"], c) and re.fullmatch(k["event"], str(event.get("label", ""))):
                    self.known_hits[k["id"]] = k["what"]
                    break
            else:
                rest.append(c)
        if rest:
            self.violations.append({"clauses": rest, "event": event})

    def expect_known(self) -> None:
        """Each open finding should still be observed; report it either way."""

    def finish(self) -> int:
        wall = time.time() - self.t0
        EVIDENCE.mkdir(exist_ok=True)
        doc = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "design_runs": self.design,
                "rule": self.rule,
                "samples": self.samples,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        (EVIDENCE / f"{self.pid}.json").write_text(json.dumps(doc, indent=1) + "\n")
        for kid, what in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {kid}: {what}")
        print(
            f"{self.pid} [{self.tier}, seed {self.seed}]: {self.traces} events judged by TLC,"
            f" {self.states} distinct states, {self.transitions} generated, {wall:.1f} s"
        )
        if self.violations:
            replay_dir = VERIF / "evidence" / "replay"
            replay_dir.mkdir(parents=True, exist_ok=True)
            replay = replay_dir / f"{self.pid}.json"
            replay.write_text(json.dumps(self.violations[:50], indent=1) + "\n")
            for v in self.violations[:5]:
                print(f"  {v['event'].get('label', '')}: {', '.join(map(str, v['clauses'][:6]))}")
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        return 0


def shorten(obj, limit: int = 700):
    text = json.dumps(obj)
    return obj if len(text) <= limit else text[:limit] + "..."


_PATIENCE = [240, 10]  # seconds for the first call that does not return, and for those after it


class NoAnswer(Exception):  # noqa: N818
    """Code under test did not return."""


@contextlib.contextmanager
def patience():
    """Interrupt code that hangs, where usual calls take milliseconds."""
    usable = threading.current_thread() is threading.main_thread() and not signal.getitimer(signal.ITIMER_REAL)[0]
    if not usable:
        yield
        return

    def give_up(_signal, _frame):
        if len(_PATIENCE) > 1:
            del _PATIENCE[0]
        raise NoAnswer

    before = signal.signal(signal.SIGALRM, give_up)
    signal.setitimer(signal.ITIMER_REAL, _PATIENCE[0], 10)  # again, if it was ignored
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)


def observe(fn, *args, **kwargs):
    """Run code under test: ('ok', value) or ('raised', exception type name)."""
    import warnings  # noqa: PLC0415

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with patience():
                return "ok", fn(*args, **kwargs)
        except Exception as e:  # noqa: BLE001
            return "raised", type(e).__name__


def together(*calls) -> list:
    """Run calls that mostly wait for TLC at the same time."""
    from concurrent.futures import ThreadPoolExecutor  # noqa: PLC0415

    with ThreadPoolExecutor(len(calls)) as pool:
        return [f.result() for f in [pool.submit(c) for c in calls]]


_JOB = None


def _call_job(x):
    return _JOB(x)


def pmap(fn, items, workers: int = 8) -> list:
    """Map in forked processes, in order; every worker inherits the imported code."""
    import multiprocessing  # noqa: PLC0415

    global _JOB  # noqa: PLW0603
    items = list(items)
    if len(items) < 2:  # noqa: PLR2004
        return [fn(x) for x in items]
    _JOB = fn
    try:
        with multiprocessing.get_context("fork").Pool(min(workers, len(items))) as pool:
            return pool.map(_call_job, items, chunksize=1)
    finally:
        _JOB = None


def bump(z):
    """Corrupt a value of GF(p^2)."""
    return [(z[0] + 1) % 42719, z[1]]
