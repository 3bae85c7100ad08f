"""The explorer all checks share: runs the tasks of a check in forked workers, collects coverage and violations.

A check is a module in /verif/checks with
    PID, TITLE, ASSUMPTIONS, BOUNDS
    def tasks(tier): -> list of (name, function, argument tuple); every function(ctx, *args) enumerates a finite space
Inside a task:
    ctx.state(key)      a state of the explored space was reached (counted once per distinct key)
    ctx.step(n)         n operations / queries of the implementation were executed
    ctx.trace(n)        n complete histories were executed on the implementation and compared, step by step, with the model
    ctx.fail(sig, msg)  the implementation disagreed with the model; sig names the failing input or history
    with ctx.at(sig):   an exception inside is a disagreement too
Nothing is sampled: VERIF_SEED only decides the order in which tasks are started.
"""
import contextlib
import fnmatch
import hashlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAILS_PER_TASK = 3
TASK_LIMIT_S = float(os.environ.get("MMV_TASK_LIMIT_S", "120"))


class Stop(BaseException):
    """Enough violations in this task."""


class Ctx:
    def __init__(self, task, where):
        self.task = task
        self.where = where
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self.samples = []
        self.extra = {}

    def state(self, key):
        """True when this state had not been seen (in this task)."""
        if not isinstance(key, bytes):
            key = repr(key).encode()
        h = hashlib.blake2b(key, digest_size=8).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:400])

    def label(self, sig):
        b = str(sig).encode()[:4000]
        self.where[: len(b) + 1] = b + b"\0"

    def fail(self, sig, msg=""):
        sig = str(sig)[:600]
        if any(f[0] == sig for f in self.fails):
            return
        self.fails.append((sig, str(msg)[:3000]))
        if len([f for f in self.fails if not known_match(f[0])]) >= MAX_FAILS_PER_TASK:
            raise Stop()

    def expect(self, ok, sig, msg=""):
        if not ok:
            self.fail(sig, msg() if callable(msg) else msg)
        return bool(ok)

    @contextlib.contextmanager
    def at(self, sig):
        self.label(sig)
        try:
            yield
        except (Stop, KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.format_exc(limit=-6)
            self.fail(f"{sig} !{type(e).__name__}", tb)


# ---------------------------------------------------------------- known findings
_known = None
_pid = None


def known(pid):
    """[(pattern, text)] of the findings recorded for this property; a `fixed:` line suppresses nothing."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[7:].partition(" :: ")
                fields = dict(f.split("=", 1) for f in head.split(" ", 1))
                if fields["property"] == pid:
                    out.append((fields["match"], text))
    return out


def known_match(sig):
    for pattern, text in _known or ():
        if sig == pattern or fnmatch.fnmatchcase(sig, pattern):
            return pattern, text
    return None


# ---------------------------------------------------------------- running
def _worker(task, conn, where):
    name, fn, args = task
    ctx = Ctx(name, where)
    err = None
    t0 = time.time()
    try:
        fn(ctx, *args)
    except Stop:
        pass
    except BaseException:
        err = traceback.format_exc()
    data = pickle.dumps((name, ctx.states, ctx.transitions, ctx.traces, ctx.fails, ctx.samples, ctx.extra, err, time.time() - t0))
    with os.fdopen(conn, "wb") as f:
        f.write(data)


stop = {"now": False}


def run_tasks(tasks, jobs=None, limit_s=TASK_LIMIT_S, verbose=False):
    """Results of all tasks; a worker that dies or does not end is reported as (name, 'crash'|'hang', where)."""
    jobs = jobs or min(8, os.cpu_count() or 4)
    pending = list(tasks)
    running = {}
    sys.stdout.flush()
    sys.stderr.flush()
    while pending or running:
        if stop["now"]:
            pending.clear()
        while pending and len(running) < jobs:
            task = pending.pop(0)
            r, w = os.pipe()
            where = mmap.mmap(-1, 8192)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not verbose:
                        os.dup2(dn, 2)
                    _worker(task, w, where)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, task, time.time(), where, [])
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            pid, task, t0, where, chunks = running[r]
            data = os.read(r, 1 << 20)
            if data:
                chunks.append(data)
                continue
            os.close(r)
            _, status = os.waitpid(pid, 0)
            del running[r]
            text = where[:].split(b"\0", 1)[0].decode(errors="replace")
            if status == 0 and chunks:
                yield ("done", task, pickle.loads(b"".join(chunks)))
            else:
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status)
                yield ("crash", task, (text, f"the worker died (status {sig})"))
        now = time.time()
        for r, (pid, task, t0, where, chunks) in list(running.items()):
            if now - t0 > limit_s:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                text = where[:].split(b"\0", 1)[0].decode(errors="replace")
                yield ("hang", task, (text, f"no end within {limit_s:.0f} s"))


def main(mod, argv):
    global _known, _pid
    pid = mod.PID
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _known, _pid = known(pid), pid
    replay = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            replay = json.load(f)
        tier = replay.get("tier", tier)
    t0 = time.time()
    tasks = [(n, f, tuple(a)) for n, f, a in mod.tasks(tier)]
    assert len({t[0] for t in tasks}) == len(tasks), "task names are not unique"
    if replay:
        tasks = [t for t in tasks if t[0] == replay["task"]]
    if "--task" in argv:
        pat = argv[argv.index("--task") + 1]
        tasks = [t for t in tasks if fnmatch.fnmatchcase(t[0], pat)]
    random.Random(seed).shuffle(tasks)
    states, transitions, traces, extra, samples, bad, errors, times = set(), 0, 0, {}, [], [], [], []
    for kind, task, res in run_tasks(tasks, limit_s=getattr(mod, "TASK_LIMIT_S", TASK_LIMIT_S), verbose="-v" in argv):
        if sum(1 for b in bad if not known_match(b[1])) > 12 or kind == "hang":
            stop["now"] = True  # enough to report: start no further task
        if kind != "done":
            where, what = res
            bad.append((task[0], f"{where} !{kind}", what))
            continue
        name, st, tr, tc, fails, sam, ex, err, dt = res
        tag = name.encode()
        states |= {(tag, s) for s in st}
        transitions += tr
        traces += tc
        samples += [f"{name}: {s}" for s in sam[:1]]
        times.append((dt, name))
        for k, v in ex.items():
            extra[k] = extra.get(k, 0) + v
        bad += [(name, s, m) for s, m in fails]
        if err:
            bad.append((name, f"{name} !exception", err))
    wall = time.time() - t0
    new, listed = [], {}
    for name, sig, msg in sorted(bad):
        hit = known_match(sig)
        if hit:
            listed.setdefault(hit, []).append(sig)
        else:
            new.append((name, sig, msg))
    if not replay and "--task" not in argv:
        samples.sort()
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": len(states), "transitions": transitions, "traces_validated_against_impl": traces,
                "samples": samples[:8], "tasks": len(tasks), **extra,
                "exhaustive": not errors, "bounds": mod.BOUNDS,
            },
            "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(wall, 2), "violations": len(new),
            "known_findings_seen": sum(map(len, listed.values())),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{pid}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".tmp", path)
    for (pattern, text), sigs in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={pid} {text} [{len(sigs)} case(s), e.g. {sigs[0][:160]}]")
    print(f"{pid} {tier}: {len(tasks)} tasks, {len(states)} states, {transitions} transitions, {traces} traces, {wall:.1f} s")
    if "-t" in argv:
        for dt, n in sorted(times)[-12:]:
            print(f"   {dt:6.2f} s {n}")
    if new:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, (name, sig, msg) in enumerate(new[:5]):
            path = os.path.join(d, f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "task": name, "case": sig, "detail": msg,
                           "rerun": f"/opt/venv/bin/python /verif/checks/run.py {pid} --replay {path}"}, f, indent=1)
            print(f"  case {sig}\n    " + msg.strip().replace("\n", "\n    ")[:1500])
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for name, err in errors[:5]:
            print(f"ERROR in task {name}\n{err}", file=sys.stderr)
        return 2
    return 0
