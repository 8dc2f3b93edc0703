"""Runs sampled cases on the real code in worker processes and judges them."""
import json
import os
import queue
import select
import subprocess
import sys
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))


class Hang(Exception):
    pass


class Worker:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, "-B", os.path.join(HERE, "worker.py"), REPO], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0, cwd="/tmp")
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def call(self, calls, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        try:
            self.p.stdin.write((json.dumps(calls) + "\n").encode())
        except BrokenPipeError:
            self.stop()
            return [["exc", "Crash", "worker died"] for _ in calls]
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                return [["exc", "Hang", f"no answer within {timeout} s"] for _ in calls]
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    self.stop()
                    return [["exc", "Crash", "worker died"] for _ in calls]
                self.buf += d
        line, _, self.buf = self.buf.partition(b"\n")
        return [dec(x) for x in json.loads(line)]


def dec(x):
    if x[0] == "int":
        return ["int", int(x[1], 16)]
    return x


class Case:
    __slots__ = ("calls", "judge", "kind", "fresh")

    def __init__(self, calls, judge, kind="", fresh=False):
        self.calls = [[f, list(a)] for f, a in calls]
        self.judge = judge  # results -> None or description of the violation
        self.kind = kind
        self.fresh = fresh  # in a new process


class Report:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.kinds = {}
        self.violations = []  # (case, results, message)
        self.wall = 0.0


def run(cases, budget=20.0, workers=4, stop_at=3):
    """cases: iterator.  Stops at the time budget or after stop_at violations."""
    rep = Report()
    t0 = time.time()
    lock = threading.Lock()
    it = iter(cases)
    done = threading.Event()
    errors = []

    def loop():
        try:
            loop1()
        except BaseException as e:  # noqa
            errors.append(e)
            done.set()

    def loop1():
        w = Worker()
        try:
            while not done.is_set():
                with lock:
                    batch = []
                    for c in it:
                        batch.append(c)
                        if len(batch) >= 16:
                            break
                if not batch:
                    return
                for c in batch:
                    if done.is_set():
                        return
                    if c.fresh:
                        w.stop()
                    res = w.call(c.calls)
                    msg = c.judge(res)
                    if msg and any(r[0] == "exc" and r[1] in ("Hang", "Crash") for r in res):
                        w.stop()
                        res = w.call(c.calls, 40)  # not the machine's fault?
                        msg = c.judge(res)
                    with lock:
                        rep.evaluations += len(c.calls)
                        rep.distinct.add(json.dumps(c.calls))
                        rep.kinds[c.kind] = rep.kinds.get(c.kind, 0) + 1
                        if len(rep.samples) < 6 and rep.kinds[c.kind] == 1:
                            rep.samples.append({"calls": c.calls, "results": [[a, (str(b) if a == "int" else b)]
                                                                             for a, b, *_ in res]})
                        if msg:
                            rep.violations.append((c, res, msg))
                            if len(rep.violations) >= stop_at:
                                done.set()
                    if time.time() - t0 > budget:
                        done.set()
        finally:
            w.stop()

    ths = [threading.Thread(target=loop) for _ in range(workers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise errors[0]
    rep.wall = time.time() - t0
    return rep
