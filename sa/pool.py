"""Runs jobs in processes of their own: one that dies, needs too much memory or never ends
costs its own answer and nothing else."""
import multiprocessing as mp
import os
import resource
import time
from multiprocessing.connection import wait

MEMORY = int(os.environ.get("SA_JOB_MB", "3300")) << 20
TOTAL = int(os.environ.get("SA_TOTAL", "700"))


def child(fn, j, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (ValueError, OSError):
        pass
    try:
        r = fn(j)
    except MemoryError:
        r = None
    conn.send(r)
    conn.close()
    os._exit(0)


def each(fn, jobs, total=TOTAL):
    """-> (job, result, None) or (job, None, reason), in order of completion."""
    ctx = mp.get_context("fork")
    todo = list(jobs)[::-1]
    n = min(8, os.cpu_count() or 1)
    end = time.time() + total
    run = {}
    try:
        while todo or run:
            while todo and len(run) < n and time.time() < end:
                j = todo.pop()
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=child, args=(fn, j, w), daemon=True)
                p.start()
                w.close()
                run[r] = (j, p)
            if time.time() >= end:
                for j in [x for x, _ in run.values()] + todo[::-1]:
                    yield j, None, "time limit of %d s for the whole check" % total
                return
            for r in wait(list(run), timeout=max(0.1, end - time.time())):
                j, p = run.pop(r)
                try:
                    res = r.recv()
                except (EOFError, OSError):
                    res = None
                r.close()
                p.join(5)
                if res is None:
                    yield j, None, "the analysis ran out of memory"
                else:
                    yield j, res, None
    finally:
        for r, (j, p) in run.items():
            p.kill()
