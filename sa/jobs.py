"""Time and memory of a run, and a pool of fresh processes, one for each job.

A run that needs more than it may use stops where it is: what it did not look at is undecided, never a finding."""
import gc, multiprocessing, multiprocessing.connection, os, resource, signal, time, traceback
from ir import AnalysisBroken

UNTIL = [None]          # when to stop
HELD = [20 << 30]       # bytes a process may hold
PAGE = os.sysconf("SC_PAGE_SIZE")


class Spent(Exception):
    """the run has used up what it may use"""


def limit(seconds):
    """called once, at the start of the run"""
    UNTIL[0] = time.time() + seconds
    alarm()


def alarm():
    """a single step that takes too long is interrupted as well"""
    def ring(sig, frame):
        signal.setitimer(signal.ITIMER_REAL, 5)
        raise Spent("time")
    if UNTIL[0] is not None:
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, max(0.1, UNTIL[0] + 10 - time.time()))


def spent():
    if UNTIL[0] is not None and time.time() > UNTIL[0]:
        return "time"
    with open("/proc/self/statm") as f:
        if int(f.read().split()[1]) * PAGE > HELD[0]:
            return "memory"
    return None


def _child(fn, job, out, held):
    HELD[0] = held
    resource.setrlimit(resource.RLIMIT_AS, (held + (2 << 30), held + (2 << 30)))
    alarm()
    try:
        r = fn(job)
    except (Spent, MemoryError):
        r = None
    except AnalysisBroken:
        raise
    except Exception:       # what the analysis cannot follow is undecided
        traceback.print_exc()
        r = None
    signal.setitimer(signal.ITIMER_REAL, 0)
    out.send((r,))
    out.close()
    os._exit(0)


def each(fn, jobs, n=None, gb=3):
    """yields (job, result) as they come; the result is None where the process did not get to one"""
    n = n or int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    gc.collect()
    gc.freeze()
    todo = list(jobs)
    todo.reverse()
    running = {}
    try:
        while todo or running:
            while todo and len(running) < n:
                j = todo.pop()
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(fn, j, b, gb << 30))
                p.start()
                b.close()
                running[a] = (p, j)
            wait = None if UNTIL[0] is None else max(1, UNTIL[0] + 40 - time.time())
            ready = multiprocessing.connection.wait(list(running), wait)
            if not ready:       # they do not even stop by themselves
                for a, (p, j) in list(running.items()):
                    p.kill(); p.join(); a.close()
                    yield j, None
                running.clear()
                for j in todo:
                    yield j, None
                return
            for a in ready:
                p, j = running.pop(a)
                try:
                    r = a.recv()[0]
                    broken = False
                except EOFError:
                    r, broken = None, True
                a.close()
                p.join()
                if broken and p.exitcode not in (0, -9, None):
                    raise RuntimeError("a process of the analysis failed")
                yield j, r
    finally:
        for a, (p, j) in running.items():
            p.kill(); p.join(); a.close()


def undecided(what):
    from engine import Finding
    return Finding("engine", "time or memory ran out", what, [], [], False, "not looked at to the end")
