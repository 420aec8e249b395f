"""A deterministic in-process MPI: ranks are threads, every communication call is a scheduling point.

Semantics kept from MPI: per (source, destination) channels are FIFO, a receive from ANY_SOURCE may match any
source with a pending message, ssend completes when its message is received, send may complete at once (eager)
or only when received (rendezvous), Iprobe may be polled.  Payloads are pickled.
"""
import sys, threading, types
import dill

ANY_SOURCE, ANY_TAG = -2, -1


class Abort(BaseException):
    pass


class World:
    def __init__(self, size, choose, rendezvous=False, limit=20000, log=None):
        self.size, self.choose, self.rendezvous, self.limit = size, choose, rendezvous, limit
        self.log = log if log is not None else []
        self.chan = {}                      # (src, dst) -> [ [tag, payload, taken] ]
        self.cv = threading.Condition()
        self.want = {}                      # rank -> (op, args) waiting to be granted
        self.grant = None                   # rank, granted result
        self.alive = set()
        self.idle_polls = 0
        self.outcome = None
        self.steps = 0
        self.tls = threading.local()

    # ---- called by rank threads ----
    def op(self, op, **a):
        r = self.tls.rank
        with self.cv:
            self.want[r] = (op, a)
            self.cv.notify_all()
            while not (self.grant and self.grant[0] == r):
                if self.outcome is not None:
                    raise Abort()
                self.cv.wait(30)
            res = self.grant[1]
            self.grant = None
            del self.want[r]
            self.cv.notify_all()
            return res

    # ---- scheduler ----
    def match(self, dst, source, tag, probe=False):
        """sources whose first matching message can be received"""
        out = []
        for s in range(self.size):
            if source not in (ANY_SOURCE, s):
                continue
            for m in self.chan.get((s, dst), []):
                if m[2]:
                    continue
                if tag in (ANY_TAG, m[0]):
                    out.append((s, m))
                    break
        return out

    def enabled(self, r):
        """list of alternatives for rank r's pending operation (empty: blocked)"""
        op, a = self.want[r]
        if op == "send":
            return [None]
        if op == "await":
            return [None] if a["m"][2] else []
        if op in ("recv", "probe"):
            ms = self.match(r, a["source"], a["tag"])
            return ms if op == "recv" else ms[:1]
        if op == "iprobe":
            return [None] if self.idle_polls < 2 or self.match(r, a["source"], a["tag"]) else []
        return [None]

    def perform(self, r, alt):
        op, a = self.want[r]
        if op == "send":
            m = [a["tag"], a["obj"], False]
            self.chan.setdefault((r, a["dest"]), []).append(m)
            self.idle_polls = 0
            return m
        if op == "recv":
            s, m = alt
            m[2] = True
            self.idle_polls = 0
            return s, m[0], m[1]
        if op == "probe":
            return alt[0], alt[1][0]
        if op == "iprobe":
            ms = self.match(r, a["source"], a["tag"])
            if not ms:
                self.idle_polls += 1
                return None
            return ms[0][0], ms[0][1][0]
        return None

    def start(self, mains):
        ths = []
        self.alive = set(range(len(mains)))
        for r, f in enumerate(mains):
            t = threading.Thread(target=self._main, args=(r, f), daemon=True)
            ths.append(t)
        for t in ths:
            t.start()
        while True:
            with self.cv:
                ok = self.cv.wait_for(lambda: self.grant is None and self.alive == set(self.want), 60)
                if not ok:
                    self.outcome = "stuck"
                elif not self.alive:
                    self.outcome = "ok"
                else:
                    alts = [(r, k, x) for r in sorted(self.alive) for k, x in enumerate(self.enabled(r))]
                    self.steps += 1
                    if not alts:
                        self.outcome = "deadlock"
                    elif self.steps > self.limit:
                        self.outcome = "livelock"
                    else:
                        # a worker's receive of its own task is invisible to the others: take it at once
                        quiet = [x for x in alts if x[0] != 0 and self.want[x[0]][0] in ("recv", "await")]
                        r, k, x = quiet[0] if quiet else (alts[0] if len(alts) == 1 else self.choose(alts))
                        self.grant = (r, self.perform(r, x))
                self.cv.notify_all()
                if self.outcome is not None:
                    break
        for t in ths:
            t.join(5)
        return self.outcome

    def _main(self, r, f):
        self.tls.rank = r
        try:
            f(r)
        except Abort:
            pass
        except SystemExit:
            pass
        except BaseException as ex:
            import traceback
            with self.cv:
                self.log.append(dict(op="exc", rank=r, what=type(ex).__name__ + ": " + str(ex)[:100] + traceback.format_exc()[-300:]))
        with self.cv:
            self.alive.discard(r)
            self.log.append(dict(op="exit", rank=r))
            self.cv.notify_all()


class Status:
    source = tag = -99
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag


class Request:
    def __init__(self, fn): self.fn = fn
    def wait(self, status=None): return self.fn()
    Wait = wait


class Comm:
    """mpi4py-like communicator of the current world; the rank is the calling thread's."""
    def __init__(self, world): self.w = world
    def Get_rank(self): return self.w.tls.rank
    def Get_size(self): return self.w.size
    rank = property(Get_rank)
    size = property(Get_size)

    def _post(self, obj, dest, tag, sync):
        w, r = self.w, self.w.tls.rank
        m = w.op("send", obj=dill.dumps(obj), dest=int(dest), tag=int(tag))
        w.log.append(dict(op="send", src=r, dst=int(dest), tag=int(tag), quit=obj is None))
        if sync or w.rendezvous:
            w.op("await", m=m)

    def send(self, obj, dest, tag=0): self._post(obj, dest, tag, False)
    def ssend(self, obj, dest, tag=0): self._post(obj, dest, tag, True)
    bsend = send
    def isend(self, obj, dest, tag=0):
        w = self.w
        m = w.op("send", obj=dill.dumps(obj), dest=int(dest), tag=int(tag))
        w.log.append(dict(op="send", src=w.tls.rank, dst=int(dest), tag=int(tag), quit=obj is None))
        return Request(lambda: None)
    issend = isend

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        w = self.w
        s, t, p = w.op("recv", source=source, tag=tag)
        if status is not None:
            status.source, status.tag = s, t
        obj = dill.loads(p)
        w.log.append(dict(op="recv", src=s, dst=w.tls.rank, tag=t, quit=obj is None))
        return obj
    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG): return Request(lambda: self.recv(None, source, tag))

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        s, t = self.w.op("probe", source=source, tag=tag)
        if status is not None:
            status.source, status.tag = s, t
        return True
    probe = Probe

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = self.w.op("iprobe", source=source, tag=tag)
        if r is None:
            return False
        if status is not None:
            status.source, status.tag = r
        return True
    iprobe = Iprobe


class _Pickle:
    def __init__(self, *a): pass
    dumps, loads = staticmethod(dill.dumps), staticmethod(dill.loads)


CUR = dict(comm=None)


class _WorldComm:
    def __getattr__(self, k): return getattr(CUR["comm"], k)


def install():
    """Make 'from mpi4py import MPI' find this implementation."""
    pkg, m = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
    m.ANY_SOURCE, m.ANY_TAG, m.Status, m.pickle, m.COMM_WORLD = ANY_SOURCE, ANY_TAG, Status, _Pickle(), _WorldComm()
    m.Comm = Comm
    pkg.MPI = m
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, m
    return m


def world(size, choose, **kw):
    w = World(size, choose, **kw)
    CUR["comm"] = Comm(w)
    return w
