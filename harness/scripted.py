"""A joblib backend that completes the tasks in a given order.

The order comes from a behaviour of spec/PermTest.tla.  If the code under test
submits other tasks than the schedule supposes (or none), the rest is executed
in an arbitrary order: the schedule only chooses among what is possible.
"""
from __future__ import annotations

import collections
import threading

import joblib
from joblib._parallel_backends import ParallelBackendBase, ThreadingBackend

ORDERS = collections.deque()     # orders of the coming Parallel calls
REALIZED = []                    # orders that were executed


class Scripted(ParallelBackendBase):
    supports_retrieve_callback = True
    uses_threads = True
    supports_sharedmem = True

    def effective_n_jobs(self, n_jobs):
        if n_jobs is None:
            return 1
        return n_jobs if n_jobs > 0 else 4

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel = parallel
        return self.effective_n_jobs(n_jobs)

    def start_call(self):
        self.cond = threading.Condition()
        self.pending = {}
        self.count = 0
        self.stopped = False
        self.done = []
        self.order = list(ORDERS.popleft()) if ORDERS else []
        self.thread = threading.Thread(target=self.control, daemon=True)
        self.thread.start()

    def stop_call(self):
        with self.cond:
            self.stopped = True
            self.cond.notify_all()
        REALIZED.append(list(self.done))

    def submit(self, func, callback=None):
        with self.cond:
            self.count += 1
            self.pending[self.count] = (func, callback)
            self.cond.notify_all()
        return self

    def control(self):
        order = list(self.order)
        while True:
            with self.cond:
                if order:
                    if not self.cond.wait_for(lambda: self.stopped or order[0] in self.pending, timeout=3):
                        if not self.pending:
                            continue
                        i = max(self.pending)      # not possible: any other
                    elif self.stopped:
                        return
                    else:
                        i = order[0]
                else:
                    self.cond.wait_for(lambda: self.stopped or self.pending)
                    if not self.pending:
                        return
                    i = max(self.pending)
                if i in order:
                    order.remove(i)
                func, callback = self.pending.pop(i)
            try:
                out = (func(), None)
            except BaseException as exc:  # noqa: BLE001
                out = (None, exc)
            self.done.append(i)
            if callback is not None:
                callback(out)

    def retrieve_result_callback(self, out):
        value, exc = out
        if exc is not None:
            raise exc
        return value

    def abort_everything(self, ensure_ready=True):
        with self.cond:
            self.stopped = True
            self.cond.notify_all()

    def get_nested_backend(self):
        return ThreadingBackend(nesting_level=1), None


joblib.register_parallel_backend("scripted", Scripted)
