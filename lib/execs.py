"""Executors owned by the harness"""
from concurrent.futures import Executor, Future


class _LazyFuture(Future):
    """A future whose job gets executed when the harness says so, or when its result is awaited"""

    def __init__(self, ex, fun, args, kwargs):
        super().__init__()
        self.ex, self.job = ex, (fun, args, kwargs)

    def run_now(self):
        if self.job is None:
            return
        fun, args, kwargs = self.job
        self.job = None
        self.set_running_or_notify_cancel()
        try:
            r = fun(*args, **kwargs)
        except BaseException as e:
            self.set_exception(e)
        else:
            self.set_result(r)

    def result(self, timeout=None):
        self.ex.run_until(self)
        return super().result(timeout=0)

    def exception(self, timeout=None):
        self.ex.run_until(self)
        return super().exception(timeout=0)


class FIFOExecutor(Executor):
    """Executes jobs strictly in order, as late as possible"""

    def __init__(self):
        self.queue = []
        self.submitted = 0

    def submit(self, fn, /, *args, **kwargs):
        f = _LazyFuture(self, fn, args, kwargs)
        self.queue.append(f)
        self.submitted += 1
        return f

    def run_until(self, fut):
        while fut.job is not None and self.queue:
            self.queue.pop(0).run_now()

    def run(self, n=None):
        while self.queue and (n is None or n > 0):
            self.queue.pop(0).run_now()
            if n is not None:
                n -= 1


class OnDemandExecutor(FIFOExecutor):
    """Awaiting a result executes only the awaited job; the rest waits for the harness"""

    def run_until(self, fut):
        if fut in self.queue:
            self.queue.remove(fut)
        fut.run_now()


class ImmediateExecutor(Executor):
    def __init__(self):
        self.submitted = 0

    def submit(self, fn, /, *args, **kwargs):
        self.submitted += 1
        f = Future()
        f.set_running_or_notify_cancel()
        try:
            r = fn(*args, **kwargs)
        except BaseException as e:
            f.set_exception(e)
        else:
            f.set_result(r)
        return f
