"""P40: CPU time - load as measured, sleeping until it changes, and threads that run sooner when it is low"""
import sched as S           # before satella
import math
import multiprocessing
import threading
import time
import warnings

import psutil
from hypothesis import strategies as st

from harness import Property, check, eq, in_child, raises, HarnessError
from gen import op

from satella.instrumentation.cpu_time import calculate_occupancy_factor, sleep_cpu_aware, CPUTimeManager, get_own_cpu_usage, CPUTimeAwareIntervalTerminableThread

prop = Property('P40', ['CPU usage is what a stand-in for psutil tells', 'time is virtual, threads are switched when they sleep'])
warnings.simplefilter('ignore')

times0 = psutil.cpu_times()
own0 = psutil.Process().cpu_times()
CORES = multiprocessing.cpu_count()


class World:
    """A load that changes once in a while"""
    def __init__(self, segments):
        """:param segments: list of (length, load); the last one lasts forever"""
        self.edges, t = [], 0
        for length, load in segments:
            self.edges.append((t, load))
            t += length

    def install(self):
        self.t0 = None
        psutil.cpu_times = lambda *args, **kwargs: self.cpu_times()
        psutil.Process.cpu_times = lambda self_: self.own_times()

    def now(self):
        return S.current.now - self.t0

    def used(self, now):
        total = 0
        for i, (t, load) in enumerate(self.edges):
            end = self.edges[i + 1][0] if i + 1 < len(self.edges) else math.inf
            if now > t:
                total += load * (min(now, end) - t)
        return total

    def loads(self, a, b):
        """Loads that were there in this period"""
        return [load for i, (t, load) in enumerate(self.edges) if t <= b and (i + 1 == len(self.edges) or self.edges[i + 1][0] >= a)]

    def cpu_times(self):
        u = self.used(self.now()) * CORES
        zero = {k: 0 for k in times0._fields}
        zero.update(user=100 + u / 2, nice=u / 8, system=50 + u / 4, irq=u / 16, softirq=u / 32, steal=u / 32, idle=self.now() * CORES - u, iowait=self.now() * 3)
        # as on Linux: what was spent on guests is a part of the user time
        zero.update(guest=u / 4, guest_nice=u / 16)
        return times0._replace(**{k: v for k, v in zero.items() if k in times0._fields})

    def own_times(self):
        u = self.used(self.now())
        return own0._replace(user=3 + u, system=5 + u * 2, children_user=u / 2, children_system=7, iowait=u * 3)


load = st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.75, 1.0])
segments = st.lists(st.tuples(st.sampled_from([0.5, 1, 3, 10, 30, 100]), load), min_size=1, max_size=8)
threshold = st.one_of(st.none(), st.sampled_from([0.05, 0.2, 0.4, 0.6, 0.9]))
asking = st.lists(st.one_of(op('sleep', st.sampled_from([0, 0.05, 0.5, 1, 2.5, 10, 60])), op('ask'), op('ask'), op('aware', st.sampled_from([0, 0.5, 1, 3, 3.5, 10, '5s', '1m']), threshold, threshold, st.sampled_from([None, 1, 0.5, 3, 100])),
                            op('aware', st.sampled_from([1, 3, 10]), threshold, threshold, st.just(None)), op('percentiles', st.lists(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.9, 1.0]), min_size=1, max_size=4)), op('own'), op('window', st.sampled_from([1, 2, 5, 2.5])), op('refresh', st.sampled_from([1, 5, '7s'])), op('steady')), min_size=3, max_size=15)


def virtual(world, fun, trace=False):
    world.install()
    out = []

    def main():
        world.t0 = S.current.now
        out.append(fun())
    scheduler = S.Scheduler([], trace, free_time=trace)
    scheduler.run(main)
    return out[0]


EPS = 1e-4
PRIMING = 0.25


@prop.facet(st.tuples(segments, asking), 'load changed while it was watched', quick=250, thorough=6000)
def load_told(case):
    """Histories of asking about load and sleeping, in virtual time, against the load that was there"""
    return in_child(lambda: run_asking(*case))


def run_asking(segs, program):
    world = World(segs)
    window, refresh = 10, 10

    def main():
        nonlocal window, refresh
        last, interesting, started = None, False, None

        def start():
            nonlocal started
            if started is None:
                started = world.now()
        for o in program:
            a = world.now()
            if o[0] == 'sleep':
                time.sleep(o[1])
            elif o[0] == 'ask':
                start()
                got = calculate_occupancy_factor()
                check(world.now() - a <= PRIMING, 'asking took %s seconds', world.now() - a)
                since = 0 if last is None else last      # others ask as well
                loads = world.loads(since, world.now())
                check(min(loads) - EPS <= got <= max(loads) + EPS, 'load told is %r, it was within %r since last asked', got, loads)
                last = world.now()
                interesting = interesting or len(set(loads)) > 1
            elif o[0] == 'aware':
                seconds, below, above, each = o[1:]
                kwargs = {} if each is None else {'check_each': each}
                if below is not None and above is not None:
                    got = sleep_cpu_aware(seconds, below, above, **kwargs)
                elif above is not None:
                    got = sleep_cpu_aware(seconds, of_above=above, **kwargs)
                elif below is not None:
                    got = sleep_cpu_aware(seconds, of_below=below, **kwargs)
                else:
                    got = sleep_cpu_aware(seconds, **kwargs)
                seconds = {'5s': 5, '1m': 60}.get(seconds, seconds)
                elapsed = world.now() - a
                check(isinstance(got, bool), 'returned %r', got)
                if below is None and above is None:
                    check(got is False and abs(elapsed - seconds) < EPS, 'slept %s seconds, returned %r', elapsed, got)
                    continue
                start()
                last = world.now()
                loads = world.loads(a, world.now())
                slack = PRIMING + (int(seconds / (each or 1)) + 1) * 0.11
                check(elapsed <= seconds + slack, 'slept for %s seconds', elapsed)
                if got:
                    check((above is not None and max(loads) > above - EPS) or (below is not None and min(loads) < below + EPS), 'awoken although load was %r, asked for below %r or above %r', loads, below, above)
                    check(seconds > 0, 'awoken although it slept not')
                else:
                    check(elapsed > seconds - EPS, 'slept %s seconds only, and not awoken', elapsed)
                beyond = above is not None and min(loads) > above + EPS or below is not None and max(loads) < below - EPS
                if beyond and seconds > 0:
                    check(got, 'not awoken although load was %r', loads)
                    check(elapsed <= min(each or 1, seconds) + PRIMING, 'awoken as late as after %s seconds', elapsed)
                interesting = interesting or len(set(loads)) > 1
            elif o[0] == 'percentiles':
                start()
                got = [CPUTimeManager.percentile(p) for p in sorted(o[1])]
                eq(world.now() < a + EPS, True, 'asking for a percentile is immediate')
                eq(got, sorted(got), 'percentiles %r in order' % (sorted(o[1]),))
                loads = world.loads(0, world.now())
                if any(got):
                    check(min(loads) - EPS <= got[0] and got[-1] <= max(loads) + EPS, 'percentiles told %r, loads were %r', got, loads)
            elif o[0] == 'own':
                start()
                verify_own(get_own_cpu_usage(), world, 0)
            elif o[0] == 'window':
                start()
                CPUTimeManager.set_window_size(o[1])
                window = max(window, o[1])
            elif o[0] == 'refresh':
                start()
                CPUTimeManager.set_refresh_each(o[1])
                refresh = max(refresh, {'7s': 7}.get(o[1], o[1]))
            else:
                # everything is to follow a steady load
                start()
                CPUTimeManager.percentile(0.5)
                since = max(world.now(), world.edges[-1][0])
                steady = world.edges[-1][1]
                time.sleep(since - world.now() + 3 * (2 * window + refresh + 2))
                for p in (0.0, 0.3, 0.9, 1.0):
                    got = CPUTimeManager.percentile(p)
                    check(abs(got - steady) < 1e-3, 'percentile %s is %s with a steady load of %s', p, got, steady)
                own = get_own_cpu_usage()
                check(own is not None, 'own usage is not known after that long')
                verify_own(own, world, since)
        return interesting

    return virtual(world, main)


def verify_own(own, world, since):
    if own is None:
        return
    loads = world.loads(since, world.now())
    for field, factor in (('user', 1), ('system', 2), ('children_user', 0.5), ('children_system', 0), ('iowait', 3)):
        v = getattr(own, field)
        check(min(loads) * factor - EPS <= v <= max(loads) * factor + EPS, 'own %s is told to be %s, was within %r', field, v, [l * factor for l in loads])


class Stop(Exception):
    pass


@prop.facet(st.tuples(st.sampled_from([5, 10, '10s', 30, '1m', 2.5]), st.sampled_from([None, 0, 1, 2, 4, 25]), st.sampled_from(['none', 'drop', 'rise', 'drop']), st.sampled_from([0.5, 3, 7, 12]), st.sampled_from([None, 1, '2s']),
                      st.lists(st.sampled_from([0, 0, 0.5, 1, 3, 12, 70]), min_size=3, max_size=6), st.sampled_from(['terminate', 'terminate', 'raise', 'raise in prepare']), st.sampled_from([0.0, 0.3, 2, 4.4])), 'runs were sooner, or overrun', quick=150, thorough=4000)
def aware_thread(case):
    """Intervals between runs, in virtual time"""
    return in_child(lambda: run_thread(*case))


def run_thread(seconds, sooner, change, when, wakeup, durations, ending, extra):
    H, L = 0.5, {'none': 0.6, 'drop': 0.1, 'rise': 0.9}[change]
    start_at = 100
    world = World([(start_at + when, H + 0.0), (1, L)] if change != 'none' else [(start_at, H), (1, L)])
    seconds_ = {'10s': 10, '1m': 60}.get(seconds, seconds)
    sooner_ = seconds_ * 0.1 if sooner is None else min(sooner, seconds_)

    def main():
        CPUTimeManager.set_refresh_each(100000)
        time.sleep(start_at)            # a profile is there, and won't be rebuilt
        check(abs(CPUTimeManager.percentile(0.3) - H) < 1e-3, 'profile does not follow the load')
        starts, overruns, events = [], [], []

        class T(CPUTimeAwareIntervalTerminableThread):
            def prepare(self):
                events.append('prepare')
                if ending == 'raise in prepare':
                    raise Stop()

            def loop(self):
                starts.append(world.now())
                if len(starts) > len(durations) and ending == 'raise':
                    raise Stop()
                time.sleep(durations[min(len(starts), len(durations)) - 1])
                events.append('loop')

            def on_overrun(self, time_taken):
                overruns.append((len(starts), time_taken))

            def cleanup(self):
                events.append('cleanup')

        kwargs = {} if wakeup is None else {'wakeup_interval': wakeup}
        if sooner is not None:
            kwargs['max_sooner'] = sooner
        t = T(seconds, terminate_on=Stop, **kwargs)
        unhandled = []
        threading.excepthook = lambda args: None if args.exc_type is SystemExit else unhandled.append(args.exc_value)
        t.start()
        if ending == 'raise in prepare':
            t.join()
            eq((events, starts), (['prepare', 'cleanup'], []), 'events')
            eq(unhandled, [], 'exceptions not handled')
            return False
        while len(starts) < len(durations) + 1:
            time.sleep(0.25)
            check(world.now() < start_at + 2000, 'it does not run anymore')
        if ending == 'terminate':
            time.sleep(extra)
            n = len(starts)
            t.terminate()
            a = world.now()
            t.join()
            check(world.now() - a <= max(durations[-1], 5, {None: 3, '2s': 2}.get(wakeup, wakeup)) + PRIMING + 1, 'took %s seconds to terminate', world.now() - a)
            check(len(starts) <= n, 'started once more after having been terminated')
        else:
            t.join()
        eq(unhandled, [], 'exceptions not handled')
        eq(events[0], 'prepare', 'first event')
        eq(events.count('prepare'), 1, 'prepare calls')
        eq(events[-1], 'cleanup', 'last event')
        eq(events.count('cleanup'), 1, 'cleanup calls')
        interesting = bool(overruns)
        for i in range(len(durations)):
            d, gap = durations[i], starts[i + 1] - starts[i]
            slack = PRIMING + 0.11 * (int(sooner_) + 3)
            over = [o for n, o in overruns if n == i + 1]
            if d > seconds_:
                check(gap < d + EPS, 'waited after an overrun')
                check(len(over) == 1 and abs(over[0] - d) < 0.01, 'overruns told are %r, took %s', over, d)
                continue
            eq(over, [], 'overruns told when it took %s out of %s' % (d, seconds_))
            check(gap >= max(d, seconds_ - sooner_) - 0.01, 'run %s seconds after the previous one, %s is the earliest', gap, max(d, seconds_ - sooner_))
            check(gap <= seconds_ + slack, 'run %s seconds after the previous one', gap)
            # was that sooner with a reason?
            loads = world.loads(starts[i] + max(d, seconds_ - sooner_) + 0.01, starts[i + 1])
            if min(loads) > H + 0.01:
                check(gap >= seconds_ - 0.01, 'run after %s seconds although load did not fall', gap)
            if max(loads) < H - 0.01 and max(world.loads(starts[i], starts[i + 1])) < H - 0.01:
                check(gap <= max(d, seconds_ - sooner_) + 1 + slack, 'run after %s seconds although the load is low', gap)
                interesting = interesting or sooner_ > 1.5
        return interesting

    return virtual(world, main)


@prop.facet(st.tuples(S.schedules(), load, st.lists(st.tuples(st.integers(1, 99).map(lambda n: n / 100), st.sampled_from([0, 0, 0.5, 1, 1, 2])), min_size=6, max_size=12)), 'a percentile was requested while the profile was being rebuilt', quick=200, thorough=6000)
def requests(case):
    """Threads are being created, each asking for its own percentile, while the profile is rebuilt"""
    return in_child(lambda: run_requests(*case))


def run_requests(schedule, constant, program):
    world = World([(1, constant)])

    def main():
        class T(CPUTimeAwareIntervalTerminableThread):
            def loop(self):
                pass
        CPUTimeManager.set_refresh_each(0)
        CPUTimeManager.set_window_size(1)
        time.sleep(20)
        now = S.current     # the schedule pertains to what follows
        now.schedule, now.pos, now.gap = list(schedule), 0, schedule[0][0] if schedule else -1
        for percent, wait in program:
            T(10, percentile=percent)
            for p in (percent, 0.25):
                got = CPUTimeManager.percentile(p)
                # how much it is depends on when exactly the time was taken
                check(isinstance(got, (int, float)) and got == got, 'percentile told is %r', got)
            time.sleep(wait)
            CPUTimeManager.percentile(percent)
        return len({p for p, _ in program}) > 1

    return virtual(world, main, True)


@prop.facet(st.tuples(st.sampled_from([3, 5, 12, 20]), st.sampled_from([0, 1, 4, '7s']), st.integers(0, 60).map(lambda n: n / 2), st.lists(st.sampled_from([0.0, 0.2, 0.5, 0.9, 1.0]), min_size=1, max_size=3)), 'all of them', quick=60, thorough=1500)
def windows(case):
    """With a load that rises all the time: percentiles come from a recent period of the length asked for, and so does own usage"""
    return in_child(lambda: run_windows(*case))


def run_windows(window, refresh, extra, asked):
    world = World([(1, i / 1000) for i in range(900)])
    refresh_ = 7 if refresh == '7s' else refresh

    def main():
        CPUTimeManager.set_window_size(window)
        CPUTimeManager.set_refresh_each(refresh)
        time.sleep(35 + 4 * (window + refresh_) + extra)          # at first it might have been with defaults
        cycle = window + refresh_ + 1.5
        now = world.now()
        span = (CPUTimeManager.percentile(1.0) - CPUTimeManager.percentile(0.0)) * 1000
        check(window - 2.1 <= span <= window + 0.6, 'profile covers %s seconds, %s asked for', span, window)
        lowest, highest = CPUTimeManager.percentile(0.0) * 1000, CPUTimeManager.percentile(1.0) * 1000
        check(highest >= now - cycle - 2.5, 'profile ends %s seconds ago', now - highest)
        for p in asked:
            got = CPUTimeManager.percentile(p) * 1000
            check(abs(got - (lowest + p * (highest - lowest))) <= 1.1, 'percentile %s is %s, from %s to %s', p, got, lowest, highest)
        own = get_own_cpu_usage()
        check(own is not None, 'own usage is not known after that long')
        center = now - own.user * 1000
        check(center <= 1.5 * cycle + 2.5, 'own usage is that of %s seconds ago, cycle is %s', center, cycle)
        return True

    return virtual(world, main)


@prop.facet(st.tuples(st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0, None]), st.sampled_from([3, 4]), st.sampled_from([0.35, 0.5, 0.65]), st.sampled_from([5, 8]), st.integers(0, 3)), 'it was to be called sooner', quick=60, thorough=1500)
def percentiles_used(case):
    """Threads of generated percentiles after a load that varied: called sooner if and only if the load is below that percentile"""
    return in_child(lambda: run_percentiles_used(*case))


def run_percentiles_used(percentile, step, steady, sooner, phase):
    start_at = 99 + phase
    world = World([(start_at % step or step, 0.2)] + [(step, 0.8 if i % 2 else 0.2) for i in range(start_at // step)] + [(1, steady)])

    def main():
        CPUTimeManager.set_refresh_each(100000)
        time.sleep(start_at + 2 * step)
        starts = []

        class T(CPUTimeAwareIntervalTerminableThread):
            def loop(self):
                starts.append(world.now())
        kwargs = {} if percentile is None else {'percentile': percentile}
        t = T(20, sooner, **kwargs)
        limit = CPUTimeManager.percentile(0.3 if percentile is None else percentile)
        t.start()
        time.sleep(70)
        t.terminate()
        t.join()
        for a, b in zip(starts, starts[1:]):
            if limit > steady + 0.01:
                check(abs(b - a - (20 - sooner)) < 1.6, 'called each %s seconds although load is %s, below %s', b - a, steady, limit)
            elif limit < steady - 0.01:
                check(20 - 0.01 <= b - a < 21.5, 'called each %s seconds although load is %s, above %s', b - a, steady, limit)
        check(len(starts) >= 3, 'called only %s times', len(starts))
        return limit > steady

    return virtual(world, main)
