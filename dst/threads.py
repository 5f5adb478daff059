"""Real caller threads, one running at a time; the seeded scheduler decides who, at instruction-level points.

Switches happen where CPython can switch: after calls, at backward jumps, at function entry, and inside C calls that
release the GIL (modelled as: right before a call/arithmetic/indexing instruction).

Two search strategies.  "random": seeded gaps between switches.  "meet": one function that the threads execute is
picked at random (uniformly over the order in which they are reached, so rarely executed ones get their share), a thread is parked
somewhere inside it (half of the time right after it has stored something), and the others run until they are inside it too.
"""
import sys
import threading

from dst import faults

mon = sys.monitoring
TOOL = 4
E = mon.events
GAPS = [10**9] + [1, 3, 10, 25, 60, 150, 600, 2500] * 4


class Lockstep:
    def __init__(self, sim, bodies, meet=False):
        self.sim = sim
        self.meet = meet
        self.reached = {}
        self.focus = None
        self.inside = set()
        self.met = set()
        self.engaged = 0
        self.idle = 0
        self.burst = 0
        self.after_store = None
        self.bodies = bodies
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.results = [None] * n
        self.errors = [None] * n
        self.cur = -1
        self.gap = 0
        self.main = threading.Semaphore(0)
        self.ids = {}
        self.switches = 0
        self.limit = 300 if meet else 4000

    def _cb(self, code, offset):
        if offset not in self.table.get(code, ()):
            if offset not in self.stores.get(code, ()):
                return mon.DISABLE
            point = False
        else:
            point = True
        me = self.ids.get(threading.get_ident())
        if me is None or me != self.cur:
            return
        if self.after_store is not None and offset in self.stores.get(code, ()) and self.after_store[0] == code:
            self.after_store[1] -= 1
            if self.after_store[1] < 0:
                self.after_store = None
                self.gap = 1 + point
        if not point:
            return
        self.gap -= 1
        if self.gap <= 0:
            self._switch(me)

    def _start(self, code, offset):
        me = self.ids.get(threading.get_ident())
        if me is None or me != self.cur:
            return
        if self.meet:
            self._entered(me, code)
        self.gap -= 1
        if self.gap <= 0:
            self._switch(me)

    def _entered(self, me, code):
        name = (code.co_filename, code.co_qualname, code.co_firstlineno)
        new = name not in self.reached
        self.reached[name] = self.reached.get(name, 0) + 1
        self.idle += 1
        if new and len(self.reached) == self.kth + 1:
            self.focus = name
        elif self.idle > 60 and not self.inside:
            self._refocus()
        if name == self.focus and self.switches <= self.limit:
            self.inside.add(me)
            if len(self.inside) > 1:
                self.met.add(self.focus)
                if self.sim.choose(2):
                    self.burst = 40  # side by side in small steps
            self.idle = 0
            self.engaged += 1
            if self.engaged % 6 == 0:  # on to another function
                self._refocus()
            self.after_store = None
            how = self.sim.choose(6)
            if how < 3 and self.stores[code]:
                self.after_store = [code, self.sim.choose(min(12, len(self.stores[code])))]
                self.gap = 10**9
            elif how < 5:
                self.gap = 1 + self.sim.choose(self.span(code))
            else:
                self.gap = 10**9

    def _refocus(self):
        self.idle = 0
        self.inside.clear()
        names = sorted(self.reached, key=lambda f: (self.reached[f], f))
        if self.sim.choose(2):
            names = names[: 1 + len(names) // 4]  # the least executed ones
        self.focus = names[self.sim.choose(len(names))]

    def span(self, code):
        return min(60, max(2, len(self.table[code])))

    def _pick_gap(self):
        if self.meet and self.switches <= self.limit:
            if self.burst > 0:
                self.burst -= 1
                return [1, 2, 3, 6][self.sim.choose(4)]
            # let whoever runs now run into the function where another one waits
            return [10**9, 10**9, 10**9, 400, 60, 10][self.sim.choose(6)]
        if self.switches > self.limit:
            return 10**9
        return GAPS[self.sim.choose(len(GAPS))]

    def _switch(self, me):
        live = [i for i in range(len(self.bodies)) if not self.done[i]]
        self.switches += 1
        self.after_store = None
        order = [me] + [i for i in live if i != me]
        if self.meet and len(order) > 1 and self.sim.choose(4):
            order = order[1:]
        nxt = order[self.sim.choose(len(order))]
        self.gap = self._pick_gap()
        if nxt != me:
            self.sim.event("switch", nxt)
            self.sim.count("thread_switches")
            self.cur = nxt
            self.sems[nxt].release()
            self.sems[me].acquire()

    def _body(self, i):
        self.ids[threading.get_ident()] = i
        self.sems[i].acquire()
        try:
            self.results[i] = self.bodies[i]()
        except BaseException as e:  # harness trouble, reported by run()
            self.errors[i] = e
        self.done[i] = True
        live = [j for j in range(len(self.bodies)) if not self.done[j]]
        if not live:
            self.main.release()
            return
        nxt = live[self.sim.choose(len(live))]
        self.gap = self._pick_gap()
        self.cur = nxt
        self.sim.event("switch", nxt)
        self.sems[nxt].release()

    def run(self):
        faults.prepare()
        p = faults.POINTS
        self.table = {c: p.alloc[c] | p.interrupt[c] for c in p.codes}
        self.stores = {c: p.store[c] for c in p.codes} if self.meet else {}
        mon.use_tool_id(TOOL, "dst-threads")
        mon.register_callback(TOOL, E.INSTRUCTION, self._cb)
        mon.register_callback(TOOL, E.PY_START, self._start)
        for c in p.codes:
            mon.set_local_events(TOOL, c, E.INSTRUCTION | E.PY_START)
        mon.restart_events()
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        # wait until every thread is parked: they park immediately, before any simulated code runs
        while len(self.ids) < len(ts):
            import time as _t

            from dst.seams import REAL

            REAL.sleep(0.0005)
        self.kth = self.sim.choose(20) if self.meet else -1
        first = self.sim.choose(len(ts))
        self.cur = first
        self.gap = self._pick_gap()
        self.sems[first].release()
        self.main.acquire()
        for t in ts:
            t.join()
        for c in p.codes:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, E.INSTRUCTION, None)
        mon.register_callback(TOOL, E.PY_START, None)
        mon.free_tool_id(TOOL)
        for e in self.errors:
            if e is not None:
                raise e
        return self.results
