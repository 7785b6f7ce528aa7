"""Deterministic virtual-time asyncio event loop with simulated nodes.

Every handle belongs to the node (client process, worker process, or the
simulated world itself) whose context scheduled it.  A node can be paused
(its callbacks and timers pile up) or crashed (they are dropped for good).
"""

from __future__ import annotations

import asyncio
import contextvars
import heapq
from asyncio import events
from typing import Any, Callable

EPOCH = 1_767_225_600.0  # 2026-01-01T00:00:00Z


class Node:
    def __init__(self, name: str):
        self.name = name
        self.dead = False
        self.paused = False
        self.backlog: list["SimHandle"] = []
        self.skew = 0.0
        self.conns: set[Any] = set()
        self.connlist: list[Any] = []
        self.partitioned = False

    def __repr__(self) -> str:
        return f"<Node {self.name}>"


WORLD = Node("world")
NODE: contextvars.ContextVar[Node] = contextvars.ContextVar("sim_node", default=WORLD)


class SimHandle(events.Handle):
    __slots__ = ("node",)

    def __init__(self, callback: Any, args: Any, loop: Any, context: Any):
        super().__init__(callback, args, loop, context)
        self.node = self._context.get(NODE, WORLD)


class SimTimer(events.TimerHandle):
    __slots__ = ("node", "seq")

    def __init__(self, when: float, callback: Any, args: Any, loop: Any, context: Any, seq: int):
        super().__init__(when, callback, args, loop, context)
        self.node = self._context.get(NODE, WORLD)
        self.seq = seq

    def __lt__(self, other: Any) -> bool:
        return (self._when, self.seq) < (other._when, other.seq)


class SimTask(asyncio.Task):
    """Task with a deterministic hash so sets of tasks iterate repeatably."""

    def __new__(cls, *a: Any, **k: Any) -> Any:
        return super().__new__(cls)

    def __init__(self, *a: Any, **k: Any) -> None:
        loop = k["loop"]
        loop._task_seq += 1
        self._sim_seq = loop._task_seq
        super().__init__(*a, **k)

    def __hash__(self) -> int:
        return self._sim_seq

    def __eq__(self, other: Any) -> bool:
        return self is other


class StepLimit(BaseException):
    """The run used more scheduler steps than its budget."""


class Deadlock(BaseException):
    """Nothing is runnable and no timer is pending."""


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, net: Any = None, max_steps: int = 3_000_000):
        super().__init__()
        self._now = 0.0
        self._idle = 0
        self._seq = 0
        self._task_seq = 0
        self._timers: list[SimTimer] = []
        self.net = net
        self.steps = 0
        self.max_steps = max_steps
        self.unhandled: list[dict[str, Any]] = []
        self.set_exception_handler(self._on_exc)
        self.set_task_factory(self._make_task)
        self.slow_callback_duration = 1e9
        self.graveyard: list[Any] = []
        self.wall_deadline: float | None = None

    # -- plumbing ---------------------------------------------------------

    def _make_task(self, loop: Any, coro: Any, **kw: Any) -> Any:
        return SimTask(coro, loop=loop, **kw)

    def _on_exc(self, loop: Any, ctx: dict[str, Any]) -> None:
        self.unhandled.append(ctx)

    def time(self) -> float:
        return self._now

    def get_debug(self) -> bool:
        return False

    def _write_to_self(self) -> None:
        pass

    def _process_events(self, ev: Any) -> None:
        pass

    def call_soon(self, callback: Callable[..., Any], *args: Any, context: Any = None) -> Any:
        h = SimHandle(callback, args, self, context)
        n = h.node
        if n.dead:
            self.graveyard.append(h)
            return h
        if n.paused:
            n.backlog.append(h)
        else:
            self._ready.append(h)
        return h

    def call_soon_threadsafe(self, callback: Any, *args: Any, context: Any = None) -> Any:
        return self.call_soon(callback, *args, context=context)

    def call_later(self, delay: float, callback: Any, *args: Any, context: Any = None) -> Any:
        return self.call_at(self._now + max(0.0, delay), callback, *args, context=context)

    def call_at(self, when: float, callback: Any, *args: Any, context: Any = None) -> Any:
        self._seq += 1
        t = SimTimer(when, callback, args, self, context, self._seq)
        if t.node.dead:
            self.graveyard.append(t)
            return t
        heapq.heappush(self._timers, t)
        return t

    def _timer_handle_cancelled(self, handle: Any) -> None:
        pass

    def _run_once(self) -> None:
        ready = self._ready
        timers = self._timers
        if not ready:
            while timers:
                t = timers[0]
                if t._cancelled:
                    heapq.heappop(timers)
                    continue
                break
            if not timers:
                raise Deadlock()
            if timers[0]._when > self._now:
                self._now = timers[0]._when
                self._idle = 0
        # Code takes time: a loop waiting for the clock to pass a deadline less
        # than a microsecond away must see it pass.
        self._idle += 1
        if self._idle >= 200:
            self._idle = 0
            self._now += 1e-6
        now = self._now
        while timers and timers[0]._when <= now:
            t = heapq.heappop(timers)
            if t._cancelled:
                continue
            n = t.node
            if n.dead:
                self.graveyard.append(t)
            elif n.paused:
                n.backlog.append(t)
            else:
                ready.append(t)
        for _ in range(len(ready)):
            if not ready:
                break
            h = ready.popleft()
            if h._cancelled:
                continue
            n = h.node
            if n.dead:
                self.graveyard.append(h)
                continue
            if n.paused:
                n.backlog.append(h)
                continue
            self.steps += 1
            h._run()
        h = None
        if self.steps > self.max_steps:
            raise StepLimit(self.steps)

    def run_in_executor(self, executor: Any, func: Any, *args: Any) -> Any:
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except BaseException as e:  # noqa: BLE001
            fut.set_exception(e)
        return fut

    def add_signal_handler(self, *a: Any) -> None:
        raise NotImplementedError

    def remove_signal_handler(self, *a: Any) -> bool:
        return False

    async def create_connection(self, protocol_factory: Any, host: Any = None, port: Any = None, **kw: Any) -> Any:
        return await self.net.connect(self, protocol_factory, host, port)

    async def getaddrinfo(self, host: Any, port: Any, **kw: Any) -> Any:
        return [(2, 1, 6, "", (host, port))]

    # -- node control -----------------------------------------------------

    def pause(self, node: Node) -> None:
        node.paused = True

    def resume(self, node: Node) -> None:
        node.paused = False
        bl, node.backlog = node.backlog, []
        for h in bl:
            if not h._cancelled:
                self._ready.append(h)

    def kill(self, node: Node) -> None:
        node.dead = True
        self.graveyard.extend(node.backlog)
        node.backlog = []
        # Handles of a dead node stay referenced (graveyard) so that its
        # coroutines are never finalised: a crashed process runs no `finally`.
        self.graveyard.extend(h for h in self._ready if h.node is node)
        self.graveyard.extend(t for t in self._timers if t.node is node)
        self.graveyard.extend(t for t in asyncio.all_tasks(self))

    def run_in_node(self, node: Node, fn: Callable[..., Any], *args: Any) -> Any:
        ctx = contextvars.copy_context()
        ctx.run(NODE.set, node)
        return ctx.run(fn, *args)

    def spawn(self, node: Node, coro: Any, name: str | None = None) -> Any:
        ctx = contextvars.Context()
        ctx.run(NODE.set, node)
        return self.create_task(coro, name=name, context=ctx)

    def close(self) -> None:
        self._closed = True
