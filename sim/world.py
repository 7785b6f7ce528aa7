"""A simulated deployment: one Redis, client nodes, worker nodes, faults."""

from __future__ import annotations

import asyncio
import contextvars
import json
import logging
import random
import sys
import traceback
from datetime import timedelta, timezone
from typing import Any, Awaitable, Callable

from . import determinism as det
from .loop import EPOCH, NODE, WORLD, Deadlock, Node, SimLoop, StepLimit
from .net import Endpoint, Latency, SimNet
from .redisd import SimRedis

HOST, PORT = "redis.sim", 6379
URL = f"redis://{HOST}:{PORT}/0"


class Violation(Exception):
    def __init__(self, kind: str, detail: str):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


def is_conn_error(e: BaseException) -> bool:
    """Errors a caller legitimately sees while the network misbehaves."""
    import redis.exceptions as rx

    if isinstance(e, BaseExceptionGroup):
        return all(is_conn_error(x) for x in e.exceptions)
    return isinstance(
        e, (rx.ConnectionError, rx.TimeoutError, rx.BusyLoadingError, rx.LockError,
            ConnectionError, TimeoutError, OSError)
    )


class WorkerSpec:
    def __init__(
        self,
        name: str,
        make_tasks: Callable[["World", str], list[Any]],
        docket_kwargs: dict[str, Any] | None = None,
        worker_kwargs: dict[str, Any] | None = None,
        restart_delay: float = 1.0,
        docket_name: str = "d",
        autorestart: bool = True,
        run: Callable[[Any], Awaitable[None]] | None = None,
    ):
        # what the process does with its worker (default: run_forever); a process that finishes isn't restarted
        self.run = run
        self.name = name
        self.make_tasks = make_tasks
        self.docket_kwargs = docket_kwargs or {}
        self.worker_kwargs = worker_kwargs or {}
        self.restart_delay = restart_delay
        self.docket_name = docket_name
        self.autorestart = autorestart


class WorkerProc:
    """One incarnation chain of a worker process."""

    def __init__(self, world: "World", spec: WorkerSpec):
        self.world = world
        self.spec = spec
        self.node: Node = Node(spec.name)
        self.incarnation = 0
        self.up = False
        self.docket: Any = None
        self.worker: Any = None
        self.run_task: Any = None
        self.stopping = False
        self.deaths = 0
        self.clean_exits = 0

    def start(self) -> None:
        self.incarnation += 1
        self.stopping = False
        node = Node(self.spec.name)
        node.skew = self.world.skews.get(self.spec.name, 0.0)
        self.node = node
        self.world.nodes[self.spec.name] = node
        self.world.loop.spawn(node, self._main(node, self.incarnation), name=f"proc {self.spec.name}")

    async def _main(self, node: Node, inc: int) -> None:
        w = self.world
        sp = self.spec
        from docket import Docket, Worker

        while True:
            self.up = True
            exc: BaseException | None = None
            try:
                async with Docket(name=sp.docket_name, url=w.url, **sp.docket_kwargs) as docket:
                    self.docket = docket
                    for t in sp.make_tasks(w, sp.name):
                        docket.register(t)
                    async with Worker(docket, name=sp.name, **sp.worker_kwargs) as worker:
                        self.worker = worker
                        w.event("worker-up", node=sp.name, inc=inc)
                        self.run_task = asyncio.create_task(
                            sp.run(worker) if sp.run else worker.run_forever(), name=f"run {sp.name}"
                        )
                        try:
                            await self.run_task
                        except asyncio.CancelledError:
                            if not self.stopping:
                                raise
            except asyncio.CancelledError:
                raise
            except Exception as e:  # noqa: BLE001 -- the process would exit non-zero
                exc = e
            self.up = False
            self.worker = None
            if exc is not None:
                self.deaths += 1
                w.event("worker-died", node=sp.name, error=f"{type(exc).__name__}: {exc}"[:200],
                        conn=is_conn_error(exc))
                if w.verbose:
                    w.say(f"worker {sp.name} died: " + "".join(traceback.format_exception(exc))[-3000:])
            else:
                self.clean_exits += 1
                w.event("worker-exit", node=sp.name, asked=self.stopping)
            if self.stopping or not sp.autorestart or (sp.run is not None and exc is None):
                return
            await asyncio.sleep(sp.restart_delay)

    def crash(self, down: float | None) -> None:
        w = self.world
        if self.node.dead:
            return
        w.event("crash", node=self.spec.name)
        w.loop.kill(self.node)
        self.up = False
        self.worker = None
        for c in list(self.node.connlist):
            c.reset()
        if down is not None:
            w.at(w.now() + down, self.restart)

    def restart(self) -> None:
        if not self.node.dead:
            return
        self.world.event("restart", node=self.spec.name)
        self.start()

    def stop(self) -> None:
        """SIGTERM: what Worker.run does on a shutdown signal."""
        if self.node.dead or self.run_task is None or self.stopping:
            return
        self.stopping = True
        self.world.event("sigterm", node=self.spec.name)
        self.world.loop.run_in_node(self.node, self.world.loop.call_soon, self.run_task.cancel)


class World:
    def __init__(self, plan: dict[str, Any], verbose: bool = False):
        self.plan = plan
        self.verbose = verbose
        seed = plan.get("net_seed", plan.get("seed", 0))
        lat = plan.get("latency", {"kind": "lan", "scale": 1.0})
        self.net = SimNet(seed, Latency(lat["kind"], lat.get("scale", 1.0)))
        self.loop = SimLoop(self.net, max_steps=plan.get("max_steps", 4_000_000))
        self.net.loop = self.loop
        self.redis = SimRedis(lambda: (EPOCH + self.loop._now + self.server_skew) * 1000.0, self._server_later)
        # every published message in server order: (time, len(history), channel, payload)
        self.pub: list[tuple[float, int, str, bytes]] = []
        self.redis.on_publish = self._on_publish
        self.server_skew = 0.0
        self.endpoint = Endpoint(self.redis, HOST, PORT)
        self.net.add_endpoint(self.endpoint)
        self.url = URL + ("?protocol=2" if plan.get("resp2") else "")
        self.nodes: dict[str, Node] = {}
        self.procs: dict[str, WorkerProc] = {}
        self.skews: dict[str, float] = dict(plan.get("skews", {}))
        self.history: list[dict[str, Any]] = []
        self.violations: list[dict[str, str]] = []
        self.net.on_crash = self._crash_node
        self.net.on_pause = self._pause_node
        self.stats: dict[str, Any] = {}
        self.clients: dict[str, Any] = {}
        self.last_fault = 0.0
        self.flushes: list[float] = []
        self._shape = __import__("hashlib").blake2b(digest_size=12)
        self.shape_states: set[str] = set()

    # -- time & logging ----------------------------------------------------

    def now(self) -> float:
        return self.loop._now

    def wall(self) -> float:
        return EPOCH + self.loop._now

    def dt(self, t: float):
        """Absolute datetime for sim-time t (true time, no skew)."""
        return det._real_datetime.fromtimestamp(round(EPOCH + t, 6), timezone.utc)

    def say(self, text: str) -> None:
        sys.stderr.write(f"[{self.now():9.4f}] {text}\n")

    def event(self, kind: str, **data: Any) -> None:
        ev = {"t": round(self.loop._now, 6), "ev": kind, **data}
        self.history.append(ev)
        txt = json.dumps(ev, sort_keys=True, default=repr)
        self.net.record("EV " + txt)
        self._shape.update((kind + "|" + str(data.get("node", "")) + "|" + str(data.get("key", ""))).encode())
        if self.verbose:
            self.say(txt)

    def _on_publish(self, channel: bytes, payload: bytes) -> None:
        if self.verbose and (b":state:" in channel or b":cancel:" in channel):
            self.say(f"PUB {channel.decode()} {payload[:160]!r}")
        self.pub.append((self.loop._now, len(self.history), channel.decode("utf-8", "replace"), payload))

    def states(self, key: str, docket: str | None = None) -> list[tuple[float, int, dict[str, Any]]]:
        """State events published for one key, in server order."""
        ch = f"{docket or self.plan.get('docket_name', 'd')}:state:{key}"
        return [(t, i, json.loads(m)) for t, i, c, m in self.pub if c == ch]

    def violate(self, kind: str, detail: str) -> None:
        self.violations.append({"kind": kind, "detail": detail, "t": f"{self.now():.4f}"})
        if self.verbose:
            self.say(f"VIOLATION {kind}: {detail}")

    def _server_later(self, delay: float, fn: Callable[[], None]) -> Any:
        return self.loop.run_in_node(WORLD, self.loop.call_later, delay, fn)

    def at(self, t: float, fn: Callable[..., Any], *args: Any) -> None:
        self.loop.run_in_node(WORLD, self.loop.call_at, t, fn, *args)

    # -- nodes ---------------------------------------------------------------

    def node(self, name: str) -> Node:
        n = self.nodes.get(name)
        if n is None:
            n = self.nodes[name] = Node(name)
            n.skew = self.skews.get(name, 0.0)
        return n

    def add_worker(self, spec: WorkerSpec, start: bool = True) -> WorkerProc:
        p = WorkerProc(self, spec)
        self.procs[spec.name] = p
        if start:
            p.start()
        return p

    def _crash_node(self, node: Node, spec: dict[str, Any]) -> None:
        p = self.procs.get(node.name)
        self.mark_fault()
        if p is not None and p.node is node:
            p.crash(None if spec.get("gone") else spec.get("down", 1.0))
        else:
            self.event("crash", node=node.name)
            self.loop.kill(node)
            for c in list(node.connlist):
                c.reset()

    def _pause_node(self, node: Node, secs: float) -> None:
        self.mark_fault(secs)
        self.event("pause", node=node.name, secs=secs)
        self.loop.pause(node)
        self.at(self.now() + secs, self._resume_node, node)

    def _resume_node(self, node: Node) -> None:
        if node.paused:
            self.event("resume", node=node.name)
            self.loop.resume(node)

    def excusable(self, e: BaseException, since: float) -> bool:
        """An error the caller of an operation may see because of an injected fault."""
        if is_conn_error(e):
            return True
        # a script flush between redis-py's SCRIPT LOAD and its second EVALSHA
        return type(e).__name__ == "NoScriptError" and any(since <= t for t in self.flushes)

    def mark_fault(self, extra: float = 0.0) -> None:
        self.last_fault = max(self.last_fault, self.now() + extra)

    # -- faults ----------------------------------------------------------------

    ARMED = ("lose_request", "lose_reply", "crash_before", "crash_after", "stall_before", "delay_request")

    def schedule_faults(self, faults: list[dict[str, Any]]) -> None:
        for f in faults:
            self.at(f["t"], self.apply_fault, f)

    def apply_fault(self, f: dict[str, Any]) -> None:
        k = f["kind"]
        name = f.get("node")
        if k in self.ARMED:
            from .net import Armed

            a = Armed(f)
            self.net.armed.append(a)
            ttl = f.get("ttl", 5.0)

            def disarm() -> None:
                if a in self.net.armed:
                    self.net.armed.remove(a)

            self.at(self.now() + ttl, disarm)
            self.mark_fault(ttl)
            return
        self.net.note(k)
        self.net.record(f"FAULT {json.dumps(f, sort_keys=True)}")
        self.mark_fault(f.get("for", 0.0))
        if k == "crash":
            n = self.nodes.get(name)
            if n is not None and not n.dead:
                self._crash_node(n, {"down": f.get("for", 1.0), "gone": f.get("gone")})
        elif k == "pause":
            n = self.nodes.get(name)
            if n is not None and not n.dead and not n.paused:
                self._pause_node(n, f["for"])
        elif k == "reset":
            n = self.nodes.get(name)
            if n is not None:
                self.net.reset_node_conns(n, f.get("which", "all"))
        elif k == "partition":
            n = self.nodes.get(name)
            if n is not None and not n.dead and not n.partitioned:
                self.event("partition", node=name, secs=f["for"])
                self.net.partition(n)
                self.at(self.now() + f["for"], self.net.heal, n)
        elif k == "server_restart":
            self.event("server-down", secs=f["for"])
            self.net.server_down(self.endpoint)
            self.flushes.append(self.now())
            self.at(self.now() + f["for"], self._server_up)
        elif k == "script_flush":
            self.redis.scripts.clear()
            self.flushes.append(self.now())
        elif k == "slow":
            self.net.slow_nodes[name] = f["delay"]
            self.at(self.now() + f["for"], self.net.slow_nodes.pop, name, None)
        elif k == "skew":
            # clock step on one node
            self.skews[name] = f["skew"]
            n = self.nodes.get(name)
            if n is not None:
                n.skew = f["skew"]
        elif k == "sigterm":
            p = self.procs.get(name)
            if p is not None:
                p.stop()

                def again() -> None:
                    if p.node.dead or not p.stopping or p.up:
                        if p.stopping and p.up:
                            self.at(self.now() + 1.0, again)
                        return
                    p.start()

                if f.get("for") is not None:
                    self.at(self.now() + f["for"], again)
        else:
            raise HarnessError(f"unknown fault {k}")

    def _server_up(self) -> None:
        self.event("server-up")
        self.net.server_up(self.endpoint)

    # -- client helpers -----------------------------------------------------------

    async def open_docket(self, node_name: str, docket_name: str | None = None, **kw: Any) -> Any:
        """Open a Docket inside the named node (call through run_on)."""
        from docket import Docket

        d = Docket(name=docket_name or self.plan.get("docket_name", "d"), url=self.url, **kw)
        await d.__aenter__()
        return d

    def run_on(self, node_name: str, coro: Awaitable[Any], name: str | None = None) -> Any:
        return self.loop.spawn(self.node(node_name), coro, name=name)

    # -- run -----------------------------------------------------------------------

    def run(self, main: Callable[["World"], Awaitable[None]]) -> None:
        det.reseed(self.plan.get("seed", 0))
        asyncio.set_event_loop(self.loop)
        try:
            self.loop.run_until_complete(main(self))
        except StepLimit as e:
            self.violate("livelock", f"no quiescence within {e} scheduler steps (sim time {self.now():.2f}s)")
        except Deadlock:
            self.violate("deadlock", f"nothing runnable at sim time {self.now():.2f}s")
        except Violation as v:
            self.violate(v.kind, v.detail)

    def shape(self) -> str:
        return self._shape.hexdigest()


async def sleep_until(world: World, t: float) -> None:
    d = t - world.now()
    if d > 0:
        await asyncio.sleep(d)


def silence_logging() -> None:
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *_a: None
