"""Simulated network between nodes and SimRedis servers."""

from __future__ import annotations

import asyncio
import contextvars
import hashlib
import random
from typing import Any, Callable

from .loop import NODE, WORLD, Node, SimLoop
from .redisd import RespReader, Session, SimRedis

KEEPALIVE_LOSS = 45.0  # redis-py default keepalive: 30 + 3*5 seconds


class Latency:
    """Per-plan latency model, sampled from a per-connection RNG."""

    def __init__(self, kind: str = "lan", scale: float = 1.0):
        self.kind = kind
        self.scale = scale

    def max(self) -> float:
        return {"zero": 0.0, "const": 0.001, "lan": 0.002, "exp": 0.3, "spiky": 0.8}[self.kind] * max(self.scale, 0.01)

    def sample(self, rng: random.Random) -> float:
        k = self.kind
        if k == "zero":
            return 0.0
        if k == "const":
            return 0.001 * self.scale
        if k == "lan":
            return rng.uniform(0.0001, 0.002) * self.scale
        if k == "exp":
            return min(rng.expovariate(1 / 0.01), 0.3) * self.scale
        if k == "spiky":
            if rng.random() < 0.02:
                return rng.uniform(0.05, 0.8) * self.scale
            return rng.uniform(0.0005, 0.005)
        raise ValueError(k)


class SimTransport(asyncio.Transport):
    def __init__(self, conn: "Conn"):
        super().__init__()
        self.conn = conn
        self._closing = False
        self._protocol: Any = None

    def write(self, data: Any) -> None:
        if self._closing or self.conn.client_closed:
            return
        self.conn.client_write(bytes(data))

    def writelines(self, data: Any) -> None:
        self.write(b"".join(data))

    def is_closing(self) -> bool:
        return self._closing

    def close(self) -> None:
        if self._closing:
            return
        self._closing = True
        self.conn.client_close()

    def abort(self) -> None:
        self.close()

    def get_extra_info(self, name: str, default: Any = None) -> Any:
        if name == "peername":
            return (self.conn.host, self.conn.port)
        return default

    def set_protocol(self, p: Any) -> None:
        self._protocol = p

    def get_protocol(self) -> Any:
        return self._protocol

    def pause_reading(self) -> None:
        pass

    def resume_reading(self) -> None:
        pass

    def is_reading(self) -> bool:
        return True

    def get_write_buffer_size(self) -> int:
        return 0

    def set_write_buffer_limits(self, *a: Any, **k: Any) -> None:
        pass

    def can_write_eof(self) -> bool:
        return False


class Conn:
    def __init__(self, net: "SimNet", node: Node, server: "Endpoint", host: str, port: int):
        self.net = net
        self.node = node
        self.endpoint = server
        self.host, self.port = host, port
        net.conn_seq += 1
        self.id = net.conn_seq
        self.rng = random.Random(f"{net.seed}/conn/{self.id}")
        self.client_closed = False
        self.dead = False
        self.up_at = 0.0
        self.down_at = 0.0
        self.reader = RespReader()
        self.session = Session(server.redis, self.server_send, f"{node.name}#{self.id}")
        server.redis.sessions[self.session] = None
        self.transport = SimTransport(self)
        self.protocol: Any = None
        self.ctx: contextvars.Context = contextvars.copy_context()
        self.outbuf: list[bytes] = []
        self.flush_scheduled = False
        self.held_up: list[bytes] = []
        self.delayed: list[list[bytes]] | None = None
        self.held_down: list[bytes] = []

    # client -> server
    def client_write(self, data: bytes) -> None:
        if self.dead:
            return
        loop = self.net.loop
        t = max(self.up_at, loop.time() + self.net.latency.sample(self.rng) + self.net.extra_delay(self.node))
        self.up_at = t
        self.net.world_at(t, self.deliver_up, data)

    def deliver_up(self, data: bytes) -> None:
        if self.dead:
            return
        if self.node.partitioned or self.endpoint.unreachable:
            self.held_up.append(data)
            return
        if self.held_up:
            self.held_up.append(data)
            return
        self.process(data)

    def process(self, data: bytes) -> None:
        for args in self.reader.feed(data):
            if self.dead:
                return
            if self.delayed is not None:
                self.delayed.append(args)
            else:
                self.net.request(self, args)

    def server_send(self, data: bytes) -> None:
        self.outbuf.append(data)
        if not self.flush_scheduled:
            self.flush_scheduled = True
            self.net.loop.run_in_node(WORLD, self.net.loop.call_soon, self.flush)

    def flush(self) -> None:
        self.flush_scheduled = False
        data = b"".join(self.outbuf)
        self.outbuf.clear()
        if self.dead or not data:
            return
        loop = self.net.loop
        t = max(self.down_at, loop.time() + self.net.latency.sample(self.rng) + self.net.extra_delay(self.node))
        self.down_at = t
        self.net.world_at(t, self.deliver_down, data)

    def deliver_down(self, data: bytes) -> None:
        if self.dead:
            return
        if self.node.partitioned or self.endpoint.unreachable or self.held_down:
            self.held_down.append(data)
            return
        self.to_client(self.protocol.data_received, data)

    def to_client(self, fn: Callable[..., Any], *args: Any) -> None:
        if self.client_closed:
            return
        self.net.loop.call_soon(fn, *args, context=self.ctx.copy())

    def heal(self) -> None:
        up, self.held_up = self.held_up, []
        down, self.held_down = self.held_down, []
        for d in up:
            if not self.dead:
                self.process(d)
        for d in down:
            if not self.dead:
                self.to_client(self.protocol.data_received, d)

    # closing
    def client_close(self) -> None:
        if self.client_closed:
            return
        loop = self.net.loop
        loop.call_soon(self.protocol.connection_lost, None, context=self.ctx.copy())
        self.client_closed = True
        t = max(self.up_at, loop.time() + self.net.latency.sample(self.rng))
        self.net.world_at(t, self.server_drop)

    def server_drop(self) -> None:
        self.dead = True
        self.session.close()
        self.net.forget(self)

    def reset(self, exc: BaseException | None = None) -> None:
        """Both ends lose the connection now (server) / after latency (client)."""
        if self.dead:
            return
        self.dead = True
        self.outbuf.clear()
        self.session.close()
        self.net.forget(self)
        if self.node.dead or self.client_closed:
            return
        t = max(self.down_at, self.net.loop.time() + self.net.latency.sample(self.rng))
        err = exc if exc is not None else ConnectionResetError(104, "Connection reset by peer")

        def lost() -> None:
            if self.client_closed or self.node.dead:
                return
            self.transport._closing = True
            self.net.loop.call_soon(self.protocol.connection_lost, err, context=self.ctx.copy())
            self.client_closed = True

        self.net.world_at(t, lost)


class Endpoint:
    def __init__(self, redis: SimRedis, host: str, port: int):
        self.redis = redis
        self.host, self.port = host, port
        self.down = False
        self.unreachable = False
        self.conns: dict[Conn, None] = {}


class Armed:
    """A one-shot fault waiting for the nth matching request."""

    def __init__(self, spec: dict[str, Any]):
        self.spec = spec
        self.left = int(spec.get("nth", 1))


class SimNet:
    def __init__(self, seed: Any, latency: Latency):
        self.seed = seed
        self.loop: SimLoop = None  # type: ignore[assignment]
        self.latency = latency
        self.endpoints: dict[tuple[str, int], Endpoint] = {}
        self.conn_seq = 0
        self.armed: list[Armed] = []
        self.injected: dict[str, int] = {}
        self.on_crash: Callable[[Node, dict[str, Any]], None] | None = None
        self.on_pause: Callable[[Node, float], None] | None = None
        self.digest = hashlib.blake2b(digest_size=16)
        self.log_tail: list[str] = []
        self.keep_log = 0
        self.slow_nodes: dict[str, float] = {}
        self.requests = 0
        self.cmd_observers: list[Callable[[Conn, list[bytes]], None]] = []

    # -- helpers ----------------------------------------------------------

    def note(self, what: str) -> None:
        self.injected[what] = self.injected.get(what, 0) + 1

    def record(self, text: str) -> None:
        line = f"{self.loop.time():.6f} {text}"
        self.digest.update(line.encode("utf-8", "replace"))
        if self.keep_log:
            self.log_tail.append(line)
            if len(self.log_tail) > self.keep_log:
                del self.log_tail[: len(self.log_tail) - self.keep_log]

    def world_at(self, t: float, fn: Callable[..., Any], *args: Any) -> None:
        self.loop.run_in_node(WORLD, self.loop.call_at, t, fn, *args)

    def extra_delay(self, node: Node) -> float:
        return self.slow_nodes.get(node.name, 0.0)

    def forget(self, conn: Conn) -> None:
        conn.endpoint.conns.pop(conn, None)
        if conn in conn.node.connlist:
            conn.node.connlist.remove(conn)

    def add_endpoint(self, ep: Endpoint) -> None:
        self.endpoints[(ep.host, ep.port)] = ep

    # -- connecting -------------------------------------------------------

    async def connect(self, loop: SimLoop, protocol_factory: Any, host: str, port: int) -> Any:
        node = NODE.get()
        rng = random.Random(f"{self.seed}/connect/{self.conn_seq}")
        await asyncio.sleep(self.latency.sample(rng) * 2)
        ep = self.endpoints.get((host, int(port)))
        if ep is None:
            raise ConnectionRefusedError(111, f"no simulated server at {host}:{port}")
        waited = 0.0
        while node.partitioned or ep.unreachable:
            await asyncio.sleep(0.5)
            waited += 0.5
            if waited > 60:
                raise TimeoutError("connect timed out")
        if ep.down:
            raise ConnectionRefusedError(111, "Connection refused")
        conn = Conn(self, node, ep, host, int(port))
        ep.conns[conn] = None
        node.connlist.append(conn)
        conn.protocol = protocol_factory()
        conn.transport.set_protocol(conn.protocol)
        conn.protocol.connection_made(conn.transport)
        self.record(f"connect {node.name} #{conn.id}")
        return conn.transport, conn.protocol

    # -- request processing with armed faults ------------------------------

    def request(self, conn: Conn, args: list[bytes]) -> None:
        self.requests += 1
        name = args[0].upper().decode("latin1")
        self.record(f"{conn.node.name}#{conn.id} {name} " + hashlib.md5(b"\0".join(args)).hexdigest()[:8])
        for obs in self.cmd_observers:
            obs(conn, args)
        hit: Armed | None = None
        for a in self.armed:
            sp = a.spec
            if sp.get("node") not in (None, conn.node.name):
                continue
            m = sp.get("cmd")
            if m and not any(name == x for x in m.split("|")):
                continue
            if sp.get("arg") and not any(sp["arg"].encode() in x for x in args[1:]):
                continue
            a.left -= 1
            if a.left <= 0 and hit is None:
                hit = a
        if hit is None:
            conn.session.command(args)
            return
        self.armed.remove(hit)
        kind = hit.spec["kind"]
        self.note(kind)
        self.record(f"FAULT {kind} on {conn.node.name} {name}")
        if kind == "lose_request":
            conn.reset()
        elif kind == "lose_reply":
            conn.session.command(args)
            conn.reset()
        elif kind == "crash_before":
            if self.on_crash:
                self.on_crash(conn.node, hit.spec)
        elif kind == "crash_after":
            conn.session.command(args)
            if self.on_crash:
                self.on_crash(conn.node, hit.spec)
        elif kind == "stall_before":
            if self.on_pause:
                self.on_pause(conn.node, hit.spec.get("for", 1.0))
            conn.session.command(args)
        elif kind == "delay_request":
            d = hit.spec.get("for", 1.0)
            self._delay_conn(conn, args, d)
        else:
            raise ValueError(kind)

    def _delay_conn(self, conn: Conn, args: list[bytes], d: float) -> None:
        # Hold this and everything behind it on the connection for d seconds.
        conn.delayed = [args]

        def release() -> None:
            held, conn.delayed = conn.delayed or [], None
            while held and not conn.dead:
                self.request(conn, held.pop(0))
                if conn.delayed is not None:  # another delay fault hit meanwhile
                    conn.delayed.extend(held)
                    return

        self.world_at(self.loop.time() + d, release)

    # -- fault operations ---------------------------------------------------

    def reset_node_conns(self, node: Node, which: str = "all") -> int:
        n = 0
        for c in list(node.connlist):
            if which == "pubsub" and not (c.session.subs or c.session.psubs or c.session.ssubs):
                continue
            if which == "blocked" and c.session.blocked is None:
                continue
            c.reset()
            n += 1
        return n

    def partition(self, node: Node) -> None:
        node.partitioned = True
        conns = list(node.connlist)

        def expire() -> None:
            if node.partitioned:
                for c in conns:
                    c.reset(TimeoutError(110, "Connection timed out"))

        self.world_at(self.loop.time() + KEEPALIVE_LOSS, expire)

    def heal(self, node: Node) -> None:
        node.partitioned = False
        for c in list(node.connlist):
            c.heal()

    def server_down(self, ep: Endpoint) -> None:
        ep.down = True
        for c in list(ep.conns):
            c.reset()
        ep.redis.scripts.clear()

    def server_up(self, ep: Endpoint) -> None:
        ep.down = False
