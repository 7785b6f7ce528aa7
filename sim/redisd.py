"""SimRedis: an in-process model of a Redis 7 server.

Pure data-structure semantics plus Lua scripting, streams with consumer
groups, pub/sub, blocking reads, MULTI/EXEC and key expiry, all on a clock
supplied by the simulator.  No I/O: ``Session`` objects are fed decoded
commands and emit replies through a callback.
"""

from __future__ import annotations

import bisect
import fnmatch
import hashlib
import math
import re
from collections import OrderedDict
from typing import Any, Callable

from . import lua as L


class Status(bytes):
    """Simple string reply."""


class Err(Exception):
    def __init__(self, msg: str):
        super().__init__(msg)
        self.msg = msg


class Map(list):
    """Flat list of alternating keys and values (RESP3 map)."""


class Pairs(list):
    """List of (member, score) (RESP2: flat; RESP3: list of 2-lists)."""


class SetReply(list):
    pass


class Push(list):
    pass


class NoReply:
    pass


NOREPLY = NoReply()
OK = Status(b"OK")
PONG = Status(b"PONG")
QUEUED = Status(b"QUEUED")
WRONGTYPE = "WRONGTYPE Operation against a key holding the wrong kind of value"


def fmt_double(x: float) -> bytes:
    if x == math.inf:
        return b"inf"
    if x == -math.inf:
        return b"-inf"
    if x == int(x) and abs(x) < 1e17:
        return str(int(x)).encode()
    return repr(float(x)).encode()


def encode(r: Any, proto: int) -> bytes:
    if isinstance(r, Status):
        return b"+" + bytes(r) + b"\r\n"
    if r is None:
        return b"_\r\n" if proto == 3 else b"$-1\r\n"
    if r is True or r is False:
        if proto == 3:
            return b"#t\r\n" if r else b"#f\r\n"
        return b":1\r\n" if r else b":0\r\n"
    if isinstance(r, int):
        return b":%d\r\n" % r
    if isinstance(r, (bytes, bytearray)):
        return b"$%d\r\n%s\r\n" % (len(r), r)
    if isinstance(r, float):
        s = fmt_double(r)
        return b"," + s + b"\r\n" if proto == 3 else b"$%d\r\n%s\r\n" % (len(s), s)
    if isinstance(r, Err):
        return b"-" + r.msg.encode() + b"\r\n"
    if isinstance(r, Map):
        if proto == 3:
            return b"%%%d\r\n" % (len(r) // 2) + b"".join(encode(x, proto) for x in r)
        return b"*%d\r\n" % len(r) + b"".join(encode(x, proto) for x in r)
    if isinstance(r, Pairs):
        if proto == 3:
            return b"*%d\r\n" % len(r) + b"".join(
                b"*2\r\n" + encode(m, 3) + encode(float(s), 3) for m, s in r
            )
        return b"*%d\r\n" % (2 * len(r)) + b"".join(
            encode(m, 2) + encode(float(s), 2) for m, s in r
        )
    if isinstance(r, SetReply):
        return (b"~%d\r\n" if proto == 3 else b"*%d\r\n") % len(r) + b"".join(
            encode(x, proto) for x in r
        )
    if isinstance(r, Push):
        return (b">%d\r\n" if proto == 3 else b"*%d\r\n") % len(r) + b"".join(
            encode(x, proto) for x in r
        )
    if isinstance(r, NilArray):
        return b"_\r\n" if proto == 3 else b"*-1\r\n"
    if isinstance(r, (list, tuple)):
        return b"*%d\r\n" % len(r) + b"".join(encode(x, proto) for x in r)
    if isinstance(r, str):
        b = r.encode()
        return b"$%d\r\n%s\r\n" % (len(b), b)
    raise TypeError(f"cannot encode {r!r}")


class NilArray:
    pass


NIL_ARRAY = NilArray()


class RespReader:
    """Incremental parser for client commands (arrays of bulk strings)."""

    def __init__(self) -> None:
        self.buf = bytearray()

    def feed(self, data: bytes) -> list[list[bytes]]:
        self.buf += data
        out: list[list[bytes]] = []
        buf = self.buf
        pos = 0
        while True:
            start = pos
            if pos >= len(buf):
                break
            nl = buf.find(b"\r\n", pos)
            if nl < 0:
                break
            if buf[pos] != 42:
                out.append(bytes(buf[pos:nl]).split())
                pos = nl + 2
                continue
            n = int(buf[pos + 1 : nl])
            pos = nl + 2
            args: list[bytes] = []
            ok = True
            for _ in range(n):
                nl = buf.find(b"\r\n", pos)
                if nl < 0:
                    ok = False
                    break
                ln = int(buf[pos + 1 : nl])
                s = nl + 2
                if len(buf) < s + ln + 2:
                    ok = False
                    break
                args.append(bytes(buf[s : s + ln]))
                pos = s + ln + 2
            if not ok:
                pos = start
                break
            out.append(args)
        if pos:
            del buf[:pos]
        return out


class ZSet:
    __slots__ = ("d", "order")

    def __init__(self) -> None:
        self.d: dict[bytes, float] = {}
        self.order: list[tuple[float, bytes]] = []

    def add(self, m: bytes, s: float) -> bool:
        old = self.d.get(m)
        if old is not None:
            if old == s:
                return False
            self.order.pop(bisect.bisect_left(self.order, (old, m)))
        self.d[m] = s
        bisect.insort(self.order, (s, m))
        return old is None

    def rem(self, m: bytes) -> bool:
        s = self.d.pop(m, None)
        if s is None:
            return False
        self.order.pop(bisect.bisect_left(self.order, (s, m)))
        return True

    def __len__(self) -> int:
        return len(self.d)


class Group:
    def __init__(self, last: tuple[int, int]):
        self.last = last
        # id -> [consumer, delivery_ms, count]
        self.pel: "OrderedDict[tuple[int, int], list[Any]]" = OrderedDict()
        self.consumers: dict[bytes, dict[str, int]] = {}
        self.entries_read: int | None = 0


class Stream:
    def __init__(self) -> None:
        self.ids: list[tuple[int, int]] = []
        self.entries: dict[tuple[int, int], list[bytes]] = {}
        self.last: tuple[int, int] = (0, 0)
        self.added = 0
        self.max_deleted: tuple[int, int] = (0, 0)
        self.groups: "OrderedDict[bytes, Group]" = OrderedDict()

    def delete(self, i: tuple[int, int]) -> bool:
        if i not in self.entries:
            return False
        del self.entries[i]
        self.ids.pop(bisect.bisect_left(self.ids, i))
        if i > self.max_deleted:
            self.max_deleted = i
        return True

    def __len__(self) -> int:
        return len(self.ids)


def fid(i: tuple[int, int]) -> bytes:
    return b"%d-%d" % i


def pid(s: bytes, default_seq: int = 0) -> tuple[int, int]:
    if s == b"-":
        return (0, 0)
    if s == b"+":
        return (2**63, 2**63)
    m = re.fullmatch(rb"(\d+)(?:-(\d+))?", s)
    if not m:
        raise Err("ERR Invalid stream ID specified as stream command argument")
    return (int(m.group(1)), int(m.group(2)) if m.group(2) is not None else default_seq)


def pfloat(s: bytes) -> float:
    t = s.strip().lower()
    try:
        if t in (b"inf", b"+inf", b"infinity", b"+infinity"):
            return math.inf
        if t in (b"-inf", b"-infinity"):
            return -math.inf
        v = float(t)
        if v != v:
            raise ValueError
        return v
    except ValueError:
        raise Err("ERR value is not a valid float")


def pint(s: bytes) -> int:
    if not re.fullmatch(rb"-?\d+", s):
        raise Err("ERR value is not an integer or out of range")
    return int(s)


def pscore_bound(s: bytes) -> tuple[float, bool]:
    if s[:1] == b"(":
        return pfloat(s[1:]), True
    try:
        return pfloat(s), False
    except Err:
        raise Err("ERR min or max is not a float")


_GLOB_CACHE: dict[bytes, Any] = {}


def glob_match(pat: bytes, s: bytes) -> bool:
    rx = _GLOB_CACHE.get(pat)
    if rx is None:
        out = bytearray()
        i = 0
        while i < len(pat):
            c = pat[i : i + 1]
            if c == b"*":
                out += b".*"
            elif c == b"?":
                out += b"."
            elif c == b"[":
                j = pat.find(b"]", i + 1)
                if j < 0:
                    out += re.escape(c)
                else:
                    body = pat[i + 1 : j]
                    if body[:1] == b"^":
                        body = b"^" + body[1:]
                    out += b"[" + body + b"]"
                    i = j
            elif c == b"\\" and i + 1 < len(pat):
                i += 1
                out += re.escape(pat[i : i + 1])
            else:
                out += re.escape(c)
            i += 1
        rx = re.compile(bytes(out), re.S)
        _GLOB_CACHE[pat] = rx
    return rx.fullmatch(s) is not None


def crc16(data: bytes) -> int:
    crc = 0
    for b in data:
        crc ^= b << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021) & 0xFFFF if crc & 0x8000 else (crc << 1) & 0xFFFF
    return crc


def key_slot(key: bytes) -> int:
    s = key.find(b"{")
    if s >= 0:
        e = key.find(b"}", s + 1)
        if e > s + 1:
            key = key[s + 1 : e]
    return crc16(key) % 16384


class Blocked:
    __slots__ = ("session", "retry", "keys", "deadline", "nil", "argv")

    def __init__(self, session, retry, keys, deadline, nil, argv):
        self.session = session
        self.retry = retry
        self.keys = keys
        self.deadline = deadline
        self.nil = nil
        self.argv = argv


class Session:
    """One client connection as the server sees it."""

    _next_id = 1

    def __init__(self, server: "SimRedis", send: Callable[[bytes], None], label: str = ""):
        self.server = server
        self.send_raw = send
        self.label = label
        self.proto = 2
        self.db = 0
        self.multi: list[list[bytes]] | None = None
        self.multi_err = False
        self.watched: dict[bytes, int] | None = None
        self.subs: dict[bytes, None] = {}
        self.psubs: dict[bytes, None] = {}
        self.ssubs: dict[bytes, None] = {}
        self.blocked: Blocked | None = None
        self.backlog: list[list[bytes]] = []
        self.closed = False
        self.name = b""
        self.readonly = False
        server.client_seq += 1
        self.id = server.client_seq

    def reply(self, r: Any) -> None:
        if not self.closed and r is not NOREPLY:
            self.send_raw(encode(r, self.proto))

    def command(self, args: list[bytes]) -> None:
        if self.closed or not args:
            return
        if self.blocked is not None:
            self.backlog.append(args)
            return
        r = self.server.run(self, args)
        if r is not NOREPLY:
            self.reply(r)
        self.server.after_command()

    def unblock(self, r: Any) -> None:
        self.blocked = None
        self.reply(r)
        while self.backlog and self.blocked is None and not self.closed:
            self.command(self.backlog.pop(0))

    def close(self) -> None:
        if self.closed:
            return
        self.closed = True
        if self.blocked is not None:
            try:
                self.server.blocked.remove(self.blocked)
            except ValueError:
                pass
            self.blocked = None
        for c in list(self.subs):
            self.server.channels.get(c, {}).pop(self, None)
        for c in list(self.psubs):
            self.server.patterns.get(c, {}).pop(self, None)
        for c in list(self.ssubs):
            self.server.schannels.get(c, {}).pop(self, None)
        self.server.sessions.pop(self, None)


# Compiled scripts, shared by every server of the process (pure functions).
COMPILED: dict[bytes, Any] = {}
SOURCES: dict[bytes, bytes] = {}


def precompile(sources: list[bytes]) -> None:
    for src in sources:
        sha = hashlib.sha1(src).hexdigest().encode()
        if sha not in COMPILED:
            COMPILED[sha] = L.compile_lua(src.decode("utf-8"))
            SOURCES[sha] = src


class SimRedis:
    def __init__(
        self,
        now_ms: Callable[[], float],
        call_later: Callable[[float, Callable[[], None]], Any],
    ) -> None:
        self.now_ms_f = now_ms
        self.call_later = call_later
        self.data: dict[bytes, Any] = {}
        self.expires: dict[bytes, float] = {}
        self.versions: dict[bytes, int] = {}
        self.scripts: dict[bytes, Any] = {}
        self.sessions: dict[Session, None] = {}
        self.client_seq = 0
        self.channels: dict[bytes, dict[Session, None]] = {}
        self.patterns: dict[bytes, dict[Session, None]] = {}
        self.schannels: dict[bytes, dict[Session, None]] = {}
        self.blocked: list[Blocked] = []
        self.dirty_keys: list[bytes] = []
        self.cluster: Any = None  # set by the cluster harness
        self.role = "master"
        self.in_script = False
        self.script_keys: list[bytes] = []
        self.observers: list[Callable[[list[bytes], Any, bool], None]] = []
        self.commands_run = 0
        self.on_publish: Callable[[bytes, bytes], None] | None = None
        self.publish_hook: Callable[[bytes, bytes], None] | None = None
        self.requirepass: bytes | None = None
        self._serving = False

    # ---- keyspace ------------------------------------------------------

    def now(self) -> int:
        return int(self.now_ms_f())

    def lookup(self, k: bytes) -> Any:
        e = self.expires.get(k)
        if e is not None and self.now_ms_f() >= e:
            self.delete_key(k)
            return None
        return self.data.get(k)

    def delete_key(self, k: bytes) -> bool:
        self.expires.pop(k, None)
        if k in self.data:
            del self.data[k]
            self.touch(k)
            return True
        return False

    def touch(self, k: bytes) -> None:
        self.versions[k] = self.versions.get(k, 0) + 1
        self.dirty_keys.append(k)

    def typed(self, k: bytes, t: type, create: bool = False) -> Any:
        v = self.lookup(k)
        if v is None:
            if not create:
                return None
            v = t()
            self.data[k] = v
            return v
        if not isinstance(v, t):
            raise Err(WRONGTYPE)
        return v

    def cleanup(self, k: bytes) -> None:
        v = self.data.get(k)
        if v is not None and not isinstance(v, (bytes, Stream)) and len(v) == 0:
            del self.data[k]
            self.expires.pop(k, None)
        self.touch(k)

    def live_keys(self) -> list[bytes]:
        return [k for k in list(self.data) if self.lookup(k) is not None]

    # ---- dispatch ------------------------------------------------------

    def run(self, s: Session, args: list[bytes]) -> Any:
        self.commands_run += 1
        name = args[0].upper()
        if s.multi is not None and name not in (b"EXEC", b"DISCARD", b"MULTI", b"WATCH", b"RESET"):
            if not hasattr(self, "cmd_" + name.decode("latin1").lower()):
                s.multi_err = True
                return Err(f"ERR unknown command '{args[0].decode('latin1')}'")
            s.multi.append(args)
            return QUEUED
        return self.dispatch(s, args)

    def dispatch(self, s: Session | None, args: list[bytes]) -> Any:
        name = args[0].decode("latin1").lower()
        fn = getattr(self, "cmd_" + name, None)
        if fn is None:
            return Err(f"ERR unknown command '{args[0].decode('latin1')}', with args beginning with: ")
        try:
            if self.cluster is not None:
                redirect = self.cluster.check(self, s, args)
                if redirect is not None:
                    return redirect
            return fn(s, args)
        except Err as e:
            return e
        except IndexError:
            return Err(f"ERR wrong number of arguments for '{name}' command")

    def after_command(self) -> None:
        if self._serving:
            return
        self._serving = True
        try:
            guard = 0
            while self.dirty_keys:
                guard += 1
                dirty = set(self.dirty_keys)
                self.dirty_keys.clear()
                for b in list(self.blocked):
                    if b.session.closed or b not in self.blocked:
                        continue
                    if not any(k in dirty for k in b.keys):
                        continue
                    try:
                        r = b.retry()
                    except Err as e:
                        r = e
                    if r is not None:
                        self.blocked.remove(b)
                        b.session.unblock(r)
        finally:
            self._serving = False

    def block(self, s: Session, retry, keys, timeout_ms: float, nil: Any, argv) -> Any:
        b = Blocked(s, retry, keys, None, nil, argv)
        s.blocked = b
        self.blocked.append(b)
        if timeout_ms > 0:
            def expire() -> None:
                if b in self.blocked:
                    self.blocked.remove(b)
                    b.session.unblock(nil)
                    self.after_command()

            self.call_later(timeout_ms / 1000.0, expire)
        return NOREPLY

    def drop_all(self, flush_scripts: bool = True) -> list[Session]:
        """Server restart: every connection is gone, scripts forgotten."""
        out = list(self.sessions)
        if flush_scripts:
            self.scripts.clear()
        return out

    # ---- connection commands -------------------------------------------

    def cmd_hello(self, s, a):
        i = 1
        if len(a) > 1:
            v = pint(a[1])
            if v not in (2, 3):
                return Err("NOPROTO unsupported protocol version")
            s.proto = v
            i = 2
            while i < len(a):
                o = a[i].upper()
                if o == b"AUTH":
                    i += 3
                elif o == b"SETNAME":
                    s.name = a[i + 1]
                    i += 2
                else:
                    return Err("ERR syntax error in HELLO option")
        return Map([b"server", b"redis", b"version", b"7.2.4", b"proto", s.proto, b"id", s.id,
                    b"mode", b"cluster" if self.cluster else b"standalone", b"role", self.role.encode(),
                    b"modules", []])

    def cmd_auth(self, s, a):
        return OK

    def cmd_select(self, s, a):
        s.db = pint(a[1])
        return OK

    def cmd_ping(self, s, a):
        if s is not None and s.proto == 2 and (s.subs or s.psubs):
            return [b"pong", a[1] if len(a) > 1 else b""]
        return a[1] if len(a) > 1 else PONG

    def cmd_echo(self, s, a):
        return a[1]

    def cmd_quit(self, s, a):
        return OK

    def cmd_client(self, s, a):
        sub = a[1].upper()
        if sub in (b"SETINFO", b"SETNAME", b"NO-EVICT", b"NO-TOUCH", b"TRACKING"):
            return OK
        if sub == b"ID":
            return s.id
        if sub == b"GETNAME":
            return s.name or None
        return Err("ERR unknown subcommand '%s'. Try CLIENT HELP." % a[1].decode())

    def cmd_command(self, s, a):
        return []

    def cmd_readonly(self, s, a):
        s.readonly = True
        return OK

    def cmd_readwrite(self, s, a):
        s.readonly = False
        return OK

    def cmd_info(self, s, a):
        return (b"# Server\r\nredis_version:7.2.4\r\nredis_mode:standalone\r\n"
                b"# Clients\r\nconnected_clients:%d\r\n# Memory\r\nused_memory:1000000\r\n"
                b"used_memory_human:1M\r\n# Replication\r\nrole:%s\r\n"
                b"# Cluster\r\ncluster_enabled:%d\r\n"
                % (len(self.sessions), self.role.encode(), 1 if self.cluster else 0))

    def cmd_role(self, s, a):
        if self.role == "master":
            return [b"master", 0, []]
        return [b"slave", b"127.0.0.1", 6379, b"connected", 0]

    def cmd_time(self, s, a):
        ms = self.now_ms_f()
        return [b"%d" % int(ms // 1000), b"%d" % int((ms % 1000) * 1000)]

    def cmd_config(self, s, a):
        return OK if a[1].upper() == b"SET" else Map([])

    def cmd_wait(self, s, a):
        return 0

    def cmd_reset(self, s, a):
        s.multi = None
        return Status(b"RESET")

    # ---- transactions --------------------------------------------------

    def cmd_multi(self, s, a):
        if s.multi is not None:
            return Err("ERR MULTI calls can not be nested")
        s.multi = []
        s.multi_err = False
        return OK

    def cmd_discard(self, s, a):
        if s.multi is None:
            return Err("ERR DISCARD without MULTI")
        s.multi = None
        s.watched = None
        return OK

    def cmd_watch(self, s, a):
        if s.watched is None:
            s.watched = {}
        for k in a[1:]:
            self.lookup(k)
            s.watched[k] = self.versions.get(k, 0)
        return OK

    def cmd_unwatch(self, s, a):
        s.watched = None
        return OK

    def cmd_exec(self, s, a):
        if s.multi is None:
            return Err("ERR EXEC without MULTI")
        q, s.multi = s.multi, None
        w, s.watched = s.watched, None
        if s.multi_err:
            return Err("EXECABORT Transaction discarded because of previous errors.")
        if w:
            for k, ver in w.items():
                self.lookup(k)
                if self.versions.get(k, 0) != ver:
                    return NIL_ARRAY
        out = []
        for args in q:
            out.append(self.dispatch(s, args))
        return out

    # ---- generic -------------------------------------------------------

    def cmd_del(self, s, a):
        n = 0
        for k in a[1:]:
            if self.lookup(k) is not None and self.delete_key(k):
                n += 1
        if len(a) < 2:
            raise IndexError
        return n

    cmd_unlink = cmd_del

    def cmd_exists(self, s, a):
        return sum(1 for k in a[1:] if self.lookup(k) is not None)

    def cmd_type(self, s, a):
        v = self.lookup(a[1])
        if v is None:
            return Status(b"none")
        return Status({bytes: b"string", dict: b"hash", list: b"list", OrderedDict: b"set",
                       ZSet: b"zset", Stream: b"stream"}[type(v)])

    def cmd_keys(self, s, a):
        return [k for k in self.live_keys() if glob_match(a[1], k)]

    def cmd_scan(self, s, a):
        cur = pint(a[1])
        pat = b"*"
        count = 10
        typ = None
        i = 2
        while i < len(a):
            o = a[i].upper()
            if o == b"MATCH":
                pat = a[i + 1]
            elif o == b"COUNT":
                count = pint(a[i + 1])
            elif o == b"TYPE":
                typ = a[i + 1].lower()
            i += 2
        keys = sorted(self.live_keys())
        chunk = keys[cur : cur + count]
        nxt = cur + count if cur + count < len(keys) else 0
        out = [k for k in chunk if glob_match(pat, k)]
        if typ:
            out = [k for k in out if self.cmd_type(s, [b"TYPE", k]) == typ]
        return [b"%d" % nxt, out]

    def cmd_dbsize(self, s, a):
        return len(self.live_keys())

    def cmd_flushdb(self, s, a):
        for k in list(self.data):
            self.delete_key(k)
        return OK

    cmd_flushall = cmd_flushdb

    def cmd_rename(self, s, a):
        v = self.lookup(a[1])
        if v is None:
            return Err("ERR no such key")
        e = self.expires.get(a[1])
        self.delete_key(a[1])
        self.delete_key(a[2])
        self.data[a[2]] = v
        if e is not None:
            self.expires[a[2]] = e
        self.touch(a[2])
        return OK

    def _expire(self, k, at_ms, opts):
        if self.lookup(k) is None:
            return 0
        cur = self.expires.get(k)
        for o in opts:
            o = o.upper()
            if o == b"NX" and cur is not None:
                return 0
            if o == b"XX" and cur is None:
                return 0
            if o == b"GT" and (cur is None or at_ms <= cur):
                return 0
            if o == b"LT" and cur is not None and at_ms >= cur:
                return 0
        if at_ms <= self.now_ms_f():
            self.delete_key(k)
        else:
            self.expires[k] = at_ms
            self.touch(k)
        return 1

    def cmd_expire(self, s, a):
        return self._expire(a[1], self.now_ms_f() + pint(a[2]) * 1000, a[3:])

    def cmd_pexpire(self, s, a):
        return self._expire(a[1], self.now_ms_f() + pint(a[2]), a[3:])

    def cmd_expireat(self, s, a):
        return self._expire(a[1], pint(a[2]) * 1000, a[3:])

    def cmd_pexpireat(self, s, a):
        return self._expire(a[1], pint(a[2]), a[3:])

    def cmd_persist(self, s, a):
        if self.lookup(a[1]) is None:
            return 0
        return 1 if self.expires.pop(a[1], None) is not None else 0

    def cmd_pttl(self, s, a):
        if self.lookup(a[1]) is None:
            return -2
        e = self.expires.get(a[1])
        return -1 if e is None else max(0, int(e - self.now_ms_f()))

    def cmd_ttl(self, s, a):
        r = self.cmd_pttl(s, a)
        return r if r < 0 else (r + 500) // 1000

    # ---- strings -------------------------------------------------------

    def cmd_get(self, s, a):
        v = self.lookup(a[1])
        if v is not None and not isinstance(v, bytes):
            return Err(WRONGTYPE)
        return v

    def cmd_mget(self, s, a):
        if len(a) < 2:
            raise IndexError
        out = []
        for k in a[1:]:
            v = self.lookup(k)
            out.append(v if isinstance(v, bytes) else None)
        return out

    def cmd_mset(self, s, a):
        for i in range(1, len(a), 2):
            self.delete_key(a[i])
            self.data[a[i]] = a[i + 1]
            self.touch(a[i])
        return OK

    def cmd_set(self, s, a):
        k, v = a[1], a[2]
        nx = xx = get = keep = False
        at = None
        i = 3
        while i < len(a):
            o = a[i].upper()
            if o == b"NX":
                nx = True
            elif o == b"XX":
                xx = True
            elif o == b"GET":
                get = True
            elif o == b"KEEPTTL":
                keep = True
            elif o in (b"EX", b"PX", b"EXAT", b"PXAT"):
                n = pint(a[i + 1])
                if n <= 0:
                    return Err("ERR invalid expire time in 'set' command")
                at = {b"EX": self.now_ms_f() + n * 1000, b"PX": self.now_ms_f() + n,
                      b"EXAT": n * 1000, b"PXAT": n}[o]
                i += 1
            else:
                return Err("ERR syntax error")
            i += 1
        old = self.lookup(k)
        if get and old is not None and not isinstance(old, bytes):
            return Err(WRONGTYPE)
        if (nx and old is not None) or (xx and old is None):
            return old if get else None
        if not keep:
            self.expires.pop(k, None)
        self.data[k] = v
        if at is not None:
            self.expires[k] = at
        self.touch(k)
        return old if get else OK

    def cmd_setnx(self, s, a):
        if self.lookup(a[1]) is not None:
            return 0
        self.cmd_set(s, [b"SET", a[1], a[2]])
        return 1

    def cmd_setex(self, s, a):
        return self.cmd_set(s, [b"SET", a[1], a[3], b"EX", a[2]])

    def cmd_psetex(self, s, a):
        return self.cmd_set(s, [b"SET", a[1], a[3], b"PX", a[2]])

    def cmd_getset(self, s, a):
        return self.cmd_set(s, [b"SET", a[1], a[2], b"GET"])

    def cmd_getdel(self, s, a):
        v = self.cmd_get(s, a)
        if isinstance(v, bytes):
            self.delete_key(a[1])
        return v

    def cmd_strlen(self, s, a):
        v = self.cmd_get(s, a)
        return len(v) if isinstance(v, bytes) else 0

    def cmd_append(self, s, a):
        v = self.typed(a[1], bytes) or b""
        self.data[a[1]] = v + a[2]
        self.touch(a[1])
        return len(v + a[2])

    def _incr(self, k, n):
        v = self.typed(k, bytes)
        r = (pint(v) if v is not None else 0) + n
        self.data[k] = b"%d" % r
        self.touch(k)
        return r

    def cmd_incr(self, s, a):
        return self._incr(a[1], 1)

    def cmd_decr(self, s, a):
        return self._incr(a[1], -1)

    def cmd_incrby(self, s, a):
        return self._incr(a[1], pint(a[2]))

    def cmd_decrby(self, s, a):
        return self._incr(a[1], -pint(a[2]))

    # ---- hashes --------------------------------------------------------

    def cmd_hset(self, s, a):
        if len(a) < 4 or len(a) % 2:
            return Err("ERR wrong number of arguments for 'hset' command")
        h = self.typed(a[1], dict, True)
        n = 0
        for i in range(2, len(a), 2):
            if a[i] not in h:
                n += 1
            h[a[i]] = a[i + 1]
        self.touch(a[1])
        return n

    def cmd_hmset(self, s, a):
        r = self.cmd_hset(s, a)
        return r if isinstance(r, Err) else OK

    def cmd_hsetnx(self, s, a):
        h = self.typed(a[1], dict, True)
        if a[2] in h:
            return 0
        h[a[2]] = a[3]
        self.touch(a[1])
        return 1

    def cmd_hget(self, s, a):
        h = self.typed(a[1], dict)
        f = a[2]
        return h.get(f) if h else None

    def cmd_hmget(self, s, a):
        h = self.typed(a[1], dict) or {}
        return [h.get(f) for f in a[2:]]

    def cmd_hgetall(self, s, a):
        h = self.typed(a[1], dict) or {}
        out = Map()
        for k, v in h.items():
            out += [k, v]
        return out

    def cmd_hkeys(self, s, a):
        return list(self.typed(a[1], dict) or {})

    def cmd_hvals(self, s, a):
        return list((self.typed(a[1], dict) or {}).values())

    def cmd_hlen(self, s, a):
        return len(self.typed(a[1], dict) or {})

    def cmd_hexists(self, s, a):
        return 1 if a[2] in (self.typed(a[1], dict) or {}) else 0

    def cmd_hdel(self, s, a):
        h = self.typed(a[1], dict)
        if len(a) < 3:
            raise IndexError
        if h is None:
            return 0
        n = 0
        for f in a[2:]:
            if h.pop(f, None) is not None:
                n += 1
        if n:
            self.cleanup(a[1])
        return n

    def cmd_hincrby(self, s, a):
        n = pint(a[3])
        h = self.typed(a[1], dict, True)
        cur = h.get(a[2], b"0")
        if not re.fullmatch(rb"-?\d+", cur):
            return Err("ERR hash value is not an integer")
        h[a[2]] = b"%d" % (int(cur) + n)
        self.touch(a[1])
        return int(cur) + n

    def cmd_hincrbyfloat(self, s, a):
        h = self.typed(a[1], dict, True)
        v = pfloat(h.get(a[2], b"0")) + pfloat(a[3])
        h[a[2]] = fmt_double(v)
        self.touch(a[1])
        return h[a[2]]

    # ---- lists ---------------------------------------------------------

    def cmd_lpush(self, s, a):
        l = self.typed(a[1], list, True)
        for v in a[2:]:
            l.insert(0, v)
        self.touch(a[1])
        return len(l)

    def cmd_rpush(self, s, a):
        l = self.typed(a[1], list, True)
        l.extend(a[2:])
        self.touch(a[1])
        return len(l)

    def _pop(self, a, left):
        l = self.typed(a[1], list)
        if len(a) > 2:
            if l is None:
                return NIL_ARRAY
            n = pint(a[2])
            out = [l.pop(0) if left else l.pop() for _ in range(min(n, len(l)))]
            self.cleanup(a[1])
            return out
        if l is None:
            return None
        v = l.pop(0) if left else l.pop()
        self.cleanup(a[1])
        return v

    def cmd_lpop(self, s, a):
        return self._pop(a, True)

    def cmd_rpop(self, s, a):
        return self._pop(a, False)

    def cmd_llen(self, s, a):
        return len(self.typed(a[1], list) or [])

    def cmd_lrange(self, s, a):
        l = self.typed(a[1], list) or []
        return self._slice(l, pint(a[2]), pint(a[3]))

    @staticmethod
    def _slice(l, b, e):
        n = len(l)
        if b < 0:
            b = max(0, n + b)
        if e < 0:
            e = n + e
        return l[b : e + 1] if b <= e else []

    def cmd_lrem(self, s, a):
        l = self.typed(a[1], list)
        if l is None:
            return 0
        c = pint(a[2])
        n = 0
        idx = range(len(l)) if c >= 0 else range(len(l) - 1, -1, -1)
        rm = []
        for i in idx:
            if l[i] == a[3]:
                rm.append(i)
                if c and len(rm) == abs(c):
                    break
        for i in sorted(rm, reverse=True):
            l.pop(i)
            n += 1
        if n:
            self.cleanup(a[1])
        return n

    def cmd_lindex(self, s, a):
        l = self.typed(a[1], list) or []
        i = pint(a[2])
        try:
            return l[i]
        except IndexError:
            return None

    def cmd_ltrim(self, s, a):
        l = self.typed(a[1], list)
        if l is not None:
            l[:] = self._slice(l, pint(a[2]), pint(a[3]))
            self.cleanup(a[1])
        return OK

    def _bpop(self, s, a, left):
        keys = a[1:-1]
        timeout = pfloat(a[-1]) * 1000

        def attempt():
            for k in keys:
                l = self.typed(k, list)
                if l:
                    v = l.pop(0) if left else l.pop()
                    self.cleanup(k)
                    return [k, v]
            return None

        r = attempt()
        if r is not None:
            return r
        if self.in_script or s is None:
            return NIL_ARRAY
        return self.block(s, attempt, keys, timeout, NIL_ARRAY, a)

    def cmd_blpop(self, s, a):
        return self._bpop(s, a, True)

    def cmd_brpop(self, s, a):
        return self._bpop(s, a, False)

    # ---- sets ----------------------------------------------------------

    def cmd_sadd(self, s, a):
        if len(a) < 3:
            raise IndexError
        st = self.typed(a[1], OrderedDict, True)
        n = 0
        for m in a[2:]:
            if m not in st:
                st[m] = None
                n += 1
        self.touch(a[1])
        return n

    def cmd_srem(self, s, a):
        st = self.typed(a[1], OrderedDict)
        if st is None:
            return 0
        n = 0
        for m in a[2:]:
            if m in st:
                del st[m]
                n += 1
        if n:
            self.cleanup(a[1])
        return n

    def cmd_smembers(self, s, a):
        return SetReply(self.typed(a[1], OrderedDict) or [])

    def cmd_sismember(self, s, a):
        return 1 if a[2] in (self.typed(a[1], OrderedDict) or {}) else 0

    def cmd_scard(self, s, a):
        return len(self.typed(a[1], OrderedDict) or {})

    # ---- sorted sets ---------------------------------------------------

    def cmd_zadd(self, s, a):
        i = 2
        nx = xx = gt = lt = ch = incr = False
        while True:
            o = a[i].upper()
            if o == b"NX":
                nx = True
            elif o == b"XX":
                xx = True
            elif o == b"GT":
                gt = True
            elif o == b"LT":
                lt = True
            elif o == b"CH":
                ch = True
            elif o == b"INCR":
                incr = True
            else:
                break
            i += 1
        rest = a[i:]
        if not rest or len(rest) % 2:
            return Err("ERR syntax error")
        pairs = [(pfloat(rest[j]), rest[j + 1]) for j in range(0, len(rest), 2)]
        z = self.typed(a[1], ZSet, not xx)
        if z is None:
            return None if incr else 0
        added = changed = 0
        last: float | None = None
        for sc, m in pairs:
            cur = z.d.get(m)
            if incr and cur is not None:
                sc = cur + sc
            if cur is None:
                if xx:
                    continue
                z.add(m, sc)
                added += 1
                last = sc
            else:
                if nx or (gt and sc <= cur) or (lt and sc >= cur):
                    continue
                last = sc
                if sc != cur:
                    z.add(m, sc)
                    changed += 1
        self.cleanup(a[1])
        if incr:
            return last
        return added + changed if ch else added

    def cmd_zincrby(self, s, a):
        return self.cmd_zadd(s, [b"ZADD", a[1], b"INCR", a[2], a[3]])

    def cmd_zrem(self, s, a):
        z = self.typed(a[1], ZSet)
        if len(a) < 3:
            raise IndexError
        if z is None:
            return 0
        n = sum(1 for m in a[2:] if z.rem(m))
        if n:
            self.cleanup(a[1])
        return n

    def cmd_zcard(self, s, a):
        z = self.typed(a[1], ZSet)
        return len(z) if z else 0

    def cmd_zscore(self, s, a):
        z = self.typed(a[1], ZSet)
        m = a[2]
        return z.d.get(m) if z else None

    def cmd_zmscore(self, s, a):
        z = self.typed(a[1], ZSet)
        return [z.d.get(m) if z else None for m in a[2:]]

    def _by_score(self, z, lo, hi):
        (l, lx), (h, hx) = pscore_bound(lo), pscore_bound(hi)
        if z is None:
            return []
        return [(m, sc) for sc, m in z.order
                if (sc > l if lx else sc >= l) and (sc < h if hx else sc <= h)]

    def cmd_zcount(self, s, a):
        return len(self._by_score(self.typed(a[1], ZSet), a[2], a[3]))

    @staticmethod
    def _limit(out, off, n):
        if off < 0:
            return []
        return out[off:] if n < 0 else out[off : off + n]

    def _zout(self, out, ws):
        return Pairs(out) if ws else [m for m, _ in out]

    def cmd_zrangebyscore(self, s, a, rev=False):
        ws = False
        lim = None
        i = 4
        while i < len(a):
            o = a[i].upper()
            if o == b"WITHSCORES":
                ws = True
            elif o == b"LIMIT":
                lim = (pint(a[i + 1]), pint(a[i + 2]))
                i += 2
            else:
                return Err("ERR syntax error")
            i += 1
        lo, hi = (a[3], a[2]) if rev else (a[2], a[3])
        out = self._by_score(self.typed(a[1], ZSet), lo, hi)
        if rev:
            out.reverse()
        if lim:
            out = self._limit(out, *lim)
        return self._zout(out, ws)

    def cmd_zrevrangebyscore(self, s, a):
        return self.cmd_zrangebyscore(s, a, True)

    def cmd_zrange(self, s, a, rev=False):
        ws = bys = False
        lim = None
        i = 4
        while i < len(a):
            o = a[i].upper()
            if o == b"WITHSCORES":
                ws = True
            elif o == b"BYSCORE":
                bys = True
            elif o == b"REV":
                rev = True
            elif o == b"LIMIT":
                lim = (pint(a[i + 1]), pint(a[i + 2]))
                i += 2
            else:
                return Err("ERR syntax error")
            i += 1
        z = self.typed(a[1], ZSet)
        if bys:
            lo, hi = (a[3], a[2]) if rev else (a[2], a[3])
            out = self._by_score(z, lo, hi)
            if rev:
                out.reverse()
            if lim:
                out = self._limit(out, *lim)
        else:
            full = [(m, sc) for sc, m in z.order] if z else []
            if rev:
                full.reverse()
            out = self._slice(full, pint(a[2]), pint(a[3]))
        return self._zout(out, ws)

    def cmd_zrevrange(self, s, a):
        return self.cmd_zrange(s, a, True)

    def cmd_zrank(self, s, a):
        z = self.typed(a[1], ZSet)
        if z is None or a[2] not in z.d:
            return None
        return bisect.bisect_left(z.order, (z.d[a[2]], a[2]))

    def cmd_zremrangebyscore(self, s, a):
        z = self.typed(a[1], ZSet)
        out = self._by_score(z, a[2], a[3])
        for m, _ in out:
            z.rem(m)
        if out:
            self.cleanup(a[1])
        return len(out)

    def cmd_zremrangebyrank(self, s, a):
        z = self.typed(a[1], ZSet)
        full = [m for _, m in z.order] if z else []
        out = self._slice(full, pint(a[2]), pint(a[3]))
        for m in out:
            z.rem(m)
        if out:
            self.cleanup(a[1])
        return len(out)

    def _zpop(self, a, idx):
        z = self.typed(a[1], ZSet)
        n = pint(a[2]) if len(a) > 2 else 1
        out = []
        while z and len(z) and n > 0:
            sc, m = z.order[idx]
            z.rem(m)
            out.append((m, sc))
            n -= 1
        if out:
            self.cleanup(a[1])
        return Pairs(out)

    def cmd_zpopmin(self, s, a):
        return self._zpop(a, 0)

    def cmd_zpopmax(self, s, a):
        return self._zpop(a, -1)

    # ---- streams -------------------------------------------------------

    def cmd_xadd(self, s, a):
        i = 2
        nomk = False
        trim = None
        while True:
            o = a[i].upper()
            if o == b"NOMKSTREAM":
                nomk = True
                i += 1
            elif o in (b"MAXLEN", b"MINID"):
                i += 1
                if a[i] in (b"~", b"="):
                    i += 1
                trim = (o, a[i])
                i += 1
                if i < len(a) and a[i].upper() == b"LIMIT":
                    i += 2
            else:
                break
        idarg = a[i]
        fields = a[i + 1 :]
        if not fields or len(fields) % 2:
            return Err("ERR wrong number of arguments for 'xadd' command")
        st = self.typed(a[1], Stream)
        if st is None:
            if nomk:
                return None
            st = self.typed(a[1], Stream, True)
        if idarg == b"*":
            ms = self.now()
            nid = (ms, 0) if ms > st.last[0] else (st.last[0], st.last[1] + 1)
        elif idarg.endswith(b"-*"):
            ms = int(idarg[:-2])
            if ms < st.last[0]:
                return Err("ERR The ID specified in XADD is equal or smaller than the target stream top item")
            nid = (ms, st.last[1] + 1) if ms == st.last[0] else (ms, 0)
        else:
            nid = pid(idarg)
            if nid <= st.last:
                return Err("ERR The ID specified in XADD is equal or smaller than the target stream top item")
        st.ids.append(nid)
        st.entries[nid] = list(fields)
        st.last = nid
        st.added += 1
        if trim:
            self._trim(st, trim)
        self.touch(a[1])
        return fid(nid)

    def _trim(self, st, trim):
        kind, v = trim
        n = 0
        if kind == b"MAXLEN":
            while len(st.ids) > int(v):
                st.delete(st.ids[0])
                n += 1
        else:
            m = pid(v)
            while st.ids and st.ids[0] < m:
                st.delete(st.ids[0])
                n += 1
        return n

    def cmd_xtrim(self, s, a):
        st = self.typed(a[1], Stream)
        kind = a[2].upper()
        i = 3
        if a[i] in (b"~", b"="):
            i += 1
        v = a[i]
        if st is None:
            return 0
        n = self._trim(st, (kind, v))
        self.touch(a[1])
        return n

    def cmd_xlen(self, s, a):
        st = self.typed(a[1], Stream)
        return len(st) if st else 0

    def cmd_xdel(self, s, a):
        st = self.typed(a[1], Stream)
        if len(a) < 3:
            raise IndexError
        ids = [pid(x) for x in a[2:]]
        if st is None:
            return 0
        n = sum(1 for i in ids if st.delete(i))
        if n:
            self.touch(a[1])
        return n

    @staticmethod
    def _entry(st, i):
        return [fid(i), list(st.entries[i])]

    def cmd_xrange(self, s, a, rev=False):
        lo, hi = (a[3], a[2]) if rev else (a[2], a[3])
        cnt = None
        if len(a) > 4:
            if a[4].upper() != b"COUNT":
                return Err("ERR syntax error")
            cnt = pint(a[5])
        lox, hix = lo[:1] == b"(", hi[:1] == b"("
        l = pid(lo[1:] if lox else lo)
        h = pid(hi[1:] if hix else hi, 2**63)
        st = self.typed(a[1], Stream)
        if st is None:
            return []
        out = [i for i in st.ids if (i > l if lox else i >= l) and (i < h if hix else i <= h)]
        if rev:
            out.reverse()
        if cnt is not None and cnt >= 0:
            out = out[:cnt]
        return [self._entry(st, i) for i in out]

    def cmd_xrevrange(self, s, a):
        return self.cmd_xrange(s, a, True)

    def cmd_xread(self, s, a):
        i = 1
        cnt = block = None
        while True:
            o = a[i].upper()
            if o == b"COUNT":
                cnt = pint(a[i + 1])
                i += 2
            elif o == b"BLOCK":
                block = pint(a[i + 1])
                i += 2
            elif o == b"STREAMS":
                i += 1
                break
            else:
                return Err("ERR syntax error")
        rest = a[i:]
        if not rest or len(rest) % 2:
            return Err("ERR Unbalanced 'xread' list of streams: for each stream key an ID or '$' must be specified.")
        n = len(rest) // 2
        keys, ids = rest[:n], rest[n:]
        starts = []
        for k, x in zip(keys, ids):
            st = self.typed(k, Stream)
            if x == b"$":
                starts.append(st.last if st else (0, 0))
            else:
                starts.append(pid(x))

        def attempt():
            out = Map()
            for k, start in zip(keys, starts):
                st = self.typed(k, Stream)
                if st is None:
                    continue
                j = bisect.bisect_right(st.ids, start)
                sel = st.ids[j : j + cnt] if cnt else st.ids[j:]
                if sel:
                    out += [k, [self._entry(st, x) for x in sel]]
            if not out:
                return None
            return _StreamReply(out)

        r = attempt()
        if r is not None:
            return r
        if block is None or self.in_script:
            return NIL_ARRAY
        return self.block(s, attempt, keys, block, NIL_ARRAY, a)

    def _group(self, key, g):
        st = self.typed(key, Stream)
        if st is None or g not in st.groups:
            raise Err(f"NOGROUP No such key '{key.decode('latin1')}' or consumer group '{g.decode('latin1')}'")
        return st, st.groups[g]

    def _consumer(self, grp, name):
        c = grp.consumers.get(name)
        if c is None:
            c = grp.consumers[name] = {"seen": self.now(), "active": -1}
        c["seen"] = self.now()
        return c

    def cmd_xreadgroup(self, s, a):
        if a[1].upper() != b"GROUP":
            return Err("ERR syntax error")
        g, cons = a[2], a[3]
        i = 4
        cnt = block = None
        noack = False
        while True:
            o = a[i].upper()
            if o == b"COUNT":
                cnt = pint(a[i + 1])
                i += 2
            elif o == b"BLOCK":
                block = pint(a[i + 1])
                i += 2
            elif o == b"NOACK":
                noack = True
                i += 1
            elif o == b"CLAIM":
                i += 2
            elif o == b"STREAMS":
                i += 1
                break
            else:
                return Err("ERR syntax error")
        rest = a[i:]
        n = len(rest) // 2
        keys, ids = rest[:n], rest[n:]

        def attempt():
            out = Map()
            for k, x in zip(keys, ids):
                try:
                    st, grp = self._group(k, g)
                except Err:
                    raise Err(f"NOGROUP No such key '{k.decode('latin1')}' or consumer group '{g.decode('latin1')}' in XREADGROUP with GROUP option")
                c = self._consumer(grp, cons)
                if x == b">":
                    j = bisect.bisect_right(st.ids, grp.last)
                    sel = st.ids[j : j + cnt] if cnt else st.ids[j:]
                    if sel:
                        c["active"] = self.now()
                        for e in sel:
                            grp.last = e
                            if not noack:
                                grp.pel[e] = [cons, self.now(), 1]
                        out += [k, [self._entry(st, e) for e in sel]]
                else:
                    start = pid(x)
                    sel = [e for e in sorted(grp.pel) if e > start and grp.pel[e][0] == cons]
                    if cnt:
                        sel = sel[:cnt]
                    out += [k, [self._entry(st, e) if e in st.entries else [fid(e), None] for e in sel]]
            if not out:
                return None
            return _StreamReply(out)

        r = attempt()
        if r is not None:
            return r
        if block is None or self.in_script:
            return NIL_ARRAY
        return self.block(s, attempt, keys, block, NIL_ARRAY, a)

    def cmd_xgroup(self, s, a):
        sub = a[1].upper()
        if sub == b"CREATE":
            k, g, x = a[2], a[3], a[4]
            mk = any(o.upper() == b"MKSTREAM" for o in a[5:])
            st = self.typed(k, Stream)
            if st is None:
                if not mk:
                    return Err("ERR The XGROUP subcommand requires the key to exist. Note that for CREATE you may want to use the MKSTREAM option to create an empty stream automatically.")
                st = self.typed(k, Stream, True)
            if g in st.groups:
                return Err("BUSYGROUP Consumer Group name already exists")
            st.groups[g] = Group(st.last if x == b"$" else pid(x))
            self.touch(k)
            return OK
        if sub == b"DESTROY":
            st = self.typed(a[2], Stream)
            r = 1 if st and st.groups.pop(a[3], None) is not None else 0
            self.touch(a[2])
            return r
        if sub == b"CREATECONSUMER":
            st, grp = self._group(a[2], a[3])
            new = a[4] not in grp.consumers
            self._consumer(grp, a[4])
            return 1 if new else 0
        if sub == b"DELCONSUMER":
            st, grp = self._group(a[2], a[3])
            n = [e for e, p in grp.pel.items() if p[0] == a[4]]
            for e in n:
                del grp.pel[e]
            grp.consumers.pop(a[4], None)
            return len(n)
        if sub == b"SETID":
            st, grp = self._group(a[2], a[3])
            grp.last = st.last if a[4] == b"$" else pid(a[4])
            return OK
        return Err("ERR unknown subcommand")

    def cmd_xack(self, s, a):
        st = self.typed(a[1], Stream)
        ids = [pid(x) for x in a[3:]]
        if st is None or a[2] not in st.groups:
            return 0
        grp = st.groups[a[2]]
        n = 0
        for x in ids:
            if grp.pel.pop(x, None) is not None:
                n += 1
        return n

    def cmd_xclaim(self, s, a):
        st, grp = self._group(a[1], a[2])
        cons, min_idle = a[3], pint(a[4])
        i = 5
        ids = []
        while i < len(a) and re.fullmatch(rb"\d+(-\d+)?", a[i]):
            ids.append(pid(a[i]))
            i += 1
        idle = tm = retry = None
        force = justid = False
        while i < len(a):
            o = a[i].upper()
            if o == b"IDLE":
                idle = pint(a[i + 1])
                i += 1
            elif o == b"TIME":
                tm = pint(a[i + 1])
                i += 1
            elif o == b"RETRYCOUNT":
                retry = pint(a[i + 1])
                i += 1
            elif o == b"FORCE":
                force = True
            elif o == b"JUSTID":
                justid = True
            elif o == b"LASTID":
                i += 1
            else:
                return Err("ERR Unrecognized XCLAIM option '%s'" % a[i].decode("latin1"))
            i += 1
        now = self.now()
        self._consumer(grp, cons)
        out = []
        for x in ids:
            p = grp.pel.get(x)
            if p is None:
                if not force or x not in st.entries:
                    continue
                p = grp.pel[x] = [cons, 0, 0]
            if x not in st.entries:
                del grp.pel[x]
                continue
            if min_idle and now - p[1] < min_idle:
                continue
            p[0] = cons
            p[1] = tm if tm is not None else now - (idle or 0)
            if retry is not None:
                p[2] = retry
            elif not justid:
                p[2] += 1
            out.append(fid(x) if justid else self._entry(st, x))
        return out

    def cmd_xautoclaim(self, s, a):
        st = self.typed(a[1], Stream)
        if st is None or a[2] not in st.groups:
            return Err(f"NOGROUP No such key '{a[1].decode('latin1')}' or consumer group '{a[2].decode('latin1')}'")
        grp = st.groups[a[2]]
        cons, min_idle, start = a[3], pint(a[4]), pid(a[5])
        cnt = 100
        justid = False
        i = 6
        while i < len(a):
            o = a[i].upper()
            if o == b"COUNT":
                cnt = pint(a[i + 1])
                i += 1
            elif o == b"JUSTID":
                justid = True
            i += 1
        if cnt < 1:
            return Err("ERR COUNT must be > 0")
        now = self.now()
        self._consumer(grp, cons)
        out = []
        deleted = []
        cursor = (0, 0)
        attempts = cnt * 10
        for x in sorted(grp.pel):
            if x < start:
                continue
            if attempts <= 0 or cnt <= 0:
                cursor = x
                break
            attempts -= 1
            p = grp.pel[x]
            if x not in st.entries:
                del grp.pel[x]
                deleted.append(fid(x))
                cnt -= 1
                continue
            if now - p[1] < min_idle:
                continue
            p[0] = cons
            p[1] = now
            if not justid:
                p[2] += 1
            out.append(fid(x) if justid else self._entry(st, x))
            cnt -= 1
        return [fid(cursor), out, deleted]

    def cmd_xpending(self, s, a):
        st, grp = self._group(a[1], a[2])
        if len(a) == 3:
            if not grp.pel:
                return [0, None, None, NIL_ARRAY]
            ids = sorted(grp.pel)
            per: dict[bytes, int] = {}
            for p in grp.pel.values():
                per[p[0]] = per.get(p[0], 0) + 1
            return [len(ids), fid(ids[0]), fid(ids[-1]), [[c, b"%d" % n] for c, n in sorted(per.items())]]
        i = 3
        idle = 0
        if a[i].upper() == b"IDLE":
            idle = pint(a[i + 1])
            i += 2
        lox, hix = a[i][:1] == b"(", a[i + 1][:1] == b"("
        lo = pid(a[i][1:] if lox else a[i])
        hi = pid(a[i + 1][1:] if hix else a[i + 1], 2**63)
        cnt = pint(a[i + 2])
        cons = a[i + 3] if len(a) > i + 3 else None
        now = self.now()
        out = []
        for x in sorted(grp.pel):
            p = grp.pel[x]
            if (x <= lo if lox else x < lo) or (x >= hi if hix else x > hi):
                continue
            if cons is not None and p[0] != cons:
                continue
            if now - p[1] < idle:
                continue
            out.append([fid(x), p[0], now - p[1], p[2]])
            if len(out) >= cnt:
                break
        return out

    def cmd_xinfo(self, s, a):
        sub = a[1].upper()
        st = self.typed(a[2], Stream)
        if st is None:
            return Err("ERR no such key")
        if sub == b"STREAM":
            return Map([b"length", len(st), b"radix-tree-keys", 1, b"radix-tree-nodes", 2,
                        b"last-generated-id", fid(st.last), b"max-deleted-entry-id", fid(st.max_deleted),
                        b"entries-added", st.added, b"recorded-first-entry-id",
                        fid(st.ids[0]) if st.ids else b"0-0", b"groups", len(st.groups),
                        b"first-entry", self._entry(st, st.ids[0]) if st.ids else None,
                        b"last-entry", self._entry(st, st.ids[-1]) if st.ids else None])
        if sub == b"GROUPS":
            out = []
            for n, g in st.groups.items():
                lag = len([i for i in st.ids if i > g.last])
                out.append(Map([b"name", n, b"consumers", len(g.consumers), b"pending", len(g.pel),
                                b"last-delivered-id", fid(g.last), b"entries-read", None, b"lag", lag]))
            return out
        if sub == b"CONSUMERS":
            if a[3] not in st.groups:
                return Err(f"NOGROUP No such consumer group '{a[3].decode('latin1')}' for key name '{a[2].decode('latin1')}'")
            g = st.groups[a[3]]
            now = self.now()
            return [Map([b"name", n, b"pending", sum(1 for p in g.pel.values() if p[0] == n),
                         b"idle", now - c["seen"],
                         b"inactive", now - c["active"] if c["active"] >= 0 else -1])
                    for n, c in g.consumers.items()]
        return Err("ERR unknown subcommand")

    # ---- pub/sub -------------------------------------------------------

    def _sub(self, s, a, own, reg, word):
        for c in a[1:]:
            own[c] = None
            reg.setdefault(c, {})[s] = None
            n = len(s.subs) + len(s.psubs) if word != b"ssubscribe" else len(s.ssubs)
            s.reply(Push([word, c, n]))
        return NOREPLY

    def _unsub(self, s, a, own, reg, word):
        chans = a[1:] or list(own)
        if not chans:
            s.reply(Push([word, None, len(s.subs) + len(s.psubs)]))
        for c in chans:
            own.pop(c, None)
            reg.get(c, {}).pop(s, None)
            n = len(s.subs) + len(s.psubs) if word != b"sunsubscribe" else len(s.ssubs)
            s.reply(Push([word, c, n]))
        return NOREPLY

    def cmd_subscribe(self, s, a):
        return self._sub(s, a, s.subs, self.channels, b"subscribe")

    def cmd_psubscribe(self, s, a):
        return self._sub(s, a, s.psubs, self.patterns, b"psubscribe")

    def cmd_ssubscribe(self, s, a):
        return self._sub(s, a, s.ssubs, self.schannels, b"ssubscribe")

    def cmd_unsubscribe(self, s, a):
        return self._unsub(s, a, s.subs, self.channels, b"unsubscribe")

    def cmd_punsubscribe(self, s, a):
        return self._unsub(s, a, s.psubs, self.patterns, b"punsubscribe")

    def cmd_sunsubscribe(self, s, a):
        return self._unsub(s, a, s.ssubs, self.schannels, b"sunsubscribe")

    def publish_local(self, c: bytes, m: bytes) -> int:
        n = 0
        for s in list(self.channels.get(c, {})):
            s.reply(Push([b"message", c, m]))
            n += 1
        for p, subs in list(self.patterns.items()):
            if subs and glob_match(p, c):
                for s in list(subs):
                    s.reply(Push([b"pmessage", p, c, m]))
                    n += 1
        return n

    def cmd_publish(self, s, a):
        n = self.publish_local(a[1], a[2])
        if self.on_publish is not None:
            self.on_publish(a[1], a[2])
        if self.publish_hook is not None:
            self.publish_hook(a[1], a[2])
        return n

    def cmd_spublish(self, s, a):
        n = 0
        for t in list(self.schannels.get(a[1], {})):
            t.reply(Push([b"smessage", a[1], a[2]]))
            n += 1
        return n

    def cmd_pubsub(self, s, a):
        sub = a[1].upper()
        if sub == b"NUMSUB":
            out = Map()
            for c in a[2:]:
                out += [c, len(self.channels.get(c, {}))]
            return out
        if sub == b"CHANNELS":
            return [c for c, m in self.channels.items() if m and (len(a) < 3 or glob_match(a[2], c))]
        if sub == b"NUMPAT":
            return sum(1 for m in self.patterns.values() if m)
        return Err("ERR unknown subcommand")

    # ---- scripting -----------------------------------------------------

    def cmd_script(self, s, a):
        sub = a[1].upper()
        if sub == b"LOAD":
            return self.script_load(a[2])
        if sub == b"EXISTS":
            return [1 if x.lower() in self.scripts else 0 for x in a[2:]]
        if sub == b"FLUSH":
            self.scripts.clear()
            return OK
        return Err("ERR unknown subcommand")

    def script_load(self, src: bytes) -> bytes:
        sha = hashlib.sha1(src).hexdigest().encode()
        fn = COMPILED.get(sha)
        if fn is None:
            try:
                fn = L.compile_lua(src.decode("utf-8"))
            except L.LuaSyntaxError as e:
                raise Err(f"ERR Error compiling script (new function): user_script:{e}".replace("\n", " "))
            COMPILED[sha] = fn
            SOURCES[sha] = src
        self.scripts[sha] = fn
        return sha

    def cmd_eval(self, s, a):
        sha = self.script_load(a[1])
        return self.run_script(s, self.scripts[sha], a)

    def cmd_evalsha(self, s, a):
        fn = self.scripts.get(a[1].lower())
        if fn is None:
            return Err("NOSCRIPT No matching script. Please use EVAL.")
        return self.run_script(s, fn, a)

    cmd_eval_ro = cmd_eval
    cmd_evalsha_ro = cmd_evalsha

    def run_script(self, s, fn, a):
        n = pint(a[2])
        keys = a[3 : 3 + n]
        argv = a[3 + n :]
        G = L.base_globals()
        G.set(b"KEYS", L.LuaTable.from_list(list(keys)))
        G.set(b"ARGV", L.LuaTable.from_list(list(argv)))

        def call(*args):
            if not args:
                raise L.LuaError(_lerr("ERR Please specify at least one argument for this redis.call() call"))
            conv = []
            for x in args:
                if isinstance(x, bytes):
                    conv.append(x)
                elif x.__class__ is bool or not isinstance(x, (int, float)):
                    raise L.LuaError(_lerr("ERR Lua redis lib command arguments must be strings or integers"))
                elif isinstance(x, float) and not x.is_integer():
                    conv.append(b"%.17g" % x)
                else:
                    conv.append(b"%d" % int(x))
            r = self.dispatch(s, conv)
            if isinstance(r, Err):
                raise L.LuaError(_lerr(r.msg))
            return [to_lua(r)]

        def pcall(*args):
            try:
                return call(*args)
            except L.LuaError as e:
                return [e.value if isinstance(e.value, L.LuaTable) else _lerr(str(e))]

        G.set(b"redis", L._mk({
            "call": call,
            "pcall": pcall,
            "status_reply": lambda m: _ltab("ok", m),
            "error_reply": lambda m: _ltab("err", m),
            "sha1hex": lambda x: hashlib.sha1(L.tostr(x)).hexdigest().encode(),
            "log": lambda *x: [],
            "setresp": lambda *x: [],
            "replicate_commands": lambda *x: True,
            "LOG_DEBUG": 0, "LOG_VERBOSE": 1, "LOG_NOTICE": 2, "LOG_WARNING": 3,
        }))
        outer, self.in_script = self.in_script, True
        old_keys, self.script_keys = self.script_keys, list(keys)
        try:
            r = fn(G)
            return from_lua(r[0] if r else None)
        except L.LuaError as e:
            if isinstance(e.value, L.LuaTable) and e.value.get(b"err") is not None:
                return Err(e.value.get(b"err").decode("utf-8", "replace"))
            return Err(("ERR user_script: " + str(e)).replace("\r", " ").replace("\n", " "))
        except RecursionError:
            return Err("ERR stack overflow")
        finally:
            self.in_script = outer
            self.script_keys = old_keys


class _StreamReply(Map):
    """XREAD reply: RESP3 map key->entries, RESP2 list of [key, entries]."""


_orig_encode = encode


def encode(r: Any, proto: int) -> bytes:  # noqa: F811
    if isinstance(r, _StreamReply) and proto == 2:
        return _orig_encode([[r[i], r[i + 1]] for i in range(0, len(r), 2)], 2)
    return _orig_encode(r, proto)


def _ltab(k, m):
    t = L.LuaTable()
    t.set(k.encode(), m)
    return t


def _lerr(msg: str):
    return _ltab("err", msg.encode())


def to_lua(r: Any) -> Any:
    if isinstance(r, Status):
        return _ltab("ok", bytes(r))
    if r is None or isinstance(r, NilArray) or r is NOREPLY:
        return False
    if r is True:
        return 1
    if isinstance(r, (int, bytes)) and not isinstance(r, bool):
        return r
    if isinstance(r, float):
        return fmt_double(r)
    if isinstance(r, Pairs):
        out = []
        for m, sc in r:
            out += [m, fmt_double(float(sc))]
        return L.LuaTable.from_list(out)
    if isinstance(r, _StreamReply):
        return L.LuaTable.from_list([to_lua([r[i], r[i + 1]]) for i in range(0, len(r), 2)])
    if isinstance(r, (list, tuple)):
        return L.LuaTable.from_list([to_lua(x) for x in r])
    raise TypeError(f"to_lua {r!r}")


def from_lua(v: Any) -> Any:
    if v is None or v is False:
        return None
    if v is True:
        return 1
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, bytes):
        return v
    if isinstance(v, L.LuaTable):
        if v.get(b"err") is not None:
            return Err(L.tostr(v.get(b"err")).decode("utf-8", "replace"))
        if v.get(b"ok") is not None:
            return Status(L.tostr(v.get(b"ok")))
        out = []
        i = 1
        while True:
            x = v.get(i)
            if x is None:
                break
            out.append(from_lua(x))
            i += 1
        return out
    return None
