"""A deterministic asyncio world: virtual clock, in-memory transport, single-step scheduling.

The harness owns time and the schedule: nothing runs except when the driver calls `step`, `settle`
or `advance`, so a generated list of driver actions is a complete description of a schedule.
"""
from __future__ import annotations

import asyncio
from asyncio import base_events
from typing import Any, Callable

from core import HarnessError, Violation

MAX_ITERATIONS = 3_000_000


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        return []

    def close(self):
        pass


class VirtualLoop(base_events.BaseEventLoop):
    """An event loop that is only ever stepped by the driver; time moves only by `advance`."""

    def __init__(self) -> None:
        super().__init__()
        self._now = 1000.0
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self.iterations = 0
        self.connector: Callable[[Callable[[], Any], Any, Any], Any] | None = None
        self.slow_callback_duration = 1e9

    # BaseEventLoop hooks
    def time(self) -> float:
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    async def create_connection(self, protocol_factory, host=None, port=None, **kwargs):
        if self.connector is None:
            raise HarnessError("no connector installed")
        return await self.connector(protocol_factory, host, port)

    # driver API
    def step(self) -> None:
        """Runs exactly one iteration of the event loop without moving time."""
        self.iterations += 1
        if self.iterations > MAX_ITERATIONS:
            raise Violation("the event loop never becomes idle (busy loop)")
        self.call_soon(self.stop)
        self.run_forever()

    def idle(self) -> bool:
        self._drop_cancelled()
        if self._ready:
            return False
        return not (self._scheduled and self._scheduled[0]._when <= self._now)

    def _drop_cancelled(self) -> None:
        import heapq

        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count -= 1

    def settle(self, limit: int = 20_000) -> None:
        """Runs until nothing is ready, without moving time."""
        n = 0
        while not self.idle():
            self.step()
            n += 1
            if n > limit:
                raise Violation("the event loop never becomes idle (busy loop)")

    def next_timer(self) -> float | None:
        self._drop_cancelled()
        return self._scheduled[0]._when if self._scheduled else None

    def advance(self, dt: float) -> None:
        """Moves the clock by dt, running every timer due on the way at its own time."""
        target = self._now + dt
        self.settle()
        n = 0
        while True:
            when = self.next_timer()
            if when is None or when > target:
                break
            self._now = max(self._now, when)
            self.settle()
            n += 1
            if n > 500_000:
                raise Violation("timers never end")
        self._now = target
        self.settle()

    def run_to_end(self, fut: asyncio.Future, limit: float = 3600.0) -> bool:
        """Settles and moves time from timer to timer until fut is done. False if it never is."""
        end = self._now + limit
        self.settle()
        while not fut.done():
            when = self.next_timer()
            if when is None or when > end:
                return False
            self._now = max(self._now, when)
            self.settle()
        return True

    def shutdown(self) -> None:
        """Cancels everything left and closes the loop."""
        try:
            for _ in range(5):
                tasks = [t for t in asyncio.all_tasks(self) if not t.done()]
                if not tasks:
                    break
                for t in tasks:
                    t.cancel()
                for _ in range(20):
                    if self.idle():
                        break
                    self.call_soon(self.stop)
                    self.run_forever()
            self.set_exception_handler(lambda *_: None)
            self._ready.clear()
            self._scheduled.clear()
        finally:
            self.close()


class FakeTransport(asyncio.Transport):
    """In-memory stand-in for asyncio's selector socket transport, with the same error behaviour:
    an exception out of data_received closes the connection and is passed to connection_lost."""

    def __init__(self, loop: VirtualLoop, protocol) -> None:
        super().__init__()
        self.loop = loop
        self._protocol = protocol
        self.closing = False
        self.lost = False
        self.close_calls = 0
        self.written: list[tuple[float, bytes]] = []
        self.on_write: Callable[[bytes], None] | None = None
        self.data_errors: list[BaseException] = []
        self.paused = False
        self.linger = False  # closed while writing is paused: as in asyncio, the connection ends when the rest has been written
        self.looks = 0
        self.buffered: list[int] = [0]  # one per look, in turn: bytes the peer is slow to take, below the limit that pauses writing
        self.wrote_while_paused: list[bytes] = []

    # asyncio.Transport interface
    def get_extra_info(self, name, default=None):
        return default

    def is_closing(self):
        return self.closing

    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_protocol(self):
        return self._protocol

    def is_reading(self):
        return not self.closing

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        self.looks += 1
        return self.buffered[self.looks % len(self.buffered)]

    def get_write_buffer_limits(self):
        return (0, 65536)

    def write(self, data):
        data = bytes(data)
        if self.lost:
            return
        if self.paused:
            self.wrote_while_paused.append(data)
        self.written.append((self.loop.time(), data))
        if self.on_write is not None:
            self.on_write(data)

    def writelines(self, list_of_data):
        self.write(b"".join(list_of_data))

    def write_eof(self):
        pass

    def can_write_eof(self):
        return True

    def close(self):
        self.close_calls += 1
        if self.closing:
            return
        self.closing = True
        if not (self.linger and self.paused):
            self.loop.call_soon(self._lose, None)

    def abort(self):
        self.close()
        self.loop.call_soon(self._lose, None)

    # driver side
    def _lose(self, exc):
        if self.lost:
            return
        self.lost = True
        self.closing = True
        self._protocol.connection_lost(exc)

    def _feed(self, data: bytes) -> None:
        if self.closing:
            return
        try:
            self._protocol.data_received(data)
        except Exception as e:
            self.data_errors.append(e)
            self.loop.call_exception_handler(
                {"message": "Fatal error: protocol.data_received() call failed.", "exception": e,
                 "transport": self, "protocol": self._protocol}
            )
            if not self.closing:
                self.closing = True
                self.loop.call_soon(self._lose, e)

    def feed(self, data: bytes | str) -> None:
        """Schedules one network delivery."""
        if isinstance(data, str):
            data = data.encode("ascii")
        self.loop.call_soon(self._feed, data)

    def _drop(self, exc) -> None:
        if self.closing:
            return
        self.closing = True
        if exc is None:
            try:
                self._protocol.eof_received()
            except Exception as e:  # pragma: no cover
                exc = e
        self.loop.call_soon(self._lose, exc)

    def drop(self, exc: BaseException | None = None) -> None:
        """The peer closes (exc None) or the connection breaks."""
        self.loop.call_soon(self._drop, exc)

    def pause(self) -> None:
        self.loop.call_soon(self._pause)

    def _pause(self):
        if not self.paused:
            self.paused = True
            self._protocol.pause_writing()

    def resume(self) -> None:
        self.loop.call_soon(self._resume)

    def _resume(self):
        if self.paused:
            self.paused = False
            self._protocol.resume_writing()
            if self.linger and self.closing:
                self.loop.call_soon(self._lose, None)

    def sent(self) -> bytes:
        return b"".join(d for _, d in self.written)


class World:
    """One client on one virtual loop with an in-memory gateway."""

    def __init__(self) -> None:
        self.loop = VirtualLoop()
        self.transports: list[FakeTransport] = []
        self.targets: list[list] = []  # host and port of every connection attempt
        self.connect_error: BaseException | None = None
        self.on_connect: Callable[[FakeTransport], None] | None = None
        self.loop.connector = self._connect

    async def _connect(self, factory, host, port):
        self.targets.append([str(host), int(port)])
        if self.connect_error is not None:
            raise self.connect_error
        protocol = factory()
        tr = FakeTransport(self.loop, protocol)
        self.transports.append(tr)
        protocol.connection_made(tr)
        if self.on_connect is not None:
            self.on_connect(tr)
        return tr, protocol

    def task(self, coro) -> asyncio.Task:
        return self.loop.create_task(coro)

    def call(self, fn, *args) -> Any:
        """Runs a plain function inside the loop (so get_running_loop works there)."""
        out: dict[str, Any] = {}

        def run():
            try:
                out["v"] = fn(*args)
            except BaseException as e:
                out["e"] = e

        self.loop.call_soon(run)
        self.loop.settle()
        if "e" in out:
            raise out["e"]
        return out["v"]

    def close(self) -> None:
        self.loop.shutdown()


def outcome(task: asyncio.Task) -> tuple[str, Any]:
    """('ok', value) / ('err', exception) / ('pending', None) / ('cancelled', None)."""
    if not task.done():
        return "pending", None
    if task.cancelled():
        return "cancelled", None
    e = task.exception()
    if e is not None:
        return "err", e
    return "ok", task.result()
