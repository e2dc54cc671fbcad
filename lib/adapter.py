"""Adapter side of the serial line: byte level, and a scriptable command level."""
from . import mtspec as mt


class Adapter:
    """Parses what the host writes; subclasses answer frames."""

    def __init__(self, world, boot_time=0.9):
        self.world = world
        self.loop = world.loop
        self.port = None
        self.boot_time = boot_time
        self.ready_at = 0.0
        self.reader = mt.FrameReader()
        self.skip_seen = False
        self.rx = []             # (time, typ, sub, id, data) frames from the host
        self.tx = []             # (time, frame bytes) frames to the host
        self.wire_errors = []
        self.last_due = 0.0
        self.alive = True        # False: swallows everything
        self.chunker = None      # callable(bytes) -> list of read sizes
        self.pace = None         # callable() -> (bytes, seconds until the next): a slow line
        self.line, self.line_gen = bytearray(), 0
        self.pending_sends = 0
        self.gen = 0             # bumped on restart: stale sends are dropped
        self.opens = 0
        self.on_host_frame = []  # observers

    # ---- port events
    def opened(self, port):
        self.port = port
        self.opens += 1
        self.reader = mt.FrameReader()
        self.skip_seen = False
        self.gen += 1

    def closed(self, port):
        if self.port is port:
            self.port = None
            self.gen += 1

    def host_wrote(self, port, data):
        if not self.skip_seen and data:
            self.skip_seen = True
            self.ready_at = self.world.now() + self.boot_time
            if data[0] == 0xEF:
                data = data[1:]
            else:
                self.wire_errors.append("first byte written is 0x%02x, not the bootloader skip 0xEF" % data[0])
        if not data:
            return
        n = len(self.reader.errors)
        frames = self.reader.push(data)
        self.wire_errors.extend(self.reader.errors[n:])
        for f in frames:
            t = self.world.now()
            self.rx.append((t,) + f)
            for cb in self.on_host_frame:
                cb(t, *f)
            if self.alive and t >= self.ready_at - 1e-9:
                self.on_frame(*f)

    def on_frame(self, typ, sub, cid, data):
        pass

    # ---- sending
    def send_now(self, data, chunks=None):
        if self.port is not None:
            self.tx.append((self.world.now(), bytes(data)))
            if self.line_gen != self.gen:
                self.line, self.line_gen = bytearray(), self.gen
            if self.pace is not None or self.line:
                idle = not self.line
                self.line += data
                if idle:
                    self._trickle(self.gen)
                return
            self.port.feed(data, chunks if chunks is not None else
                           (self.chunker(data) if self.chunker else None))

    def _trickle(self, gen):
        if gen != self.gen:
            return
        n, gap = self.pace() if self.pace is not None else (len(self.line), 0.0)
        self.port.feed(bytes(self.line[:n]))
        del self.line[:n]
        if self.line:
            self.loop.call_later(gap, self._trickle, gen)

    def send(self, data, delay=0.0, ordered=True):
        """Queue bytes; bytes queued as ordered never overtake each other."""
        due = self.world.now() + delay
        if ordered:
            due = max(due, self.last_due + 1e-8)     # timers with equal times run in any order
            self.last_due = due
        gen = self.gen
        self.pending_sends += 1

        def fire():
            self.pending_sends -= 1
            if gen == self.gen:
                self.send_now(data)

        self.loop.call_at(1000.0 + due, fire)
        return due


class Echo(Adapter):
    """Answers through a function: script(typ, cmd, data, n) -> list of
    (delay, bytes) or None."""

    def __init__(self, world, script, **kw):
        super().__init__(world, **kw)
        self.script = script
        self.n = 0

    def on_frame(self, typ, sub, cid, data):
        n = self.n
        self.n += 1
        for delay, b in self.script(typ, mt.BY_ID.get((sub, cid)), data, n) or ():
            self.send(b, delay)
