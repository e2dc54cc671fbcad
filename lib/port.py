"""In-memory serial ports under the real serial_asyncio transport.

install() replaces serial.serial_for_url and serial.tools.list_ports.comports, the
two places where the code under test reaches hardware.  Everything above - the
SerialTransport, its buffering, partial writes and closing - is the real thing.
"""
import itertools

import serial
import serial.tools.list_ports

_fds = itertools.count(100_000)

CURRENT = None      # the World serving opens


class World:
    """All ports of one run: what may be opened, what was, what is open now."""

    def __init__(self, loop):
        global CURRENT
        CURRENT = self
        self.loop = loop
        self.devices = {}        # path -> factory(port) called on open, or None
        self.comports = []
        self.opens = []          # (time, path, kwargs, port)
        self.open_ports = []
        self.max_open = 0
        self.open_error = {}     # path -> callable(n) -> exception or None
        self.log = []            # (time, what, ...)

    def now(self):
        return self.loop.time() - 1000.0

    def attach(self, path, device):
        self.devices[path] = device

    def open(self, url, kwargs):
        n = len(self.opens)
        err = self.open_error.get(url)
        exc = err(n) if err else None
        if url not in self.devices and exc is None:
            exc = serial.SerialException(2, "could not open port %s" % url)
        port = FakeSerial(self, url, kwargs) if exc is None else None
        self.opens.append((self.now(), url, kwargs, port))
        self.log.append((self.now(), "open" if port else "open-failed", url))
        if exc is not None:
            raise exc
        self.open_ports.append(port)
        self.max_open = max(self.max_open, len(self.open_ports))
        dev = self.devices[url]
        if dev is not None:
            port.device = dev
            dev.opened(port)
        return port


class FakeSerial:
    def __init__(self, world, url, kwargs):
        self.world = world
        self.url = url
        self.kwargs = dict(kwargs)
        self.is_open = True
        self.fd = next(_fds)
        self.rx = bytearray()          # adapter -> host, waiting to be read
        self.rx_limit = []             # sizes of the next reads (chunking)
        self.tx = bytearray()          # everything the host wrote
        self.tx_log = []               # (time, bytes) per write call
        self.write_limit = None        # callable(n) -> bytes accepted now
        self.lost = None               # exception once the port is gone
        self.write_blocked = False
        self.device = None
        self.closed_at = None
        self.timeout = None
        self.write_timeout = None
        self.reads = 0
        world.loop.sel.add_fake(self.fd, self)

    # selector side
    def readable(self):
        return self.is_open and (self.lost is not None or len(self.rx) > 0)

    def writable(self):
        return self.is_open and (self.lost is not None or not self.write_blocked)

    # serial.Serial interface used by serial_asyncio
    def fileno(self):
        if not self.is_open:
            raise serial.SerialException("port is closed")
        return self.fd

    def read(self, size=1):
        if self.lost is not None:
            raise self.lost
        n = min(size, len(self.rx))
        if self.rx_limit:
            k = self.rx_limit.pop(0)
            if k is not None:
                n = min(n, max(1, k))
        data = bytes(self.rx[:n])
        del self.rx[:n]
        self.reads += 1
        return data

    def write(self, data):
        if not self.is_open:
            raise serial.SerialException("port is closed")
        if self.lost is not None:
            raise self.lost
        n = len(data)
        if self.write_limit is not None:
            n = self.write_limit(n)
            if n <= 0:
                raise BlockingIOError()
            n = min(n, len(data))
        part = bytes(data[:n])
        self.tx += part
        self.tx_log.append((self.world.now(), part))
        if self.device is not None:
            self.device.host_wrote(self, part)
        return n

    def flush(self):
        if not self.is_open:
            raise serial.SerialException("port is closed")

    @property
    def in_waiting(self):
        return len(self.rx)

    def close(self):
        if self.is_open:
            self.is_open = False
            self.closed_at = self.world.now()
            self.world.log.append((self.world.now(), "close", self.url))
            if self in self.world.open_ports:
                self.world.open_ports.remove(self)
            if self.device is not None:
                self.device.closed(self)

    # adapter side
    def feed(self, data, chunks=None):
        """Bytes from the adapter; chunks: sizes of the reads that return them."""
        if not self.is_open or self.lost is not None:
            return
        if chunks:
            if not self.rx:
                self.rx_limit = []
            self.rx_limit.extend(chunks)
        self.rx += data

    def lose(self, exc=None):
        if self.lost is None:
            self.world.log.append((self.world.now(), "lost", self.url))
            self.lost = exc or serial.SerialException(
                "device reports readiness to read but returned no data")


class Silent:
    """A device that accepts everything and never answers."""

    def opened(self, port):
        pass

    def closed(self, port):
        pass

    def host_wrote(self, port, data):
        pass


class FakePortInfo:
    def __init__(self, device, name=None, description="n/a", hwid="n/a"):
        self.device = device
        self.name = name
        self.description = description
        self.hwid = hwid

    def __iter__(self):
        return iter((self.device, self.description, self.hwid))

    def __getitem__(self, i):
        return (self.device, self.description, self.hwid)[i]

    def __str__(self):
        return "%s - %s" % (self.device, self.description)


def _serial_for_url(url, *args, **kwargs):
    names = ("baudrate", "bytesize", "parity", "stopbits", "timeout", "xonxoff", "rtscts", "write_timeout", "dsrdtr")
    return CURRENT.open(url, dict(zip(names, args), **kwargs))


def _comports(*a, **k):
    return iter(list(CURRENT.comports))


def install():
    serial.serial_for_url = _serial_for_url
    import serial.tools.list_ports as lp
    lp.comports = _comports
