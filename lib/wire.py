"""Z/IP framing, written from the protocol and independent of the library under test."""
from lib.layout import build

ZIP_PACKET = b"\x23\x02"
KEEP_ALIVE = b"\x23\x03"

ACK_REQUEST, ACK_RESPONSE, NACK_RESPONSE, NACK_WAITING, QUEUE_FULL, OPTION_ERROR = 0x80, 0x40, 0x20, 0x10, 0x08, 0x04
HEADER_EXT, CMD_INCLUDED, MORE_INFO, SECURE = 0x80, 0x40, 0x20, 0x10


def packet(seq, command=None, source=0, dest=0, flags0=0, flags1=None, options=None):
    """A Z/IP packet; options are [(critical, type, bytes)]."""
    if flags1 is None:
        flags1 = SECURE | (CMD_INCLUDED if command is not None else 0)
    extension = b""
    if options is not None:
        flags1 |= HEADER_EXT
        body = b"".join(bytes([(0x80 if critical else 0) | kind, len(data)]) + data for critical, kind, data in options)
        extension = bytes([len(body) + 1]) + body
    return ZIP_PACKET + bytes([flags0, flags1, seq, source, dest]) + extension + (command or b"")


def ack(seq, source=0, dest=0, options=None):
    return packet(seq, source=source, dest=dest, flags0=ACK_RESPONSE, options=options)


def nack(seq, flags=0):
    return packet(seq, flags0=NACK_RESPONSE | flags)


def waiting(seq, delay=None, extra=()):
    """The packet is queued for a sleeping node; delay None sends no expected delay at all."""
    options = list(extra)
    if delay is not None:
        options.append((False, 1, (delay & 0xFFFFFF).to_bytes(3, "big")))
    return packet(seq, flags0=NACK_RESPONSE | NACK_WAITING, options=options if options else None)


def keep_alive(flags):
    return KEEP_ALIVE + bytes([flags])


def advertisement(nodeId, ipv6, validity=0, local=0, homeId=0xC0FFEE):
    return build(
        "ZipND.ZipNodeAdvertisement",
        {"-0": 0, "local": local, "validity": validity, "nodeId": nodeId, "ipv6": ipv6, "homeId": homeId},
    )


class Packet:
    """What one datagram sent by the library says."""

    def __init__(self, data):
        self.data = data
        self.kind = "other"
        self.command = None
        if data[:2] == ZIP_PACKET and len(data) >= 7:
            self.kind = "zip"
            self.flags0, self.flags1, self.seq, self.source, self.dest = data[2:7]
            rest = data[7:]
            if self.flags1 & HEADER_EXT:
                length = rest[0]
                self.extension = rest[:length]
                rest = rest[length:]
            self.command = bytes(rest)
        elif data[:2] == KEEP_ALIVE:
            self.kind = "keepalive"
            self.flags0 = data[2] if len(data) > 2 else None
        elif data[:2] == b"\x58\x04":
            self.kind = "solicitation"
            self.local = bool(data[2] & 0x08) if len(data) > 2 else None
            self.node = data[3] if len(data) > 3 else None

    @property
    def is_ack(self):
        return self.kind == "zip" and bool(self.flags0 & ACK_RESPONSE)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.data.hex())
