"""The binary format of modules, read and written from its description."""
import struct


def decode(data):
    """The document in a byte string; checks every length on the way"""
    doc, end = _doc(data, 0, False)
    if end != len(data):
        raise ValueError("trailing bytes after the document")
    return doc


def _key(b, at):
    z = b.index(0, at)
    return b[at:z].decode("utf8"), z + 1


def _doc(b, at, array):
    size = struct.unpack_from("<i", b, at)[0]
    start, at = at, at + 4
    out = [] if array else {}
    while b[at] != 0:
        t = b[at]
        k, at = _key(b, at + 1)
        v, at = _value(b, at, t)
        if array:
            out.append(v)
        else:
            if k in out:
                raise ValueError("key %r twice" % k)
            out[k] = v
    at += 1
    # lenient: some writers count the elements only, some the whole document
    if size not in (at - start, at - start - 4, at - start - 5):
        raise ValueError("document of %d bytes says %d" % (at - start, size))
    return out, at


def _value(b, at, t):
    if t == 1:
        return struct.unpack_from("<d", b, at)[0], at + 8
    if t == 2:
        n = struct.unpack_from("<i", b, at)[0]
        s = b[at + 4:at + 4 + n]
        if b[at + 4 + n] != 0:
            raise ValueError("text not ended by zero")
        return s.decode("utf8"), at + 5 + n
    if t == 3:
        return _doc(b, at, False)
    if t == 4:
        return _doc(b, at, True)
    if t == 5:
        n = struct.unpack_from("<i", b, at)[0]
        return bytes(b[at + 5:at + 5 + n]), at + 5 + n
    if t == 0x12:
        return struct.unpack_from("<q", b, at)[0], at + 8
    raise ValueError("type %d" % t)


def encode(doc):
    body = b"".join(_elem(str(k).encode("utf8"), v) for k, v in (doc.items() if isinstance(doc, dict) else enumerate(doc)))
    return struct.pack("<i", len(body)) + body + b"\0"


def _elem(k, v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        t, d = 1, struct.pack("<d", v)
    elif isinstance(v, str):
        s = v.encode("utf8")
        t, d = 2, struct.pack("<i", len(s)) + s + b"\0"
    elif isinstance(v, dict):
        t, d = 3, encode(v)
    elif isinstance(v, (list, tuple)):
        t, d = 4, encode(v)
    elif isinstance(v, (bytes, bytearray)):
        t, d = 5, struct.pack("<i", len(v)) + b"\x80" + bytes(v)
    elif isinstance(v, int):
        t, d = 0x12, struct.pack("<q", v)
    else:
        raise TypeError(repr(v))
    return bytes([t]) + k + b"\0" + d
