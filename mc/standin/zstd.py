"""Stands in for the zstd package: decodes Zstandard frames of raw and repeated blocks (RFC 8878)."""


class Error(Exception):
    pass


def _frame(b, i):
    if b[i : i + 4] != b"\x28\xb5\x2f\xfd":
        raise Error("not a Zstandard frame")
    d = b[i + 4]
    i += 5
    single = d >> 5 & 1
    if not single:
        i += 1
    i += (0, 1, 2, 4)[d & 3]
    n = (single, 2, 4, 8)[d >> 6]
    size = int.from_bytes(b[i : i + n], "little") + (256 if n == 2 else 0) if n else None
    i += n
    out = []
    last = False
    while not last:
        h = int.from_bytes(b[i : i + 3], "little")
        i += 3
        last, kind, n = h & 1, h >> 1 & 3, h >> 3
        if kind == 0:
            if len(b) < i + n:
                raise Error("truncated")
            out.append(b[i : i + n])
            i += n
        elif kind == 1:
            out.append(b[i : i + 1] * n)
            i += 1
        else:
            raise Error("compressed blocks are beyond the stand-in")
    if d >> 2 & 1:
        i += 4
    r = b"".join(out)
    if size is not None and len(r) != size:
        raise Error("wrong size")
    return r, i


def decompress(data, *args):
    data = bytes(data)
    out, i = [], 0
    while i < len(data):
        r, i = _frame(data, i)
        out.append(r)
    return b"".join(out)


uncompress = decode = loads = ZSTD_uncompress = decompress
