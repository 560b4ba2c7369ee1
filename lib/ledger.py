import struct


def cells(path):
    """(surely written, maybe written) from a probe's wlog ledger."""
    try:
        with open(path, "rb") as f:
            b = f.read(16)
        return struct.unpack("<QQ", b) if len(b) == 16 else (0, 0)
    except OSError:
        return 0, 0
