"""Executes calls of the Python module for props/py.rs.

stdin:  batches: u32 count, then count requests
        request: u8 len, function name; u8 mode; u8 count, ints as (u8 len, decimal text);
                 u32 len, data
stdout: per request u8 status, u8 flags, u32 len, payload; flushed per batch
status: 0 bytes returned, 1 Exception, 2 other BaseException, 3 something else returned
flags:  1 the input was modified, 2 an earlier result changed
"""
import resource
import struct
import sys
import zlib

resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
sys.path.insert(0, sys.argv[1])
import texture2ddecoder_rs as module  # noqa: E402

NAMES = ["data", "width", "height", "block_width", "block_height"]
inp, out = sys.stdin.buffer, sys.stdout.buffer


def exact(n):
    b = inp.read(n)
    if len(b) != n:
        sys.exit(0)
    return b


def convert(mode, data, ints):
    """mode 0: as declared; 1: keywords; 2: other kinds of arguments"""
    if mode == 0:
        return [data, *ints], {}
    if mode == 1:
        return [], dict(zip(NAMES, [data, *ints]))
    kinds = [bytearray(data), memoryview(data), None, data.decode("latin1"), list(data), 3.5, (), object()]
    if mode < 2 + 8:
        return [kinds[mode - 2], *ints], {}
    if mode < 10 + 8:  # first number of another kind
        other = [None, 4.0, "4", b"4", [4], 4j, float("nan"), object()][mode - 10]
        return [data, other, *ints[1:]], {}
    if mode < 18 + 8:  # last number of another kind
        other = [None, 4.0, "4", b"4", [4], 4j, float("inf"), object()][mode - 18]
        return [data, *ints[:-1], other], {}
    if mode == 26:
        return [data, *ints[:-1]], {}
    if mode == 27:
        return [data, *ints, 4], {}
    if mode == 28:
        return [], {}
    if mode == 29:
        return [data, *ints], {"extra": 1}
    if mode == 30:
        return [data, *ints], {"width": 4}
    raise SystemExit("mode")


kept = []


def one():
    name = exact(exact(1)[0]).decode()
    mode = exact(1)[0]
    ints = [int(exact(exact(1)[0])) for _ in range(exact(1)[0])]
    data = exact(struct.unpack("<I", exact(4))[0])
    if name == "?":
        names = sorted(n for n in dir(module) if callable(getattr(module, n)) and not n.startswith("_"))
        return 0, 0, "\n".join(names).encode()
    copy = bytes(bytearray(data))
    try:
        args, kw = convert(mode, data, ints)
        r = getattr(module, name)(*args, **kw)
    except Exception as e:
        status, payload = 1, f"{type(e).__name__}: {e}".encode("utf8", "replace")
    except BaseException as e:  # PanicException
        status, payload = 2, f"{type(e).__name__}: {e}".encode("utf8", "replace")
    else:
        if type(r) is bytes:
            status, payload = 0, r
        else:
            status, payload = 3, repr(type(r)).encode()
    flags = 0
    if data != copy:
        flags |= 1
    # earlier results and inputs stay what they were
    kept.append((payload, zlib.crc32(payload)))
    kept.append((data, zlib.crc32(copy)))
    if len(kept) > 64:
        for b, c in kept[:32]:
            if zlib.crc32(b) != c:
                flags |= 2
        del kept[:32]
    return status, flags, payload


while True:
    count = struct.unpack("<I", exact(4))[0]
    answers = []
    for _ in range(count):
        s, f, p = one()
        answers.append(struct.pack("<BBI", s, f, len(p)) + p)
    out.write(b"".join(answers))
    out.flush()
