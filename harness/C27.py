"""C27: the Python layer against NumPy, the generated datasets, and a list of misuse scenarios that run in children."""
import array, gc, logging, math, mmap, os, struct, subprocess, sys, threading, time

import numpy as np

import mlio
import vp
from mlio.integ.numpy import as_numpy, as_tensor, to_numpy, to_tensor
from mlio.integ.pandas import to_pandas
from vp import check, violate

import c27_children

RULE = "the case compared at least one non-empty value that crossed the Python layer, or ran a misuse scenario to its end"
D = mlio.DataType
NUM = {"f2": D.FLOAT16, "f4": D.FLOAT32, "f8": D.FLOAT64, "i1": D.INT8, "i2": D.INT16, "i4": D.INT32, "i8": D.INT64,
       "u1": D.UINT8, "u2": D.UINT16, "u4": D.UINT32, "u8": D.UINT64}
BAD = ["?", "c8", "c16", "S3", "U2", "M8[s]", "V4", ">i4", ">f8", "g", [("a", "i4"), ("b", "f4")]]
mlio.set_log_level(mlio.LogLevel.WARNING)
logging.getLogger("mlio").addHandler(logging.NullHandler())
logging.getLogger("mlio").propagate = False


def same(a, b):
    """Bitwise equality of two arrays, objects compared by value."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object:
        return all(type(x) is type(y) and x == y for x, y in zip(a.ravel(), b.ravel()))
    return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def show(a):
    a = np.asarray(a)
    return f"{a.dtype} {a.shape} strides {a.strides} {a.ravel()[:12].tolist()!r}"


def values(rng, dt, n):
    if dt == "O":
        pool = ["", "a", "hello world", "éß", "日本語", "😀 x", "a\0b", "x" * 300, " tab\t", "\u202e", "NaN", "0"]
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = rng.choice(pool) + (str(i) if rng.random() < 0.5 else "")
        return a
    size = np.dtype(dt).itemsize
    a = np.frombuffer(rng.randbytes(n * size), dtype=dt).copy()
    if dt[0] == "f":  # NaN payloads are compared bitwise as well, signalling ones may be quieted
        for i in range(n):
            if np.isnan(a[i]):
                a[i] = rng.choice([np.nan, -0.0, np.inf, -np.inf, 5e-324])
    return a


def layout(rng, dt):
    """A random array with a random memory layout."""
    nd = rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4])
    shape = [rng.choice([0, 1, 1, 2, 3, 4, 5]) if rng.random() < 0.25 else rng.randint(1, 5) for _ in range(nd)]
    how = rng.choice(["C", "C", "F", "F", "T", "step", "neg", "bcast", "size1", "offset"])
    if nd == 0:
        how = "C"
    n = math.prod(shape)
    if how == "C":
        a = values(rng, dt, n).reshape(shape)
    elif how == "F":
        a = np.asfortranarray(values(rng, dt, n).reshape(shape))
    elif how == "T":
        perm = list(range(nd))
        rng.shuffle(perm)
        a = values(rng, dt, n).reshape([shape[p] for p in perm]).transpose(np.argsort(perm))
    elif how == "step":
        st = [rng.randint(1, 3) for _ in shape]
        big = [max(1, s * t) for s, t in zip(shape, st)]
        a = values(rng, dt, math.prod(big)).reshape(big)[tuple(slice(0, s * t, t) for s, t in zip(shape, st))]
    elif how == "neg":
        a = values(rng, dt, n).reshape(shape)[tuple(slice(None, None, rng.choice([1, -1, -1])) for _ in shape)]
    elif how == "bcast":
        src = [1 if rng.random() < 0.5 else s for s in shape]
        a = np.broadcast_to(values(rng, dt, math.prod(src)).reshape(src), shape)
        a = a.copy() if rng.random() < 0.3 else a
    elif how == "size1":
        shape[rng.randrange(nd)] = 1
        a = values(rng, dt, math.prod(shape) * 2).reshape([2] + shape)[:1]
    else:
        a = values(rng, dt, n + 3)[3:].reshape(shape)
    return how, a


def garbage():
    gc.collect()
    return [bytearray(b"\xee" * k) for k in (8, 16, 24, 32, 48, 64, 100, 200, 400, 1000)]


class DL:
    def __init__(self, t):
        self.t = t

    def __dlpack__(self, stream=None):
        return mlio._core.as_dlpack(self.t, 60)

    def __dlpack_device__(self):
        return (1, 0)


def dense(c):
    rng = c.rng
    for _ in range(12 if c.thorough else 6):
        dt = rng.choice(list(NUM) + ["O", "O"])
        how, a = layout(rng, dt)
        c.describe(f"dense {dt} {how} {show(a)}")
        c.observe("layouts", (dt, how, a.ndim, a.size == 0))
        want = a.copy()
        t = to_tensor(a)
        check(t.data_type == (D.STRING if dt == "O" else NUM[dt]), "dense/dtype", lambda: f"{t.data_type} for {dt}")
        check(t.shape == a.shape, "dense/shape", lambda: f"{t.shape} instead of {a.shape}")
        check(len(t.strides) == a.ndim, "dense/strides", lambda: str(t.strides))
        got = to_numpy(t)
        check(same(got, want), "dense/to_tensor", lambda: f"{show(got)} instead of {show(want)}")
        check(same(np.array(t), want), "dense/np.array", "")
        # The copy is independent of its source.
        if a.flags.writeable and a.size and dt != "O":
            a[...] = np.zeros((), a.dtype)
            check(same(as_numpy(t), want), "dense/copy-shares", "a tensor made by to_tensor changed with the array")
            a[...] = want
        v = as_numpy(t)
        check(same(v, want), "dense/as_numpy", lambda: f"{show(v)} instead of {show(want)}")
        cp = to_numpy(t)
        if v.size and dt != "O":
            check(np.shares_memory(v, as_numpy(t)), "dense/as_numpy-copies", "two views of a tensor do not share memory")
            check(not np.shares_memory(v, cp), "dense/to_numpy-shares", "to_numpy returned a view")
            idx = tuple(rng.randrange(s) for s in v.shape)
            v[idx] = np.asarray(v[idx] == 0).astype(v.dtype)
            check(as_numpy(t)[idx] == v[idx], "dense/write-lost", "a write to a view is not visible in the tensor")
            check(same(cp, want), "dense/to_numpy-shares", "a copy changed with its tensor")
            v[idx] = want[idx]
        if v.size:
            c.nontrivial = True
            c.count("dense.values", v.size)
        # DLPack
        if dt != "O":
            w = np.from_dlpack(DL(t))
            check(same(w, want), "dense/dlpack", lambda: f"{show(w)} instead of {show(want)}")
            if w.size:
                check(np.shares_memory(w, as_numpy(t)), "dense/dlpack-copies", "")
        else:
            try:
                mlio._core.as_dlpack(t, 60)
                violate("dense/dlpack-string", "a string tensor was exported")
            except (mlio.NotSupportedError, ValueError):
                pass
            w = None
        d = t.data
        check(d.size == (want.size if not t.strides or want.size == 0 else d.size) and d.data_type == t.data_type, "dense/data", lambda: f"{d.size} {d.data_type}")
        # The views keep the tensor alive.
        ref = v.copy()
        del t, d
        keep = garbage()
        check(same(v, ref), "dense/view-outlives", lambda: f"{show(v)} instead of {show(ref)}")
        if w is not None:
            check(same(w, ref), "dense/dlpack-outlives", lambda: f"{show(w)} instead of {show(ref)}")
        del keep
        # as_tensor never copies: it shares the memory or refuses.
        if dt != "O":
            try:
                s = as_tensor(a)
            except (ValueError, BufferError):
                check(not ((a.flags.c_contiguous or a.flags.f_contiguous) and a.flags.writeable), "dense/as_tensor-refused", lambda: show(a))
                c.count("dense.as_tensor-refused")
            else:
                sv = as_numpy(s)
                check(s.shape == a.shape and same(sv, want), "dense/as_tensor", lambda: f"{show(sv)} instead of {show(want)}")
                if a.size and a.flags.writeable:
                    check(np.shares_memory(a, sv), "dense/as_tensor-copies", "")
                    idx = tuple(rng.randrange(k) for k in a.shape)
                    a[idx] = np.asarray(a[idx] == 0).astype(a.dtype)
                    check(same(as_numpy(s), a), "dense/as_tensor-stale", "")
                    ref = a.copy()
                    del a
                    keep = garbage()
                    check(same(as_numpy(s), ref), "dense/as_tensor-owner", "the array wrapped by a tensor is gone")
                    del keep
                c.count("dense.as_tensor")


def strided(c):
    """Explicit strides over a flat buffer."""
    rng = c.rng
    for _ in range(10):
        dt = rng.choice(list(NUM) + ["O"])
        nd = rng.randint(1, 3)
        shape = tuple(rng.randint(1, 4) for _ in range(nd))
        strides = tuple(rng.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5, 7]) for _ in range(nd))
        lo = sum((n - 1) * s for n, s in zip(shape, strides) if s < 0)
        hi = sum((n - 1) * s for n, s in zip(shape, strides) if s > 0)
        flat = values(rng, dt, hi - lo + 1)
        c.describe(f"strided {dt} {shape} {strides} {show(flat)}")
        want = np.empty(shape, flat.dtype)
        for i in np.ndindex(*shape):
            want[i] = flat[-lo + sum(k * s for k, s in zip(i, strides))]
        try:
            t = mlio.DenseTensor(shape, flat, strides=strides, copy=True if dt == "O" else rng.random() < 0.5)
        except ValueError:
            c.count("strided.refused")
            continue
        check(t.strides == strides and t.shape == shape, "strided/attributes", lambda: f"{t.strides} {t.shape}")
        got = to_numpy(t)
        check(same(got, want), "strided/values", lambda: f"{show(got)} instead of {show(want)}")
        if dt != "O":
            w = np.from_dlpack(DL(t))
            check(same(w, want), "strided/dlpack", lambda: f"{show(w)} instead of {show(want)}")
        del t
        keep = garbage()
        check(same(got, want), "strided/lifetime", "")
        c.count("strided.values", want.size)
        c.nontrivial = True
    # Arrays with gaps, read-only arrays.
    for _ in range(6):
        dt = rng.choice(list(NUM))
        n, st = rng.randint(2, 9), rng.randint(2, 3)
        a = values(rng, dt, n * st)[::st] if rng.random() < 0.5 else values(rng, dt, n * st * 2).reshape(n, st * 2)[:, :st]
        want = a.copy()
        for cp in (True, False):
            try:
                t = mlio.DenseTensor(a.shape, a, copy=cp)
            except (ValueError, BufferError):
                c.count("strided.refused")
                continue
            check(same(to_numpy(t), want), "strided/gaps", lambda: f"{show(to_numpy(t))} instead of {show(want)}")
        a = want.copy()
        a.flags.writeable = False
        try:
            t = mlio.DenseTensor(a.shape, a, copy=False)
        except (ValueError, BufferError):
            c.count("strided.read-only-refused")
        else:
            check(not as_numpy(t).flags.writeable, "strided/read-only", "a read-only array can be written to through a tensor")
    # The strides of dimensions that have one element say nothing.
    for _ in range(4):
        dt = rng.choice(list(NUM))
        n, item = rng.randint(1, 6), values(rng, dt, 1).itemsize
        base = values(rng, dt, n)
        nd, at = rng.randint(2, 3), rng.randint(0, 1)
        shape, strides = [1] * nd, [item * rng.choice([-7, -3, -1, 0, 2, 9]) for _ in range(nd)]
        shape[at], strides[at] = n, item
        a = np.lib.stride_tricks.as_strided(base, shape, strides)
        c.describe(f"unit dimensions {dt} {shape} {strides}")
        for f in (to_tensor, as_tensor, lambda x: mlio.DenseTensor(x.shape, x), lambda x: mlio.DenseTensor(x.shape, x, copy=False)):
            check(same(to_numpy(f(a)), base.reshape(shape)), "strided/unit-dimensions", lambda: f"{show(to_numpy(f(a)))} instead of {show(base)}")
    # Data that does not fit.
    try:
        t = mlio.DenseTensor((4, 5), np.zeros(19))
        violate("strided/too-small", f"a tensor of shape (4, 5) over 19 elements: {to_numpy(t)}")
    except ValueError:
        pass
    try:
        t = mlio.DenseTensor((4, 5), np.zeros(20), strides=[6, 1])
        violate("strided/too-small", f"strides (6, 1) over 20 elements: {to_numpy(t)}")
    except ValueError:
        pass


def frames(c):
    """Examples that hold tensors of any layout as DataFrames."""
    rng = c.rng
    for _ in range(4):
        n = rng.choice([0, 1, 2, 6, 12, 24])
        k = rng.randint(1, 5)
        arrays, types = [], []
        for i in range(k):
            dt = rng.choice([x for x in NUM if x != "f2"] + ["O"])
            shape = rng.choice([(n,), (n, 1), (1, n), (n // 2, 2) if n % 2 == 0 else (n,), (2, n // 2) if n % 2 == 0 else (n,), (2, 3, n // 6) if n % 6 == 0 else (n,)])
            perm = list(range(len(shape)))
            rng.shuffle(perm)
            a = values(rng, dt, n).reshape([shape[q] for q in perm]).transpose(np.argsort(perm))
            if rng.random() < 0.3:
                a = a[tuple(slice(None, None, rng.choice([1, -1])) for _ in shape)]
            arrays.append(a)
            types.append(dt)
        c.describe(f"frames {[(t, show(a)) for t, a in zip(types, arrays)]}")
        names = [f"f{i}" for i in rng.sample(range(9), k)]
        schema = mlio.Schema([mlio.Attribute(m, D.STRING if t == "O" else NUM[t], a.shape) for m, t, a in zip(names, types, arrays)])
        e = mlio.Example(schema, [to_tensor(a) for a in arrays])
        df = to_pandas(e)
        check(list(df.columns) == names and len(df) == n, "frames/shape", lambda: f"{list(df.columns)} {len(df)}")
        want = [a.flatten() for a in arrays]
        del e, arrays
        keep = garbage()
        for m, w in zip(names, want):
            got = df[m].to_numpy()
            check(got.dtype == w.dtype and same(got, w), "frames/values", lambda: f"{show(got)} instead of {show(w)}")
        del keep
        c.count("frames.values", n * k)
        c.nontrivial = c.nontrivial or n > 0


def records(c):
    """Records read in Python."""
    rng = c.rng
    parts = []
    for _ in range(rng.randint(1, 5)):
        body = bytes(rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 5, 300])))
        meta = b"\x15" + bytes(rng.randrange(1, 256) for _ in range(rng.randint(8, 60))) + b"\0"
        parts.append(b"PAR1" + body.replace(b"PAR1", b"PXR1") + meta.replace(b"PAR1", b"PXR1") + len(meta).to_bytes(4, "little") + b"PAR1")
    c.describe(f"records {parts!r}")
    how = rng.randrange(3)
    reader = mlio._core.ParquetRecordReader(make_store(c, rng, b"".join(parts)).open_read())
    got, views = [], []
    if how == 0:
        it = iter(reader)
        check(iter(it) is it, "records/iter", "")
        # The iterator keeps the reader alive, the records their data.
        del reader
        keep = garbage()
        got = list(it)
        del it
    elif how == 1:
        while True:
            if rng.random() < 0.5:
                p, q = reader.peek_record(), reader.peek_record()
                check((p is None and q is None) or bytes(p) == bytes(q), "records/peek", "two peeked records differ")
            r = reader.read_record()
            if r is None:
                break
            got.append(r)
        check(reader.read_record() is None and list(reader) == [], "records/end", "a record after the end")
        del reader
    else:
        got = [r for r in reader]
        del reader
    for r in got:
        check(r.kind == mlio._core.RecordKind.COMPLETE, "records/kind", lambda: str(r.kind))
        m = memoryview(r)
        check(m.readonly and m.contiguous and m.nbytes == len(m), "records/view", lambda: f"{m.readonly} {m.shape} {m.format}")
        check(m.tolist() == list(bytes(r)), "records/values", lambda: f"the values of the view ({m.format}) are not its bytes")
        views.append(m)
    del got
    if how == 1:
        r = p = q = None
    keep = garbage()
    check([bytes(m) for m in views] == parts, "records/bytes", lambda: f"{[bytes(m) for m in views]!r}")
    c.count("records", len(parts))
    c.nontrivial = True


def invalid_strings(c):
    """Strings that are not valid UTF-8 do not become Python strings, however often one tries."""
    rng = c.rng
    rows = [rng.choice([b"a", "\u00e9".encode(), b"x" * 50]) for _ in range(rng.randint(1, 20))]
    rows.insert(rng.randint(0, len(rows)), rng.choice([b"\xff", b"ab\xc3", b"\xe2\x82", b"\x80"]))
    c.describe(f"invalid strings {rows!r}")
    prm = mlio.DataReaderParams([mlio.InMemoryStore(b"\n".join(rows))], len(rows))
    # An explicit encoding converts the text; without one it is taken as it is.
    e = mlio.TextLineReader(prm).read_example()
    t = e[0]
    d = t.data
    for _ in range(3):
        for f in (lambda: np.array(d), lambda: to_numpy(t), lambda: as_numpy(t), lambda: memoryview(d), lambda: memoryview(t),
                  lambda: mlio.DenseTensor((len(rows),), d), lambda: mlio.DenseTensor((len(rows),), d, copy=False), lambda: np.array(t)):
            try:
                x = f()
                # NumPy treats what it cannot convert as an object.
                check(isinstance(x, np.ndarray) and x.shape == () and x.item() in (d, t), "invalid-strings/accepted", lambda: f"a string with an invalid UTF-8 sequence was converted to {x!r}")
            except (ValueError, SystemError, BufferError):
                c.count("refused strings")
            garbage()
    c.nontrivial = True


def exports(c):
    """A buffer is locked for as long as it is in use, and no longer."""
    rng = c.rng
    for _ in range(3):
        n = rng.choice([1, 8, 64, 1000])
        ba = bytearray(rng.choice(b"abc\n") for _ in range(n))
        keep = bytes(ba)
        c.describe(f"exports of {n} bytes")

        def locked():
            try:
                ba.append(1)
                del ba[-1]
                return False
            except BufferError:
                return True

        def example():
            e = mlio.TextLineReader(mlio.DataReaderParams([mlio.InMemoryStore(ba)], 3)).read_example()
            return e

        def instances():
            r = mlio.TextLineReader(mlio.DataReaderParams([mlio.InMemoryStore(ba)], 3, num_prefetched_examples=2))
            r.peek_example()
            r.reset()
            return r

        def records():
            r = mlio._core.ParquetRecordReader(mlio.InMemoryStore(ba).open_read())
            try:
                r.read_record()
            except Exception:  # noqa: BLE001
                pass
            return r

        def partial():
            st = mlio.InMemoryStore(ba).open_read()
            return st, st.read(3)

        uses = [lambda: mlio.InMemoryStore(ba), lambda: mlio.InMemoryStore(ba).open_read(), lambda: mlio.InMemoryStore(ba).open_read().read(n),
                lambda: mlio.DenseTensor((n,), np.frombuffer(ba, dtype=np.uint8), copy=False), lambda: mlio.DenseTensor((n,), np.frombuffer(ba, dtype=np.uint8)),
                lambda: mlio.InMemoryStore(keep).open_read().read(ba), example, instances, records, partial,
                lambda: [np.asarray(mlio.DenseTensor((n,), np.frombuffer(ba, dtype=np.uint8), copy=False)) for _ in range(3)]]
        shared = {0, 1, 3, 7, 9, 10}
        for i, use in enumerate(uses):
            x = use()
            check(i not in shared or locked(), "exports/unlocked", lambda: f"use {i} of a buffer does not lock it")
            del x
            gc.collect()
            # The threads of a reader may let go a moment later.
            for _ in range(200):
                if not locked():
                    break
                time.sleep(0.05)
            check(not locked(), "exports/locked", lambda: f"use {i} of a buffer keeps it locked for ever")
            check(bytes(ba) == keep, "exports/values", "")
            c.count("exports")
    c.nontrivial = True


def unsupported(c):
    rng = c.rng
    for dt in BAD:
        a = np.zeros(rng.randint(1, 4), dtype=dt)
        c.describe(f"unsupported {dt}")
        for f in (to_tensor, lambda x: mlio.DenseTensor(x.shape, x), lambda x: mlio.DenseTensor(x.shape, x, copy=False), as_tensor):
            try:
                t = f(a)
                got = to_numpy(t)
                check(same(got, a), "unsupported/values", lambda: f"{dt}: {show(got)} instead of {show(a)}")
            except (ValueError, TypeError, BufferError, mlio.NotSupportedError):
                pass
    for bad in ([1, 2], [None, None], ["a", 1.5], ["\ud800", "x"]):
        a = np.empty(len(bad), dtype=object)
        a[:] = bad
        try:
            t = mlio.DenseTensor(a.shape, a)
            violate("unsupported/objects", f"{bad!r} was accepted: {to_numpy(t)!r}")
        except (ValueError, TypeError, UnicodeError, RuntimeError):
            pass
    # Other sources of buffers.
    for code, dt in (("b", "i1"), ("B", "u1"), ("h", "i2"), ("H", "u2"), ("i", "i4"), ("I", "u4"), ("l", "i8"), ("L", "u8"), ("q", "i8"),
                     ("Q", "u8"), ("f", "f4"), ("d", "f8")):
        vals = [rng.randint(0, 100) for _ in range(rng.randint(1, 6))]
        b = array.array(code, vals)
        for copy in (True, False):
            t = mlio.DenseTensor((len(vals),), b, copy=copy)
            check(t.data_type == NUM[dt] and as_numpy(t).tolist() == vals, "buffers/array", lambda: f"{code} {vals} {t.data_type} {as_numpy(t)}")
            if not copy:
                b[0] = 7
                check(as_numpy(t)[0] == 7, "buffers/array-shares", "")
                try:
                    b.append(1)
                    violate("buffers/array-resized", "a buffer was resized while a tensor wrapped it")
                except BufferError:
                    pass
            else:
                b[0] = vals[0]
            del t
    for code, dt in (("b", "i1"), ("B", "u1"), ("h", "i2"), ("H", "u2"), ("i", "i4"), ("I", "u4"), ("l", "i8"), ("L", "u8"), ("q", "i8"), ("Q", "u8"), ("f", "f4"), ("d", "f8"), ("N", None)):
        for prefix in ("", "@"):
            vals = [rng.randint(0, 100) for _ in range(rng.randint(1, 6))]
            mv = memoryview(bytearray(struct.pack(f"{len(vals)}{code}", *vals))).cast(prefix + code)
            for copy in (True, False):
                t = mlio.DenseTensor((len(vals),), mv, copy=copy)
                check(t.data_type == (NUM[dt] if dt else D.SIZE) and as_numpy(t).tolist() == vals, "buffers/format", lambda: f"{prefix}{code} {vals} {t.data_type} {as_numpy(t)}")
    # A foreign byte order must not be taken for the native one.
    for order in ("<", ">", "!", "="):
        vals = [rng.randint(1, 100) for _ in range(3)]
        a = np.array(vals, dtype=("i4" if order == "=" else (">" if order == "!" else order) + "i4"))
        try:
            got = as_numpy(mlio.DenseTensor((3,), a)).tolist()
        except ValueError:
            got = None
        check(got in (None, vals) and (got or order in ">!"), "buffers/order", lambda: f"{order} {vals} {got}")
    o = np.array(["a", "b"], dtype=object)
    check(as_numpy(mlio.DenseTensor((2,), o)).tolist() == ["a", "b"], "buffers/strings", "")
    try:
        mlio.DenseTensor((2,), o, copy=False)
        violate("buffers/strings-shared", "strings were accepted without copying")
    except ValueError:
        pass
    # The devices.
    cpu = mlio.DeviceKind.cpu
    check(cpu == mlio.DeviceKind.cpu and hash(cpu) == hash(mlio.DeviceKind.cpu) and cpu.name in repr(cpu), "device/kind", lambda: repr(cpu))
    ids = [0, 1, rng.randint(2, 2**40), 2**64 - 1]
    for x in ids:
        for y in ids:
            d, e = mlio.Device(cpu, x), mlio.Device(mlio.DeviceKind.cpu, y)
            check((d == e) == (x == y) and (d != e) == (x != y) and (x != y or hash(d) == hash(e)), "device/equality", lambda: f"{d} {e}")
            check(d.id == x and d.kind == cpu and str(x) in repr(d).replace(",", ""), "device/fields", lambda: f"{d}")
    check(mlio.DenseTensor((1,), np.zeros(1)).data.device == mlio.Device(cpu, 0), "device/of-array", lambda: f"{mlio.DenseTensor((1,), np.zeros(1)).data.device}")
    mv = memoryview(bytearray(struct.pack("4Q", 1, 2, 3, 4))).cast("N")
    t = mlio.DenseTensor((4,), mv)
    check(t.data_type == D.SIZE and as_numpy(t).tolist() == [1, 2, 3, 4], "buffers/size", lambda: f"{t.data_type} {as_numpy(t)}")
    c.nontrivial = True


def coo(c):
    rng = c.rng
    for _ in range(10):
        dt = rng.choice(list(NUM))
        nd, n = rng.randint(1, 4), rng.randint(0, 8)
        shape = tuple(rng.randint(1, 9) for _ in range(nd))
        data = values(rng, dt, n)
        idx = [np.array([rng.randrange(s) for _ in range(n)], dtype="u8") for s in shape]
        copy = rng.random() < 0.5
        c.describe(f"coo {dt} {shape} {n} copy={copy}")
        t = mlio.CooTensor(shape, data, idx, copy=copy)
        check(t.shape == shape and t.data_type == NUM[dt], "coo/attributes", lambda: f"{t.shape} {t.data_type}")
        check(same(np.array(t.data), data), "coo/data", lambda: show(np.array(t.data)))
        for k in range(nd):
            g = np.array(t.indices(k))
            check(g.tolist() == idx[k].tolist(), "coo/indices", lambda: f"dimension {k}: {g} instead of {idx[k]}")
        for k in (nd, nd + 7):
            try:
                t.indices(k)
                violate("coo/range", f"indices({k}) of a tensor with {nd} dimensions")
            except IndexError:
                pass
        if n and not copy:
            data[0] = 1
            check(np.array(t.data)[0] == 1, "coo/shares", "")
        views = [np.array(t.data, copy=False)] + [np.array(t.indices(k), copy=False) for k in range(nd)]
        ref = [v.copy() for v in views]
        del t, data, idx
        keep = garbage()
        check(all(same(x, y) for x, y in zip(views, ref)), "coo/outlives", "a view of a COO tensor changed after the tensor was gone")
        for f in (as_numpy, to_numpy):
            try:
                f(mlio.CooTensor((2,), np.ones(1), [np.zeros(1, "i8")]))
                violate("coo/as_numpy", "a COO tensor was converted to a dense array")
            except ValueError:
                pass
        c.count("coo.values", n)
        c.nontrivial = c.nontrivial or n > 0
    for args in (((2, 2), np.ones(2), [np.zeros(2, "i8")]), ((2,), np.ones(3), [np.zeros(2, "i8")])):
        try:
            mlio.CooTensor(*args)
            violate("coo/mismatch", "inconsistent coordinates were accepted")
        except ValueError:
            pass


# Datasets

def reader_kw(rng):
    k = {}
    if rng.random() < 0.7:
        k["num_prefetched_examples"] = rng.choice([0, 1, 2, 5])
        k["num_parallel_reads"] = rng.choice([0, 1, 2, 3])
    return k


CSVT = {D.INT8: "i1", D.INT16: "i2", D.INT32: "i4", D.INT64: "i8", D.UINT8: "u1", D.UINT16: "u2", D.UINT32: "u4", D.UINT64: "u8",
        D.FLOAT32: "f4", D.FLOAT64: "f8", D.STRING: "O"}


def csv_table(rng, rows=None):
    cols = rng.randint(1, 5)
    types = [rng.choice(list(CSVT)) for _ in range(cols)]
    rows = rng.randint(1, 30) if rows is None else rows
    table = []
    for _ in range(rows):
        row = []
        for t in types:
            np_t = CSVT[t]
            if np_t == "O":
                row.append("".join(rng.choice("abc é日😀-_") for _ in range(rng.randint(1, 9))).strip() or "x")
            elif np_t[0] == "f":
                row.append(rng.choice(["0.5", "-1.25", "1e10", "3", "-0.0", "123456.75"]))
            else:
                info = np.iinfo(np_t)
                row.append(str(rng.choice([info.min, info.max, 0, 1, rng.randint(info.min, info.max)])))
        table.append(row)
    return types, table


def expected(types, rows):
    out = []
    for i, t in enumerate(types):
        np_t = CSVT[t]
        col = np.empty((len(rows), 1), dtype=object if np_t == "O" else np_t)
        for k, r in enumerate(rows):
            col[k, 0] = r[i] if np_t == "O" else np.array(float(r[i]) if np_t[0] == "f" else int(r[i]), dtype=np_t)
        out.append(col)
    return out


def plan(rng, n):
    """Reader parameters and the batches they stand for."""
    bs = rng.choice([1, 2, 3, 5, 8])
    k = dict(batch_size=bs)
    idx = list(range(n))
    if rng.random() < 0.4:
        k["num_instances_to_skip"] = s = rng.randint(0, n)
        idx = idx[s:]
    if rng.random() < 0.4:
        k["num_instances_to_read"] = r = rng.randint(0, n + 2)
        idx = idx[:r]
    if rng.random() < 0.4:
        k["num_shards"] = ns = rng.randint(2, 4)
        k["shard_index"] = si = rng.randrange(ns)
        idx = idx[si::ns]
    H = mlio.LastExampleHandling
    last = rng.choice([H.NONE, H.NONE, H.DROP, H.DROP_WARN, H.PAD, H.PAD_WARN])
    if rng.random() < 0.8:
        k["last_example_handling"] = last
    else:
        last = H.NONE
    batches = [idx[i:i + bs] for i in range(0, len(idx), bs)]
    pad = 0
    if batches and len(batches[-1]) < bs:
        if last in (H.DROP, H.DROP_WARN):
            batches.pop()
        elif last in (H.PAD, H.PAD_WARN):
            pad = bs - len(batches[-1])
    return k, batches, pad


class Stream(mlio.InputStream):
    """A stream implemented in Python."""

    def __init__(self, data, rng=None, fail_at=None, exc=None, methods=False):
        super().__init__()
        self.data_, self.pos_, self.closed_, self.rng, self.fail_at, self.exc = data, 0, False, rng, fail_at, exc

    def read(self, buf):
        if self.fail_at is not None and self.pos_ >= self.fail_at:
            raise self.exc
        b = memoryview(buf).cast("B")
        n = min(len(b), len(self.data_) - self.pos_)
        if self.rng is not None and n > 1:
            n = self.rng.randint(1, n)
        if self.fail_at is not None:
            n = min(n, max(1, self.fail_at - self.pos_)) if n else 0
        b[:n] = self.data_[self.pos_:self.pos_ + n]
        self.pos_ += n
        return n

    def seek(self, p):
        self.pos_ = min(p, len(self.data_))

    def close(self):
        self.closed_ = True

    @property
    def size(self):
        return len(self.data_)

    @property
    def position(self):
        return self.pos_

    @property
    def seekable(self):
        return True

    @property
    def closed(self):
        return self.closed_


class MethodStream(mlio.InputStream):
    """The same with methods in place of the properties."""

    def __init__(self, data, *a, **k):
        super().__init__()
        self.s = Stream(data, *a, **k)

    def read(self, buf):
        return self.s.read(buf)

    def seek(self, p):
        self.s.seek(p)

    def close(self):
        self.s.close()

    def size(self):
        return self.s.size

    def position(self):
        return self.s.position

    def seekable(self):
        return self.s.seekable

    def closed(self):
        return self.s.closed


class Store(mlio.DataStore):
    opened = 0

    def __init__(self, name, make):
        super().__init__()
        self.name, self.make = name, make

    def open_read(self):
        Store.opened += 1
        return self.make()

    @property
    def id(self):
        return self.name

    def __repr__(self):
        return f"<Store {self.name}>"


def make_store(c, rng, data, kind=None):
    kind = kind or rng.choice(["bytes", "bytearray", "memoryview", "numpy", "mmap", "file", "file-nommap", "python", "python", "methods", "tensor"])
    c.observe("stores", kind)
    if kind == "bytes":
        return mlio.InMemoryStore(bytes(data))
    if kind == "bytearray":
        return mlio.InMemoryStore(bytearray(data))
    if kind == "memoryview":
        return mlio.InMemoryStore(memoryview(b"xx" + data + b"yy")[2:-2])
    if kind == "numpy":
        return mlio.InMemoryStore(np.frombuffer(data, dtype="u1").copy())
    if kind == "tensor":
        return mlio.InMemoryStore(np.array(as_tensor(np.frombuffer(data, dtype="u1").copy()), copy=False))
    if kind.startswith("file") or kind == "mmap":
        p = os.path.join(c.scratch, f"f{rng.randrange(1 << 40)}.bin")
        with open(p, "wb") as f:
            f.write(data)
        if kind == "mmap" and data:
            with open(p, "rb") as f:
                return mlio.InMemoryStore(mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ))
        return mlio.File(p, memory_map=kind == "file", compression=mlio.Compression.NONE)
    seed = rng.randrange(1 << 30)
    cls = MethodStream if kind == "methods" else Stream
    import random
    return Store(f"s{seed}", lambda: cls(data, random.Random(seed)))


def split_lines(rng, lines, end):
    """Distributes lines over one to three stores."""
    k = rng.randint(1, 3)
    cuts = sorted(rng.randint(0, len(lines)) for _ in range(k - 1))
    parts = [lines[a:b] for a, b in zip([0] + cuts, cuts + [len(lines)])]
    return [end.join(p) + (end if p else "") for p in parts]


def compare_examples(c, what, examples, batches, pad, want_cols, names, bs):
    check(len(examples) == len(batches), what + "/count", lambda: f"{len(examples)} examples instead of {len(batches)}")
    for n, (ex, ids) in enumerate(zip(examples, batches)):
        p = pad if n == len(batches) - 1 else 0
        check(ex.padding == p, what + "/padding", lambda: f"{ex.padding} instead of {p}")
        check(len(ex) == len(want_cols), what + "/len", lambda: f"{len(ex)}")
        check([a.name for a in ex.schema.attributes] == names, what + "/names", lambda: f"{[a.name for a in ex.schema.attributes]} {names}")
        ts = list(ex)
        check(len(ts) == len(want_cols), what + "/iter", "")
        for k, w in enumerate(want_cols):
            rows = w[ids] if not p else np.concatenate([w[ids], np.full((p,) + w.shape[1:], "" if w.dtype == object else 0, dtype=w.dtype)])
            for t in (ts[k], ex[k], ex[names[k]]):
                got = as_numpy(t)
                check(same(got, rows), what + "/values", lambda: f"feature {k} of example {n}: {show(got)} instead of {show(rows)}")
            at = ex.schema.attributes[k]
            check(at.data_type == ts[k].data_type and tuple(at.shape[1:]) == tuple(ts[k].shape[1:]) and at.shape[0] in (ts[k].shape[0], bs), what + "/schema",
                  lambda: f"{at} {ts[k]}")
            c.count("reader.values", rows.size)
            check(k in ex and names[k] in ex, what + "/contains", "")
        check(len(want_cols) not in ex and "no such" not in ex, what + "/contains", "")
        for bad in (len(want_cols), "no such"):
            try:
                ex[bad]
                violate(what + "/getitem", f"{bad!r} was found")
            except (KeyError, IndexError):
                pass
    if batches:
        c.nontrivial = True


def read_all(rng, reader):
    how = rng.choice(["iter", "read", "peek", "mixed"])
    out = []
    if how == "iter":
        return list(reader)
    if how == "mixed":
        e = reader.peek_example()
        if e is not None:
            reader.read_schema()
        return list(reader)
    while True:
        p = reader.peek_example() if how == "peek" else None
        e = reader.read_example()
        if how == "peek":
            check((p is None) == (e is None), "reader/peek", "peek_example and read_example disagree")
            if e is not None:
                check(all(same(np.array(a.data), np.array(b.data)) for a, b in zip(p, e)), "reader/peek", "peek_example returned another example")
        if e is None:
            return out
        out.append(e)


def csv(c, threads=False):
    rng = c.rng
    types, table = csv_table(rng)
    names = [f"n{i}" for i in range(len(types))]
    delim = rng.choice([",", ";", "\t", "|"])
    header = rng.random() < 0.5
    parts = split_lines(rng, [delim.join(r) for r in table], "\n")
    if header:
        parts = [delim.join(names) + "\n" + p for p in parts]
    k, batches, pad = plan(rng, len(table))
    k.update(reader_kw(rng))
    p = dict(delimiter=delim, header_row_index=0 if header else None, encoding="utf-8")
    if not header:
        p["column_names"] = names
    if rng.random() < 0.5:
        p["column_types"] = dict(zip(names, types))
    else:
        p["column_types_by_index"] = dict(enumerate(types))
    prefix = ""
    if header and rng.random() < 0.4:
        p["name_prefix"] = prefix = "pre_"
    use = list(range(len(types)))
    if rng.random() < 0.3:
        use = sorted(rng.sample(use, rng.randint(1, len(use))))
        if rng.random() < 0.5:
            p["use_columns"] = {names[i] for i in use}
        else:
            p["use_columns_by_index"] = set(use)
        if prefix and ("use_columns" in p or "column_types" in p):
            p.pop("name_prefix")
            prefix = ""
    if prefix and "column_types" in p:
        p.pop("name_prefix")
        prefix = ""
    c.describe(f"csv {k} {p} {parts!r}")
    c.sig = f"csv {k} {sorted(p)} {types}"
    stores = [make_store(c, rng, x.encode()) for x in parts]
    reader = mlio.CsvReader(mlio.DataReaderParams(stores, **k), mlio.CsvParams(**p))
    del stores
    gc.collect()
    cols = expected(types, table)
    want = [cols[i] for i in use]
    wn = [prefix + names[i] for i in use]
    for epoch in range(2):
        ex = read_all(rng, reader)
        compare_examples(c, "csv", ex, batches, pad, want, wn, k["batch_size"])
        check(reader.read_example() is None and list(reader) == [], "csv/end", "an example after the end")
        for e in ex:
            if any(t.data_type == D.STRING for t in e) or True:
                df = to_pandas(e)
                check(list(df.columns) == wn, "pandas/columns", lambda: str(list(df.columns)))
                for n, t in zip(wn, e):
                    a, b = df[n].to_numpy(), as_numpy(t).ravel()
                    check(a.dtype == b.dtype and same(a, b), "pandas/values", lambda: f"{show(a)} instead of {show(b)}")
        sch = reader.read_schema()
        if ex:
            check(sch == ex[0].schema and [a.name for a in sch.attributes] == wn, "csv/schema", lambda: repr(sch))
            check(reader.num_bytes_read > 0, "csv/bytes", "num_bytes_read is zero")
        # The features outlive the reader's batches.
        if epoch == 0:
            held = [(as_numpy(t), to_numpy(t)) for e in ex for t in e]
            del ex
            reader.reset()
            gc.collect()
            check(all(same(a, b) for a, b in held), "csv/outlives", "a view changed after its example was gone")
    del reader
    check(all(same(a, b) for a, b in held), "csv/outlives", "a view changed after its reader was gone")


def text(c):
    rng = c.rng
    lines = ["".join(rng.choice("ab é日😀\t,\"") for _ in range(rng.randint(1, 12))).strip() or "x" for _ in range(rng.randint(1, 25))]
    parts = split_lines(rng, lines, rng.choice(["\n", "\r\n"]))
    k, batches, pad = plan(rng, len(lines))
    k.update(reader_kw(rng))
    c.describe(f"text {k} {parts!r}")
    reader = mlio.TextLineReader(mlio.DataReaderParams([make_store(c, rng, x.encode()) for x in parts], **k))
    want = np.empty((len(lines), 1), dtype=object)
    want[:, 0] = lines
    for _ in range(2):
        compare_examples(c, "text", read_all(rng, reader), batches, pad, [want], ["value"], k["batch_size"])
        reader.reset()


def varint(n):
    out = b""
    while True:
        b, n = n & 127, n >> 7
        if not n:
            return out + bytes([b])
        out += bytes([b | 128])


def field(num, data):
    return varint(num << 3 | 2) + varint(len(data)) + data


def pb_value(dt, vals, keys=None, shape=None):
    num, code = {"f4": (2, "f"), "f8": (3, "d"), "i4": (7, None)}[dt]
    body = b"".join(struct.pack("<" + code, v) for v in vals) if code else b"".join(varint(int(v) & (1 << 64) - 1) for v in vals)
    t = field(1, body)
    if keys is not None:
        t += field(2, b"".join(map(varint, keys)))
    if shape is not None:
        t += field(3, b"".join(map(varint, shape)))
    return field(num, t)


def record(payload):
    return struct.pack("<II", 0xCED7230A, len(payload)) + payload + b"\0" * (-len(payload) % 4)


def protobuf(c):
    rng = c.rng
    n = rng.randint(1, 20)
    feats = []
    for i in range(rng.randint(1, 4)):
        dt = rng.choice(["f4", "f8", "i4"])
        sparse = rng.random() < 0.4
        label = rng.random() < 0.3
        size = rng.randint(1, 5)
        feats.append((("label_" if label else "") + f"f{i}", f"f{i}", label, dt, sparse, size))
    recs, dense_want, sparse_want = [], {}, {}
    for name, key, label, dt, sparse, size in feats:
        dense_want[name] = np.zeros((n, size), dtype=dt)
        sparse_want[name] = {}
    for i in range(n):
        body = b""
        for name, key, label, dt, sparse, size in feats:
            width = size if not sparse else size * 10
            vals = [(rng.randint(-2 ** 31, 2 ** 31 - 1) if dt == "i4" else float(rng.randint(-1000, 1000)) / 4) for _ in range(size)]
            keys = None
            if sparse:
                keys = sorted(rng.sample(range(width), size))
                sparse_want[name][i] = list(zip(keys, vals))
            dense_want[name][i] = vals
            v = pb_value(dt, vals, keys, [width] if sparse else None)
            body += field(2 if label else 1, field(1, key.encode()) + field(2, v))
        recs.append(record(body))
    cut = rng.randint(0, n)
    k, batches, pad = plan(rng, n)
    k.update(reader_kw(rng))
    c.describe(f"protobuf {k} {feats} {b''.join(recs).hex()[:3000]}")
    stores = [make_store(c, rng, b"".join(p)) for p in (recs[:cut], recs[cut:])]
    reader = mlio.RecordIOProtobufReader(mlio.DataReaderParams(stores, **k))
    for _ in range(2):
        ex = read_all(rng, reader)
        check(len(ex) == len(batches), "protobuf/count", lambda: f"{len(ex)} instead of {len(batches)}")
        for b, (e, ids) in enumerate(zip(ex, batches)):
            p = pad if b == len(batches) - 1 else 0
            check(e.padding == p, "protobuf/padding", lambda: f"{e.padding}")
            check(sorted(a.name for a in e.schema.attributes) == sorted(f[0] for f in feats), "protobuf/names", lambda: str(e.schema))
            for name, key, label, dt, sparse, size in feats:
                t = e[name]
                at = e.schema.attributes[e.schema.get_index(name)]
                check(at.sparse == sparse and at.data_type == NUM[dt] == t.data_type, "protobuf/attribute", lambda: f"{at} {t}")
                c.count("reader.values", len(ids) * size)
                if not sparse:
                    w = np.concatenate([dense_want[name][ids], np.zeros((p, size), dtype=dt)])
                    check(same(as_numpy(t), w), "protobuf/values", lambda: f"{show(as_numpy(t))} instead of {show(w)}")
                else:
                    check(isinstance(t, mlio.CooTensor) and t.shape == (len(ids) + p, size * 10), "protobuf/coo", lambda: repr(t))
                    got = list(zip(np.array(t.indices(0)).tolist(), np.array(t.indices(1)).tolist(), np.array(t.data).tolist()))
                    w = [(r, kk, v) for r, i in enumerate(ids) for kk, v in sparse_want[name][i]]
                    check(sorted(got) == sorted(w), "protobuf/coo", lambda: f"{got} instead of {w}")
        reader.reset()
        c.nontrivial = c.nontrivial or bool(batches)


def image(c):
    rng = c.rng
    h, w, n = rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 9)
    imgs = [np.frombuffer(rng.randbytes(h * w * 3), dtype="u1").reshape(h, w, 3) for _ in range(n)]
    frame = rng.choice([mlio.ImageFrame.NONE, mlio.ImageFrame.RECORDIO])
    rgb = rng.random() < 0.5
    blobs = [b"P6\n%d %d\n255\n" % (w, h) + i.tobytes() for i in imgs]
    if frame == mlio.ImageFrame.NONE:
        stores = [make_store(c, rng, b) for b in blobs]
    else:
        stores = [make_store(c, rng, b"".join(record(struct.pack("<IfQQ", 0, 1.0, 0, 0) + b) for b in blobs))]
    k, batches, pad = plan(rng, n)
    k.update(reader_kw(rng))
    c.describe(f"image {h}x{w} n={n} {frame} rgb={rgb} {k}")
    reader = mlio.ImageReader(mlio.DataReaderParams(stores, **k),
                              mlio.ImageReaderParams(image_frame=frame, image_dimensions=[3, h, w], to_rgb=rgb))
    want = np.stack([i if rgb else i[:, :, ::-1] for i in imgs])
    for _ in range(2):
        compare_examples(c, "image", read_all(rng, reader), batches, pad, [want], ["value"], k["batch_size"])
        reader.reset()


def faults(c):
    """Exceptions of Python stores and streams reach the caller, and the reader recovers."""
    rng = c.rng
    lines = [f"{i},{i * 2}" for i in range(rng.randint(1, 40))]
    data = ("\n".join(lines) + "\n").encode()
    exc = rng.choice([KeyError("boo"), ValueError("v"), OSError(5, "io"), RuntimeError("r"), ZeroDivisionError("z"), MemoryError("m"), StopIteration("s")])
    where = rng.choice(["open", "read", "none", "type", "seek"])
    state = {"fail": True}

    class Seek(Stream):
        def seek(self, p):
            raise exc

    def make():
        if not state["fail"]:
            return Stream(data)
        if where == "open":
            raise exc
        if where == "none":
            return None
        if where == "type":
            return "not a stream"
        if where == "seek":
            return Seek(b"\xef\xbb\xbf" + data)
        return Stream(data, fail_at=rng.randint(0, len(data)), exc=exc)

    k = reader_kw(rng)
    bs = rng.choice([1, 3])
    c.describe(f"faults {where} {exc!r} {k} {data!r}")
    c.observe("faults", (where, type(exc).__name__))
    reader = mlio.CsvReader(mlio.DataReaderParams([Store("f", make)], bs, **k), mlio.CsvParams(header_row_index=None))
    got = []
    try:
        while True:
            e = reader.read_example()
            if e is None:
                break
            got.append(e)
        # A seek may not be needed.
        check(where == "seek", "faults/lost", f"the exception of {where} was lost after {len(got)} examples")
    except Exception as e:  # noqa: BLE001
        if where in ("none", "type"):
            check(isinstance(e, (TypeError, RuntimeError)), "faults/type", lambda: repr(e))
        else:
            chain, x = [], e
            while x is not None:
                chain.append(x)
                x = x.__cause__
            ok = any(type(x) is type(exc) and x.args == exc.args for x in chain)
            check(ok, "faults/type", lambda: f"{chain!r} instead of {exc!r}")
    flat = [as_numpy(e[0]).ravel().tolist() for e in got]
    check([v for b in flat for v in b] == list(range(sum(map(len, flat)))), "faults/prefix", lambda: str(flat))
    state["fail"] = False
    reader.reset()
    flat = [v for e in reader for v in as_numpy(e[1]).ravel().tolist()]
    check(flat == [2 * i for i in range(len(lines))], "faults/recovery", lambda: str(flat))
    c.nontrivial = True


def stream_api(c):
    rng = c.rng
    import gzip
    data = rng.randbytes(rng.randint(0, 3000))
    kind = rng.choice(["memory", "file", "file-nommap", "gzip", "python", "methods"])
    c.describe(f"stream {kind} {len(data)}")
    C = mlio.Compression
    if kind == "memory":
        store = make_store(c, rng, data, rng.choice(["bytes", "bytearray", "numpy"]))
    elif kind == "gzip":
        store = mlio.InMemoryStore(gzip.compress(data), C.GZIP)
    else:
        store = make_store(c, rng, data, kind)
    check(store == store and hash(store) == hash(store) and isinstance(store.id, str) and repr(store), "stream/store", "")
    s = store.open_read()
    native = kind not in ("python", "methods")
    out, pos = b"", 0
    slices = []
    for _ in range(400):
        n = rng.choice([0, 1, 2, 7, 100, 1000])
        if native and rng.random() < 0.5:
            sl = s.read(n)
            m = memoryview(sl)
            check(m.readonly and m.format == "B" and m.ndim == 1, "stream/slice", lambda: f"{m.readonly} {m.format}")
            slices.append((sl, bytes(sl)))
            got = bytes(sl)
        else:
            b = bytearray(b"\xaa" * n)
            k = s.read(b)
            check(k <= n and bytes(b[k:]) == b"\xaa" * (n - k), "stream/overrun", "")
            got = bytes(b[:k])
        check(data[len(out):len(out) + len(got)] == got, "stream/bytes", lambda: f"at {len(out)}: {got[:50]!r}")
        out += got
        if n and not got:
            break
    if n and not got:
        check(out == data, "stream/end", f"{len(out)} bytes instead of {len(data)}")
    if kind in ("memory", "file", "file-nommap"):
        check(s.seekable and s.size == len(data) and s.position == len(out), "stream/attributes", lambda: f"{s.size} {s.position}")
        for _ in range(5):
            p = rng.randint(0, len(data))
            s.seek(p)
            check(s.position == p, "stream/seek", "")
            b = bytearray(10)
            k = s.read(b)
            check(bytes(b[:k]) == data[p:p + k] and (k or p == len(data)), "stream/seek-bytes", "")
    # Read-only or non-byte targets must not be written to wrongly.
    ro = bytes(4)
    try:
        s.read(ro)
        check(ro == b"\0\0\0\0" and not native, "stream/readonly", "a bytes object was filled")
    except (BufferError, TypeError, ValueError):
        pass
    if native:
        with store.open_read() as w:
            check(not w.closed, "stream/closed", "")
            dst = np.zeros(5, dtype="u4")
            k = w.read(dst)
            check(dst.tobytes()[:k] == data[:k], "stream/wide-target", "")
        check(w.closed, "stream/with", "the context manager did not close the stream")
        for f in (lambda: w.read(bytearray(3)), lambda: w.read(3)):
            try:
                f()
                violate("stream/use-after-close", "a closed stream was read")
            except mlio.StreamError:
                pass
        w.close()
    s.close()
    del s, store
    keep = garbage()
    check(all(bytes(a) == b for a, b in slices), "stream/slice-outlives", "a memory slice changed after its stream was gone")
    c.count("stream.bytes", len(out))
    c.nontrivial = len(out) > 0


def params(c):
    rng = c.rng
    H, B, M = mlio.LastExampleHandling, mlio.BadExampleHandling, mlio.MaxFieldLengthHandling
    st = [mlio.InMemoryStore(b"a"), mlio.InMemoryStore(b"b")]
    num = lambda: rng.randint(1, 1000)  # noqa: E731
    num0 = lambda: rng.choice([0, 1, num()])  # noqa: E731

    def pick(*v):
        return lambda: rng.choice(v)

    string = lambda: rng.choice(["a", "é", "x y"]) + str(num())  # noqa: E731
    opt = lambda f: (lambda: rng.choice([None, f()]))  # noqa: E731
    boolean = pick(True, False)
    dtype = pick(*CSVT)
    spec = {
        mlio.DataReaderParams: dict(
            batch_size=num, num_prefetched_examples=num0, num_parallel_reads=num0, last_example_handling=pick(H.NONE, H.DROP, H.DROP_WARN, H.PAD, H.PAD_WARN),
            bad_example_handling=pick(B.ERROR, B.SKIP, B.SKIP_WARN, B.PAD, B.PAD_WARN), warn_bad_instances=boolean, num_instances_to_skip=num0,
            num_instances_to_read=opt(num0), shard_index=num0, num_shards=num0, sample_ratio=opt(pick(0.5, 0.25, 0.125)), shuffle_instances=boolean,
            shuffle_window=num0, shuffle_seed=opt(num0), reshuffle_each_epoch=boolean),
        mlio.CsvParams: dict(
            column_names=lambda: [string() for _ in range(rng.randint(0, 4))], name_prefix=string, use_columns=lambda: {string()},
            use_columns_by_index=lambda: {num0(), num()}, default_data_type=opt(dtype), column_types=lambda: {string(): dtype()},
            column_types_by_index=lambda: {num0(): dtype()}, header_row_index=opt(num0), has_single_header=boolean, dedupe_column_names=boolean,
            delimiter=pick(*";|\t:"), quote_char=pick(*"'`^"), comment_char=opt(pick(*"#%")), allow_quoted_new_lines=boolean,
            skip_blank_lines=boolean, encoding=opt(pick("utf-8", "UTF-16LE", "ISO-8859-1")), max_field_length=opt(num0),
            max_field_length_handling=pick(M.TREAT_AS_BAD, M.TRUNCATE, M.TRUNCATE_WARN), max_line_length=opt(num0)),
        mlio.ImageReaderParams: dict(image_frame=pick(mlio.ImageFrame.NONE, mlio.ImageFrame.RECORDIO), resize=opt(num0),
                                     image_dimensions=lambda: [3, num(), num()], to_rgb=boolean),
        mlio.ParserParams: dict(nan_values=lambda: {string(), string()}, number_base=pick(0, 2, 10, 16)),
    }
    defaults = {
        mlio.DataReaderParams: dict(num_prefetched_examples=0, num_parallel_reads=0, last_example_handling=H.NONE, bad_example_handling=B.ERROR,
                                    warn_bad_instances=False, num_instances_to_skip=0, num_instances_to_read=None, shard_index=0, num_shards=0,
                                    sample_ratio=None, shuffle_instances=False, shuffle_window=0, shuffle_seed=None, reshuffle_each_epoch=True),
        mlio.CsvParams: dict(column_names=[], name_prefix="", use_columns=set(), use_columns_by_index=set(), default_data_type=None,
                             column_types={}, column_types_by_index={}, header_row_index=0, has_single_header=False, dedupe_column_names=True,
                             delimiter=",", quote_char='"', comment_char=None, allow_quoted_new_lines=False, skip_blank_lines=True, encoding=None,
                             max_field_length=None, max_field_length_handling=M.TREAT_AS_BAD, max_line_length=None),
        mlio.ImageReaderParams: dict(resize=None, to_rgb=False),
        mlio.ParserParams: dict(nan_values=set(), number_base=10),
    }
    for cls, fields in spec.items():
        vals = {k: f() for k, f in fields.items()}
        given = {k: v for k, v in vals.items() if rng.random() < 0.7 or k == "batch_size"}
        base = dict(dataset=st) if cls is mlio.DataReaderParams else {}
        c.describe(f"params {cls.__name__} {given}")
        if cls is mlio.DataReaderParams and rng.random() < 0.3:
            given = vals
            p = cls(st, *[vals[k] for k in fields])
        else:
            p = cls(**base, **given)

        def compare(want, key):
            for k, v in want.items():
                g = getattr(p, k)
                if k == "encoding" and g is not None and v is not None:
                    g, v = str(g).lower(), str(v).lower()
                check(g == v and (v is None or type(g) is type(v)), f"params/{key}", lambda: f"{cls.__name__}.{k}: {g!r} instead of {v!r}")
                c.count("params.fields")

        compare(given, "constructor")
        compare({k: v for k, v in defaults[cls].items() if k not in given}, "default")
        state = {k: getattr(p, k) for k in fields}
        order = list(fields)
        rng.shuffle(order)
        for k in order:
            state[k] = fields[k]()
            setattr(p, k, state[k])
            compare(state, "setter")
        if base:
            check([s.id for s in p.dataset] == [s.id for s in st] and p.dataset[0] == st[0] and p.dataset[0] != st[1], "params/dataset", "")
            p.dataset = st[::-1]
            check([s.id for s in p.dataset] == [s.id for s in st[::-1]], "params/dataset", "")
        if cls is mlio.CsvParams:
            pp = mlio.ParserParams(nan_values={"zz"}, number_base=16)
            p.parser_options = pp
            check(p.parser_options.nan_values == {"zz"} and p.parser_options.number_base == 16, "params/parser", "")
            check(cls(parser_options=pp).parser_options.number_base == 16, "params/parser", "")
    c.nontrivial = True


def schema(c):
    rng = c.rng

    def attr():
        a = dict(name=rng.choice(["a", "b", "é", ""]), data_type=rng.choice(list(D.__members__.values())),
                 shape=tuple(rng.randint(0, 4) for _ in range(rng.randint(1, 3))), sparse=rng.random() < 0.3)
        if rng.random() < 0.5:
            a["strides"] = tuple(rng.randint(-3, 5) for _ in a["shape"])
        return a

    specs = [attr() for _ in range(6)]
    at = [mlio.Attribute(**s) for s in specs]
    c.describe(f"schema {specs}")
    full = []
    for s, a in zip(specs, at):
        check((a.name, a.data_type, a.shape, a.sparse) == (s["name"], s["data_type"], s["shape"], s["sparse"]), "schema/attribute", lambda: f"{a} {s}")
        if "strides" in s:
            check(a.strides == s["strides"], "schema/strides", lambda: f"{a.strides} {s}")
        else:
            w, n = [], 1
            for d in reversed(s["shape"]):
                w.insert(0, n)
                n *= d
            if 0 not in s["shape"]:
                check(a.strides == tuple(w), "schema/strides", lambda: f"{a.strides} instead of {w}")
        full.append((a.name, a.data_type, a.shape, a.strides, a.sparse))
    for i in range(6):
        for k in range(6):
            check((at[i] == at[k]) == (full[i] == full[k]), "schema/attribute-eq", lambda: f"{full[i]} {full[k]}")
            if full[i] == full[k]:
                check(hash(at[i]) == hash(at[k]), "schema/attribute-hash", "")
    uniq = {}
    for a in at:
        uniq.setdefault(a.name, a)
    lst = list(uniq.values())
    s = mlio.Schema(lst)
    check([a.name for a in s.attributes] == [a.name for a in lst] and all(x == y for x, y in zip(s.attributes, lst)), "schema/attributes", "")
    for i, a in enumerate(lst):
        check(s.get_index(a.name) == i, "schema/get_index", lambda: f"{a.name} {s.get_index(a.name)}")
    check(s.get_index("zz") is None, "schema/get_index", "")
    s2 = mlio.Schema(lst)
    check(s == s2 and hash(s) == hash(s2) and repr(s) == repr(s2), "schema/eq", "")
    if len(lst) > 1:
        check(s != mlio.Schema(lst[:-1]) and s != mlio.Schema(lst[::-1]), "schema/ne", "")
        try:
            mlio.Schema(lst + [lst[0]])
            violate("schema/duplicate", "a duplicate attribute was accepted")
        except ValueError:
            pass
    view = s.attributes
    del s
    garbage()
    check([a.name for a in view] == [a.name for a in lst], "schema/outlives", "")
    view.clear()
    check(s2.get_index(lst[0].name) == 0 and len(s2.attributes) == len(lst), "schema/mutable", "")
    # Examples
    n = len(lst)
    feats = [to_tensor(np.arange(i + 1.0)) for i in range(n)]
    e = mlio.Example(s2, feats)
    e.padding = 3
    check(len(e) == n and e.padding == 3 and e.schema == s2, "example/attributes", "")
    it = iter(e)
    del feats, e, s2
    keep = garbage()
    check([as_numpy(t).tolist() for t in it] == [list(map(float, range(i + 1))) for i in range(n)], "example/outlives", "")
    c.nontrivial = True


def files(c):
    rng = c.rng
    root = os.path.join(c.scratch, f"d{c.index}")
    names = []
    for i in range(rng.randint(0, 12)):
        d = os.path.join(root, *rng.choice([[], ["x"], ["x", "y"], ["é"]]))
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, rng.choice(["a", "b", "c"]) + str(i) + rng.choice([".csv", ".txt", ".csv.gz"]))
        open(p, "wb").write(b"1,2\n")
        names.append(p)
    os.makedirs(root, exist_ok=True)
    seen = []
    pattern = rng.choice(["", "*.csv", "*/a*", "*.txt"])
    keep = rng.choice([None, lambda p: "a" in os.path.basename(p), lambda p: True, lambda p: False])

    def pred(p):
        seen.append(p)
        return keep(p)

    import fnmatch
    want = [p for p in names if not pattern or fnmatch.fnmatchcase(p, pattern)]
    c.describe(f"files {names} {pattern!r} {keep is not None}")
    got = [s.id for s in mlio.list_files([root], pattern=pattern, predicate=pred if keep else None)]
    if keep:
        check(sorted(seen) == sorted(want) or sorted(seen) == sorted(names), "files/predicate", lambda: f"{seen} instead of {want}")
        want = [p for p in want if keep(p)]
    check(sorted(got) == sorted(want), "files/list", lambda: f"{got} instead of {want}")
    check(sorted(s.id for s in mlio.list_files(root, pattern)) == sorted(p for p in names if not pattern or fnmatch.fnmatchcase(p, pattern)), "files/single", "")
    if want:
        c.nontrivial = True

        class Boo(Exception):
            pass

        def fail(p):
            raise Boo(p)
        try:
            mlio.list_files([root], pattern=pattern, predicate=fail)
            violate("files/predicate-exception", "the exception of a predicate was lost")
        except Boo:
            pass
    try:
        mlio.list_files([os.path.join(root, "missing")])
        violate("files/missing", "a missing path was listed")
    except OSError as e:
        check(e.errno == 2, "files/missing", lambda: repr(e))


def chain(e):
    out = []
    while e is not None:
        out.append(type(e))
        e = e.__cause__
    return out


def errors(c):
    import gzip
    c.describe("errors")
    for a, b in ((mlio.MLIOError, RuntimeError), (mlio.StreamError, mlio.MLIOError), (mlio.InflateError, mlio.StreamError),
                 (mlio.RecordError, mlio.MLIOError), (mlio.CorruptRecordError, mlio.RecordError), (mlio.CorruptHeaderError, mlio.CorruptRecordError),
                 (mlio.CorruptFooterError, mlio.CorruptRecordError), (mlio.RecordTooLargeError, mlio.RecordError),
                 (mlio.DataReaderError, mlio.MLIOError), (mlio.SchemaError, mlio.DataReaderError), (mlio.InvalidInstanceError, mlio.DataReaderError),
                 (mlio.NotSupportedError, mlio.MLIOError)):
        check(issubclass(a, b), "errors/hierarchy", f"{a} {b}")
    mem = mlio.InMemoryStore

    def rd(cls, stores, *a, **k):
        return list(cls(mlio.DataReaderParams(stores, 2, **k), *a))

    def closed():
        s = mem(b"abc").open_read()
        s.close()
        s.read(1)

    nohdr = mlio.CsvParams(header_row_index=None)
    missing = os.path.join(c.scratch, "missing.csv")
    pb = record(field(1, field(1, b"f") + field(2, pb_value("f4", [1.0]))))
    pb2 = record(field(1, field(1, b"g") + field(2, pb_value("f4", [1.0]))))
    gz = gzip.compress(b"1,2\n" * 1000)
    long_utf8 = ("é" * 300 + "\n").encode()
    cases = [
        ("missing file", lambda: mlio.File(missing).open_read(), [OSError]),
        ("missing file in a reader", lambda: rd(mlio.CsvReader, [mlio.File(missing)], nohdr), [mlio.DataReaderError]),
        ("broken gzip", lambda: rd(mlio.TextLineReader, [mem(gz[:20] + bytes(20), mlio.Compression.GZIP)]), [mlio.DataReaderError, mlio.InflateError]),
        ("stream of a broken gzip", lambda: mem(b"nonsense", mlio.Compression.GZIP).open_read().read(bytearray(10)), [mlio.InflateError]),
        ("bzip2", lambda: mem(b"", mlio.Compression.BZIP2).open_read(), [mlio.NotSupportedError]),
        ("columns", lambda: rd(mlio.CsvReader, [mem(b"1,2\n3\n")], nohdr), [mlio.InvalidInstanceError]),
        ("number", lambda: rd(mlio.CsvReader, [mem(b"x\n")], mlio.CsvParams(header_row_index=None, default_data_type=D.INT32)), [mlio.InvalidInstanceError]),
        ("cut UTF-8 in a message", lambda: rd(mlio.CsvReader, [mem(long_utf8)], mlio.CsvParams(header_row_index=None, default_data_type=D.INT32)), [mlio.InvalidInstanceError]),
        ("cut UTF-8 in a field", lambda: rd(mlio.CsvReader, [mem(long_utf8)], mlio.CsvParams(header_row_index=None, max_field_length=21)), [mlio.InvalidInstanceError]),
        ("invalid bytes in a message", lambda: rd(mlio.CsvReader, [mem(b"\xff\xfe\xc3\n")], mlio.CsvParams(header_row_index=None, default_data_type=D.INT32)), [mlio.InvalidInstanceError]),
        ("duplicate names", lambda: rd(mlio.CsvReader, [mem(b"1,2\n")], mlio.CsvParams(header_row_index=None, column_names=["a", "a"], dedupe_column_names=False)), [mlio.SchemaError]),
        ("header of a record", lambda: rd(mlio.RecordIOProtobufReader, [mem(b"\1" * 100)]), [mlio.DataReaderError, mlio.CorruptHeaderError]),
        ("truncated record", lambda: rd(mlio.RecordIOProtobufReader, [mem(pb[:-5])]), [mlio.DataReaderError, mlio.CorruptRecordError]),
        ("long line", lambda: rd(mlio.CsvReader, [mem(b"1" * 500 + b"\n")], mlio.CsvParams(header_row_index=None, max_line_length=20)), [mlio.DataReaderError, mlio.RecordTooLargeError]),
        ("Parquet footer", lambda: mlio._core.ParquetRecordReader(mem(b"PAR1xxxxPAR1").open_read()).read_record(), [mlio.CorruptFooterError]),
        ("Parquet header", lambda: mlio._core.ParquetRecordReader(mem(b"xxxxxxxxPAR1").open_read()).read_record(), [mlio.CorruptHeaderError]),
        ("closed stream", closed, [mlio.StreamError]),
        ("invalid text", lambda: rd(mlio.CsvReader, [mem(b"1\0\0\xd82\0\n\0")], mlio.CsvParams(header_row_index=None, encoding="utf-16le")), [mlio.DataReaderError, mlio.StreamError]),
        ("quoted field", lambda: rd(mlio.CsvReader, [mem(b'1,"2\n3\n')], mlio.CsvParams(header_row_index=None, allow_quoted_new_lines=True)), [mlio.DataReaderError, mlio.CorruptRecordError]),
        ("strings to DLPack", lambda: mlio._core.as_dlpack(rd(mlio.TextLineReader, [mem(b"a\n")])[0][0], 60), [mlio.NotSupportedError]),
        ("inferred compression", lambda: mem(b"", mlio.Compression.INFER), [mlio.NotSupportedError]),
        ("batch size", lambda: rd(mlio.CsvReader, [mem(b"1\n")], nohdr) and mlio.CsvReader(mlio.DataReaderParams([mem(b"1\n")], 0), nohdr), [ValueError]),
        ("shard", lambda: rd(mlio.CsvReader, [mem(b"1\n")], nohdr, num_shards=2, shard_index=2), [ValueError]),
        ("ratio", lambda: rd(mlio.CsvReader, [mem(b"1\n")], nohdr, sample_ratio=math.nan), [ValueError]),
        ("image", lambda: rd(mlio.ImageReader, [mem(b"nonsense")], mlio.ImageReaderParams(image_dimensions=[3, 2, 2])), [mlio.InvalidInstanceError]),
        ("new feature", lambda: rd(mlio.RecordIOProtobufReader, [mem(pb + pb2)]), [mlio.InvalidInstanceError]),
        ("seek of a compressed stream", lambda: mem(gz, mlio.Compression.GZIP).open_read().seek(3), [mlio.NotSupportedError]),
        ("store None", lambda: mlio.DataReaderParams([None], 1), [TypeError]),
        ("feature None", lambda: mlio.Example(mlio.Schema([mlio.Attribute("a", D.INT8, (1,))]), [None]), [TypeError]),
        ("number of features", lambda: mlio.Example(mlio.Schema([mlio.Attribute("a", D.INT8, (1,))]), []), [ValueError]),
        ("pipe", lambda: mlio.SageMakerPipe(os.path.join(c.scratch, "nopipe")).open_read(), [OSError]),
        ("pipe compression", lambda: mlio.SageMakerPipe("x", compression=mlio.Compression.INFER), [mlio.NotSupportedError]),
    ]
    for k in ({}, dict(num_prefetched_examples=3, num_parallel_reads=2)):
        for name, f, want in cases:
            c.describe(f"errors {name} {k}")
            try:
                f()
            except Exception as e:  # noqa: BLE001
                got = chain(e)
                ok = len(got) >= len(want) and got[0] is want[0] or issubclass(got[0], want[0]) and want[0] in (OSError, mlio.CorruptRecordError)
                check(ok and all(issubclass(g, w) for g, w in zip(got, want)) and len(got) >= len(want), "errors/type",
                      lambda: f"{name}: {got} instead of {want}: {e}")
                check(str(e).strip() != "", "errors/message", name)
                if OSError in want:
                    x = e
                    check(x.errno == 2, "errors/errno", lambda: f"{name}: {x!r}")
                c.count("errors")
            else:
                violate("errors/lost", f"{name} raised nothing")
    c.nontrivial = True


def logs(c):
    """Log messages reach the handler or the Python logger, once and with their level."""
    rng = c.rng
    bad = rng.randint(1, 30)
    rows = ["1,2"] + ["x" if i < bad else "3,4" for i in range(bad + rng.randint(0, 10))]
    rng.shuffle(rows)
    rows.insert(0, "1,2")
    cell = rng.choice(["é" * 300, "y"])
    data = ("\n".join(r if r != "x" else cell for r in rows) + "\n").encode()
    mode = rng.choice(["handler", "logger", "raising", "level", "cleared"])
    k = reader_kw(rng)
    c.describe(f"logs {mode} bad={bad} {k}")
    got = []

    class H(logging.Handler):
        def emit(self, r):
            got.append((r.levelno, r.getMessage(), threading.get_ident()))

    def handler(lvl, msg):
        got.append((lvl, msg, threading.get_ident()))
        if mode == "raising":
            raise ValueError("x")

    log, h = logging.getLogger("mlio"), H()
    if mode in ("handler", "raising"):
        mlio._core.set_log_message_handler(handler)
    elif mode == "cleared":
        log.addHandler(h)
        mlio._core.clear_log_message_handler()
    else:
        log.addHandler(h)
        if mode == "level":
            mlio.set_log_level(mlio.LogLevel.OFF)
    try:
        reader = mlio.CsvReader(mlio.DataReaderParams([mlio.InMemoryStore(data)], 1, bad_example_handling=mlio.BadExampleHandling.SKIP_WARN, **k),
                                mlio.CsvParams(header_row_index=None))
        n = len(list(reader))
        del reader
    finally:
        log.removeHandler(h)
        mlio.set_log_level(mlio.LogLevel.WARNING)
        mlio._core.set_log_message_handler(mlio._log_message)
    check(n == len(rows) - bad, "logs/examples", lambda: f"{n} examples")
    want = 0 if mode in ("level", "cleared") else bad
    check(len(got) == want, "logs/count", lambda: f"{len(got)} messages instead of {want}")
    for lvl, msg, _ in got:
        check(isinstance(msg, str) and msg and lvl == (logging.WARNING if mode == "logger" else mlio.LogLevel.WARNING), "logs/level", lambda: f"{lvl} {msg}")
    c.count("logs.messages", len(got))
    c.observe("logs.threads", (mode, len({t for _, _, t in got}) > 1))
    c.nontrivial = True


def threads(c):
    """Several Python threads, each with a reader of its own over shared Python stores."""
    rng = c.rng
    import random
    n = rng.randint(20, 120)
    data = "".join(f"{i},{i * i}\n" for i in range(n)).encode()
    seed = rng.randrange(1 << 30)
    shared = [make_store(c, rng, data), Store("shared", lambda: Stream(data, random.Random(seed)))]
    c.describe(f"threads n={n}")
    errs, done = [], []

    def work(seed):
        r = random.Random(seed)
        try:
            k = reader_kw(r)
            for _ in range(3):
                rd = mlio.CsvReader(mlio.DataReaderParams(shared, r.choice([1, 4, 7]), **k), mlio.CsvParams(header_row_index=None))
                if r.random() < 0.3:
                    rd.read_example()
                    continue
                for _ in range(2):
                    v = [x for e in rd for x in as_numpy(e[1]).ravel().tolist()]
                    if v != [i * i for i in range(n)] * 2:
                        errs.append(f"{v[:20]}… of {len(v)}")
                    rd.reset()
            done.append(1)
        except BaseException as e:  # noqa: BLE001
            errs.append(repr(e))

    ts = [threading.Thread(target=work, args=(rng.random(),)) for _ in range(5)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    check(not any(t.is_alive() for t in ts), "threads/hang", "a thread did not finish")
    check(not errs and len(done) == 5, "threads/values", lambda: "; ".join(errs)[:800])
    c.count("threads.readers", 15)
    c.nontrivial = True


def child(c, name):
    c.describe(f"scenario {name}")
    env = dict(os.environ)
    env["LD_PRELOAD"] = env.get("VERIF_PRELOAD", "")
    exe = "/usr/bin/python3"
    if name.startswith("scipy"):
        exe = "/opt/veriftools/pyvenv/bin/python3"
        if not os.path.exists(exe):
            c.count("scenarios.skipped")
            return
    work = os.path.join(c.scratch, f"child{c.index}")
    os.makedirs(work, exist_ok=True)
    env["VERIF_CHILD"] = work
    code = c27_children.PREAMBLE + c27_children.SCENARIOS[name]
    try:
        r = subprocess.run([exe, "-c", code, str(c.seed)], env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=80, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired as e:
        violate(f"scenario/{name}/hang", (e.stdout or b"").decode("utf-8", "replace")[-1500:] if isinstance(e.stdout, bytes) else str(e.stdout)[-1500:])
    check(r.returncode == 0, f"scenario/{name}/died", lambda: f"exit code {r.returncode}\n{r.stdout[-3000:]}")
    check("Sanitizer" not in r.stdout, f"scenario/{name}/sanitizer", lambda: r.stdout[-3000:])
    check("SCENARIO-OK" in r.stdout, f"scenario/{name}/incomplete", lambda: r.stdout[-3000:])
    c.count("scenarios")
    c.nontrivial = True


TABLE = [(dense, 90), (strided, 24), (frames, 16), (records, 16), (invalid_strings, 4), (exports, 6), (unsupported, 3), (coo, 20), (csv, 70), (text, 20), (protobuf, 30), (image, 24), (faults, 40), (stream_api, 40),
         (params, 12), (schema, 12), (files, 12), (errors, 2), (logs, 24), (threads, 8)]
NAMES = list(c27_children.SCENARIOS)
FACTOR = 12


def num_cases(thorough):
    n = sum(k for _, k in TABLE) * (FACTOR if thorough else 1)
    return n + len(NAMES) * (3 if thorough else 1)


def run_case(c):
    kids = len(NAMES) * (3 if c.thorough else 1)
    i = c.index
    if i < kids:
        return child(c, NAMES[i % len(NAMES)])
    i -= kids
    i %= sum(k for _, k in TABLE)
    for f, k in TABLE:
        if i < k:
            c.observe("kinds", f.__name__)
            return f(c)
        i -= k


if __name__ == "__main__":
    vp.main("C27", RULE, num_cases, run_case)
