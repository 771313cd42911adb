"""Scenarios that run in a child process each, since the failure to look for is a crash, a hang, or a failing exit."""

PREAMBLE = '''
import gc, os, random, sys, threading, time
import numpy as np
try: import pkg_resources
except ImportError:
    import types; pkg_resources = types.ModuleType("pkg_resources"); sys.modules["pkg_resources"] = pkg_resources
    pkg_resources.get_distribution = lambda n: types.SimpleNamespace(version="0", parsed_version="0"); pkg_resources.DistributionNotFound = Exception
import mlio
import logging
from mlio.integ.numpy import as_numpy
logging.getLogger("mlio").addHandler(logging.NullHandler())
logging.getLogger("mlio").propagate = False
WORK = os.environ["VERIF_CHILD"]
def rd(data=b"1,2\\n3,4\\n5,6\\n", bs=1, csv=None, **k):
    st = data if isinstance(data, list) else [mlio.InMemoryStore(data)]
    return mlio.CsvReader(mlio.DataReaderParams(st, bs, **k), csv or mlio.CsvParams(header_row_index=None))
def ok(): print("SCENARIO-OK", flush=True)
def flat(r): return [x for e in r for x in as_numpy(e[0]).ravel().tolist()]
def raises(f, *types):
    try: r = f()
    except types as e: return e
    raise AssertionError(f"{f} returned {r!r}")
class St(mlio.InputStream):
    def __init__(self, data, hook=None): super().__init__(); self.d = data; self.p = 0; self.c = False; self.hook = hook
    def read(self, buf):
        if self.hook: self.hook(self)
        b = memoryview(buf).cast("B"); n = min(len(b), len(self.d) - self.p); b[:n] = self.d[self.p:self.p + n]; self.p += n; return n
    def seek(self, p): self.p = p
    def close(self): self.c = True
    @property
    def size(self): return len(self.d)
    @property
    def position(self): return self.p
    @property
    def seekable(self): return True
    @property
    def closed(self): return self.c
class S(mlio.DataStore):
    def __init__(self, data, id="x", cls=St, **k): super().__init__(); self.d = data; self.i = id; self.k = k; self.cls = cls
    def open_read(self): return self.cls(self.d, **self.k)
    @property
    def id(self): return self.i
    def __repr__(self): return "S"
def pipe(chunks, delay=0.25):
    """A named pipe fed by a Python thread, which needs the GIL to make progress."""
    p = os.path.join(WORK, "pipe%d" % random.randrange(1 << 40)); os.mkfifo(p + "_0")
    def feed():
        with open(p + "_0", "wb", buffering=0) as f:
            for c in chunks: time.sleep(delay); f.write(c)
    threading.Thread(target=feed, daemon=True).start()
    import datetime
    return mlio.SageMakerPipe(p, timeout=datetime.timedelta(seconds=30))
NOISY = b"1,2\\n" + b"x,y,z\\n3,4\\n" * 3000
WARN = dict(bad_example_handling=mlio.BadExampleHandling.SKIP_WARN)
'''

SCENARIOS = {
    # lifetimes
    "iterator-outlives-example": '''
it = iter(rd().read_example()); gc.collect(); junk = [np.ones(3) for _ in range(50)]
assert [as_numpy(t).tolist() for t in it] == [[[1]], [[2]]]
it = iter(rd(b"1\\n2\\n3\\n")); gc.collect()
assert [int(as_numpy(e[0])[0, 0]) for e in it] == [1, 2, 3]
del it; gc.collect(); ok()
''',
    "feature-outlives-everything": '''
t = rd(b"5,6\\n7,8\\n", 2).read_example()[1]; s = rd(b"5,6\\n").read_schema().attributes[1]; gc.collect(); junk = [bytearray(16) for _ in range(100)]
assert as_numpy(t).tolist() == [[6], [8]] and s.shape == (1, 1) and s.name
d = t.data; del t; gc.collect(); assert np.array(d).tolist() == [6, 8]
v = np.array(d, copy=False); del d; gc.collect(); assert v.tolist() == [6, 8]; ok()
''',
    "store-and-params-die-first": '''
def mk(): return rd([S(b"1,2\\n3,4\\n", id=str(i)) for i in range(20)], num_prefetched_examples=3, num_parallel_reads=3)
r = mk(); gc.collect(); junk = [bytearray(64) for _ in range(100)]
assert flat(r) == [1, 3] * 20; r.reset(); assert flat(r) == [1, 3] * 20
p = mlio.DataReaderParams([S(b"1\\n")], 1); p.dataset = [S(b"2\\n"), S(b"3\\n")]; gc.collect()
r = mlio.CsvReader(p, mlio.CsvParams(header_row_index=None)); del p; gc.collect(); assert flat(r) == [2, 3]
l = [S(b"4\\n")]; r = rd(l); l.clear(); gc.collect(); assert flat(r) == [4]; ok()
''',
    "slices-are-read-only": '''
b = b"hello world"; p = os.path.join(WORK, "f"); open(p, "wb").write(b)
for st in (mlio.InMemoryStore(b), mlio.File(p, memory_map=True), mlio.File(p, memory_map=False)):
    s = st.open_read().read(5); m = memoryview(s); assert m.readonly and bytes(m) == b"hello"
    try: m[0] = 65; raise SystemExit("written")
    except TypeError: pass
assert b == b"hello world" and open(p, "rb").read() == b; ok()
''',
    "string-views": '''
t = mlio.DenseTensor([2], np.array(["x", "y"], dtype=object)); a = as_numpy(t); a[0] = "zz" * 50
assert as_numpy(t)[1] == "y"; del t; gc.collect(); assert a[0] == "zz" * 50 and a[1] == "y"
for _ in range(200):
    t = mlio.DenseTensor((3,), np.array(["é" * 40, "", "b"], dtype=object)); a = as_numpy(t).copy(); b = as_numpy(t); del t
    assert a.tolist() == b.tolist() == ["é" * 40, "", "b"]
del a, b; gc.collect(); ok()
''',
    "reference-counts": '''
x = "string %d" % os.getpid(); a = np.array([x] * 10, dtype=object); n = sys.getrefcount(x)
for _ in range(50):
    t = mlio.DenseTensor((10,), a); v = as_numpy(t); w = np.array(t); del t, v, w
gc.collect(); assert sys.getrefcount(x) == n, (sys.getrefcount(x), n)
f = np.arange(1000.); n = sys.getrefcount(f)
for _ in range(50):
    t = mlio.DenseTensor((1000,), f, copy=False); v = as_numpy(t); w = mlio._core.as_dlpack(t, 60); del t, v, w
gc.collect(); assert sys.getrefcount(f) == n, (sys.getrefcount(f), n)
b = bytearray(b"1,2\\n" * 100)
for _ in range(20): r = rd([mlio.InMemoryStore(b)], num_prefetched_examples=4); r.read_example(); del r
gc.collect(); b.extend(b"x")   # fails if an export is still alive
ok()
''',
    "memory-does-not-grow": '''
def rss(): return int(open("/proc/self/statm").read().split()[1])
def once():
    r = rd(b"1,2\\n" * 2000, 100); n = 0
    for e in r:
        for t in e: n += as_numpy(t).size; mlio._core.as_dlpack(t, 60); memoryview(t.data)
    s = mlio.DenseTensor((1000,), np.array(["x" * 50] * 1000, dtype=object)); as_numpy(s)
    z = mlio.InMemoryStore(b"x" * 100000).open_read().read(50000); bytes(z)
    assert n == 4000
import weakref
live = []
for i in range(30):
    a = np.zeros(100000); live.append(weakref.ref(a)); t = mlio.DenseTensor((100000,), a, copy=False); v = as_numpy(t); w = mlio._core.as_dlpack(t, 60); del a, t, v, w
    once()
gc.collect(); assert not any(x() is not None for x in live); ok()
''',
    "dlpack-lifetimes": '''
t = mlio.DenseTensor((2, 3), np.arange(6.)); c = mlio._core.as_dlpack(t, 60); del t; gc.collect()
class W:
    def __dlpack__(s, stream=None): return c
    def __dlpack_device__(s): return (1, 0)
a = np.from_dlpack(W()); raises(lambda: np.from_dlpack(W()), Exception); del c; W = None; gc.collect(); junk = [bytearray(48) for _ in range(100)]
assert a.tolist() == [[0, 1, 2], [3, 4, 5]]; del a; gc.collect()
for _ in range(100): mlio._core.as_dlpack(mlio.DenseTensor((3,), np.arange(3)), 60)
raises(lambda: mlio._core.as_dlpack(mlio.CooTensor((2,), np.ones(1), [np.array([0])]), 60), ValueError, mlio.NotSupportedError)
raises(lambda: mlio._core.as_dlpack(mlio.DenseTensor((3,), np.arange(3)), 99999), ValueError, mlio.NotSupportedError)
raises(lambda: mlio._core.as_dlpack(None, 60), TypeError, ValueError); ok()
''',
    # background threads and the GIL
    "drop-reader-with-warnings": '''
for i in range(12):
    r = rd(NOISY, num_prefetched_examples=50, **WARN); r.read_example(); del r
ok()
''',
    "reset-reader-with-warnings": '''
r = rd(NOISY, num_prefetched_examples=50, **WARN)
for i in range(12): assert int(as_numpy(r.read_example()[0])[0, 0]) == 1; r.reset()
ok()
''',
    "exit-with-live-reader": '''
r = rd(b"1,2\\n" + b"x,y,z\\n3,4\\n" * 100000, num_prefetched_examples=500000, **WARN); r.read_example(); ok()
''',
    "exit-with-live-reader-in-thread": '''
r = rd(b"1,2\\n" + b"x,y,z\\n3,4\\n" * 50000, num_prefetched_examples=50000, **WARN)
def go():
    for e in r: pass
t = threading.Thread(target=go, daemon=False); t.start(); ok()
''',
    "exit-with-objects": '''
r = rd(); e = r.read_example(); t = e[0]; v = as_numpy(t); d = t.data; s = mlio.InMemoryStore(b"abc"); st = s.open_read(); sl = st.read(2); it = iter(r); i2 = iter(e); at = e.schema.attributes; c = mlio._core.as_dlpack(t, 60)
import builtins; builtins.keep = [r, e, t, v, d, s, st, sl, it, i2, at, c]; sys.modules["keep"] = builtins.keep; ok()
''',
    "handler-clears-itself": '''
n = []
def h(l, m): n.append(m); mlio._core.clear_log_message_handler()
mlio._core.set_log_message_handler(h)
assert len(list(rd(NOISY[:600], num_prefetched_examples=4, **WARN))) > 10; assert n; ok()
''',
    "handler-reads": '''
def h(l, m): assert flat(rd(b"7\\n8\\n")) == [7, 8]; h.n += 1
h.n = 0; mlio._core.set_log_message_handler(h)
assert len(list(rd(NOISY[:600], num_prefetched_examples=4, **WARN))) > 10; assert h.n > 10; mlio._core.clear_log_message_handler(); ok()
''',
    "handler-swapped-while-running": '''
seen = []
mlio._core.set_log_message_handler(lambda l, m: seen.append(1))
r = rd(NOISY, num_prefetched_examples=100, **WARN)
for i, e in enumerate(r):
    if i % 50 == 0:
        mlio._core.set_log_message_handler(lambda l, m, i=i: seen.append(i)); gc.collect()
    if i % 333 == 0: mlio._core.clear_log_message_handler(); mlio.set_log_level(mlio.LogLevel.INFO)
old = mlio._core.set_log_message_handler(lambda l, m: None); old2 = mlio._core.set_log_message_handler(old) if old else None
assert seen; mlio._core.clear_log_message_handler(); ok()
''',
    "gil-python-store-in-background": '''
def slow(s): time.sleep(0.002)
for pf, pr in ((0, 0), (4, 2), (1, 1)):
    st = [S(b"%d,0\\n" % i, id=str(i), hook=slow) for i in range(20)]
    for first in ("read_example", "peek_example", "read_schema", "iter"):
        r = rd(st, num_prefetched_examples=pf, num_parallel_reads=pr)
        if first == "iter": next(iter(r)); assert flat(r) == list(range(1, 20))
        else:
            getattr(r, first)()
            assert flat(r) == list(range(1 if first == "read_example" else 0, 20))
        r.reset(); r.read_example(); r.reset(); r.peek_example(); r.reset(); r.read_schema(); del r
ok()
''',
    "gil-blocking-calls": '''
r = rd([pipe([b"1,2\\n", b"3,4\\n"])]); assert flat([r.read_example()]) == [1] and flat(r) == [3]
r = rd([pipe([b"1,2\\n", b"3,4\\n"])]); assert flat([r.peek_example()]) == [1] and flat(r) == [1, 3]
r = rd([pipe([b"1,2\\n", b"3,4\\n"])]); assert len(r.read_schema().attributes) == 2 and flat(r) == [1, 3]
r = rd([pipe([b"1,2\\n", b"3,4\\n"])]); assert flat(iter(r)) == [1, 3]
def slowly(s):
    t0, n = time.time(), [0]
    ev = threading.Event()
    threading.Thread(target=lambda: [time.sleep(0.01) or n.__setitem__(0, n[0] + 1) for _ in range(5)] and ev.set()).start()
    return ev
s = pipe([b"abc", b"def"]).open_read(); b = bytearray(3); assert s.read(b) == 3 and b == b"abc"; assert s.read(b) == 3 and b == b"def"
s = pipe([b"abc", b"def"]).open_read(); got = b""
while len(got) < 6: got += bytes(s.read(3))
assert got == b"abcdef"
p = mlio._core.ParquetRecordReader(pipe([b"PAR1", b"xxxxPAR1"]).open_read()); raises(p.read_record, mlio.CorruptFooterError, mlio.MLIOError)
ok()
''',
    "gil-other-threads-run": '''
# While a call blocks in the library, other Python threads make progress.
ticks = [0]; stop = []
def tick():
    while not stop: ticks[0] += 1; time.sleep(0.005)
threading.Thread(target=tick, daemon=True).start()
def blocked(f):
    n = ticks[0]; t = time.time(); f(); t = time.time() - t
    assert t < 0.3 or ticks[0] - n >= 5, (f, t, ticks[0] - n)
    return t
def src(): return pipe([b"1,2\\n", b"3,4\\n"], 0.6)
r = rd([src()]); blocked(r.read_example); r = rd([src()]); blocked(r.peek_example); r = rd([src()]); blocked(r.read_schema)
r = rd([src()]); blocked(lambda: next(iter(r))); s = src(); blocked(s.open_read)
s = src().open_read(); blocked(lambda: s.read(bytearray(4))); s = src().open_read(); blocked(lambda: s.read(4))
stop.append(1); ok()
''',
    "thread-storm": '''
errs = []
shared = rd(b"".join(b"%d,%d\\n" % (i, i) for i in range(4000)), 3, num_prefetched_examples=5)
def own(seed):
    try:
        rng = random.Random(seed)
        for _ in range(6):
            r = rd(b"1,2\\n3,4\\n" * 50, 3, num_prefetched_examples=rng.choice([0, 1, 4]), num_parallel_reads=rng.choice([0, 1, 2]))
            k = rng.choice([0, 1, 5, None])
            for i, e in enumerate(r):
                if i == k: break
                a = as_numpy(e[0]); mlio.DenseTensor(a.shape, a); hash(e.schema); repr(e)
            if rng.random() < .5: r.reset()
    except BaseException as e: errs.append(repr(e))
ts = [threading.Thread(target=own, args=(i,)) for i in range(8)]
for t in ts: t.start()
for t in ts: t.join()
assert not errs, errs; ok()
''',
    "fork-free-subinterpreter-reimport": '''
import importlib; importlib.reload(mlio); assert flat(rd()) == [1, 3, 5]; ok()
''',
    # misuse
    "none-everywhere": '''
T = (TypeError, ValueError, RuntimeError, AttributeError)
s = mlio.Schema([mlio.Attribute("a", mlio.DataType.FLOAT32, (1,))]); t = mlio.DenseTensor((1,), np.ones(1))
for f in (lambda: rd([None]), lambda: mlio.DataReaderParams(None, 1), lambda: setattr(mlio.DataReaderParams([], 1), "dataset", [None]), lambda: mlio.Example(None, []),
          lambda: mlio.Example(s, [None]), lambda: mlio.Schema(None), lambda: mlio.Schema([None]), lambda: mlio.DenseTensor(None, np.ones(1)), lambda: mlio.DenseTensor((1,), None),
          lambda: mlio.CooTensor((1,), None, []), lambda: mlio.CooTensor((1,), np.ones(1), [None]), lambda: mlio.CooTensor((1,), np.ones(1), None), lambda: mlio.InMemoryStore(None),
          lambda: mlio.File(None), lambda: mlio.SageMakerPipe(None), lambda: mlio.CsvReader(None), lambda: mlio.TextLineReader(None), lambda: mlio.RecordIOProtobufReader(None),
          lambda: mlio.ImageReader(None, None), lambda: mlio._core.ParquetRecordReader(None), lambda: mlio.list_files(None), lambda: mlio.Attribute(None, None, None),
          lambda: mlio._core.set_log_message_handler(None), lambda: mlio._core.set_log_message_handler(3), lambda: mlio.set_log_level(None), lambda: as_numpy(None),
          lambda: mlio.InMemoryStore(b"x").open_read().read(None), lambda: mlio.InMemoryStore(b"x").open_read().seek(None), lambda: mlio.Example(s, [t])[None], lambda: s.get_index(None),
          lambda: mlio.Device(None, 0), lambda: mlio.DataReaderParams([], None)):
    raises(f, *T)
ok()
''',
    "bare-base-classes": '''
for f in (lambda: mlio.DataReader().read_example(), lambda: mlio.DataReader().peek_example(), lambda: mlio.DataReader().read_schema(), lambda: mlio.DataStore().open_read(),
          lambda: mlio.InputStream().read(bytearray(3)), lambda: mlio.InputStream().seek(3), lambda: mlio.InputStream().size, lambda: mlio.InputStream().position,
          lambda: mlio.Tensor(), lambda: mlio.RecordReader() if hasattr(mlio, "RecordReader") else mlio._core.RecordReader(), lambda: rd([mlio.DataStore()]).read_example(),
          lambda: next(iter(mlio.DataReader()))):
    raises(f, Exception)
repr(mlio.DataStore()); ok()
''',
    "missing-super-init": '''
class A(mlio.DataStore):
    def __init__(self): pass
class B(mlio.InputStream):
    def __init__(self): pass
raises(lambda: A().id, TypeError); raises(lambda: rd([A()]), TypeError); raises(lambda: B().size, TypeError)
class C(mlio.DataStore):
    def open_read(self): return B()
    @property
    def id(self): return "c"
raises(lambda: rd([C()]).read_example(), Exception); ok()
''',
    "hostile-stream": '''
for ret in (10**9, -1, 2**70, None, "x", 1.5):
    class L(St):
        def read(self, buf): n = super().read(buf); return ret
    raises(lambda: list(rd([S(b"1,2\\n3,4\\n", cls=L)])), Exception)
    raises(lambda: list(rd([S(b"1,2\\n3,4\\n", cls=L)], num_prefetched_examples=3)), Exception)
kept = []
class K(St):
    def read(self, buf): kept.append(buf); return super().read(buf)
assert flat(rd([S(b"1\\n2\\n", cls=K)])) == [1, 2]; del kept[:]
class R(St):   # a stream that reads with a reader of its own
    def read(self, buf): assert flat(rd(b"5\\n")) == [5]; return super().read(buf)
assert flat(rd([S(b"1\\n2\\n", cls=R)])) == [1, 2]; assert flat(rd([S(b"1\\n2\\n", cls=R)], num_prefetched_examples=2)) == [1, 2]
class E(St):   # bad attributes
    @property
    def size(self): raise KeyError("size")
    @property
    def seekable(self): raise KeyError("seekable")
    @property
    def closed(self): raise KeyError("closed")
    def close(self): raise KeyError("close")
import sys as _s; _s.unraisablehook = lambda a: None
try: list(rd([S(b"1\\n2\\n", cls=E)]))
except Exception: pass
gc.collect(); ok()
''',
    "store-ids": '''
a, b, c = S(b"1\\n", id="first"), S(b"2\\n", id="second"), S(b"3\\n", id="first")
eq = mlio.DataStore.__eq__
assert not eq(a, b) and eq(a, c) and hash(a) == hash(c)
class M(S):
    def id(self): return self.i
m = M(b"", id="method"); assert not eq(m, a) and eq(m, M(b"", id="method"))
class Bad(S):
    @property
    def id(self): raise KeyError("id")
import sys as _s; _s.unraisablehook = lambda a: None
eq(Bad(b""), a); hash(Bad(b"")); ok()
''',
    "python-reader": '''
class R(mlio.DataReader):
    def __init__(self, n): super().__init__(); self.n = n; self.i = 0
    def read_example(self):
        if self.i == self.n: return None
        self.i += 1; return mlio.Example(mlio.Schema([mlio.Attribute("a", mlio.DataType.FLOAT64, (1,))]), [mlio.DenseTensor((1,), np.array([float(self.i)]))])
    def peek_example(self): return None
    def read_schema(self): return None
    def reset(self): self.i = 0
r = R(3); assert flat(r) == [1, 2, 3] and flat(r) == []; mlio.DataReader.reset(r); assert flat(r) == [1, 2, 3]
class X(R):
    def read_example(self): raise KeyError("boo")
    def reset(self): raise KeyError("reset")
import sys as _s; _s.unraisablehook = lambda a: None
raises(lambda: list(X(1)), KeyError); raises(lambda: mlio.DataReader.read_example(X(1)), KeyError)
class Y(R):
    def __init__(self): super().__init__(0); self.me = self
for _ in range(10): Y()
gc.collect(); ok()
''',
    "closed-streams": '''
p = os.path.join(WORK, "f"); open(p, "wb").write(b"abc")
import gzip
for st in (mlio.InMemoryStore(b"abc"), mlio.File(p), mlio.File(p, memory_map=False), mlio.InMemoryStore(gzip.compress(b"abc"), mlio.Compression.GZIP)):
    s = st.open_read(); s.close(); s.close(); assert s.closed
    for f in (lambda: s.read(bytearray(2)), lambda: s.read(2)): raises(f, mlio.StreamError)
    for f in (lambda: s.seek(0), lambda: s.size, lambda: s.position): raises(f, mlio.MLIOError)
    s.seekable; s.supports_zero_copy
    with st.open_read() as s: s.read(1)
    with st.open_read() as s: s.close()
ok()
''',
    "extreme-parameters": '''
one = lambda **k: flat(mlio.CsvReader(mlio.DataReaderParams([mlio.InMemoryStore(b"1\\n2\\n3\\n")], **{"batch_size": 1, **k}), mlio.CsvParams(header_row_index=None)))
E = (ValueError, RuntimeError, MemoryError, OverflowError, TypeError)
for k in (dict(batch_size=0), dict(batch_size=-1), dict(batch_size=2**64), dict(batch_size=1.5), dict(num_shards=2, shard_index=5), dict(sample_ratio=-1.0),
          dict(sample_ratio=2.0), dict(sample_ratio=float("nan")), dict(batch_size="1"), dict(num_instances_to_read=-1)):
    raises(lambda: one(**k), *E)
for k, n in ((dict(num_prefetched_examples=2**62), 3), (dict(batch_size=2**62), 3), (dict(shuffle_instances=True, shuffle_window=2**63), 3), (dict(num_parallel_reads=2**62), 3), (dict(num_instances_to_skip=2**64 - 1), 0), (dict(num_instances_to_read=0), 0), (dict(num_instances_to_read=2**64 - 1), 3),
             (dict(num_shards=2**64 - 1, shard_index=2), 1), (dict(shuffle_instances=True, shuffle_seed=2**64 - 1), 3), (dict(num_shards=1), 3)):
    assert len(one(**k)) == n, (k, one(**k))
ok()
''',
    "strange-csv-parameters": '''
for k in (dict(delimiter=""), dict(delimiter="ab"), dict(delimiter="日"), dict(quote_char=","), dict(comment_char="1"), dict(max_field_length=0), dict(max_line_length=0), dict(encoding="nope"),
          dict(encoding=""), dict(delimiter="\\n"), dict(delimiter="\\0"), dict(header_row_index=2**63), dict(use_columns={"q"}), dict(use_columns_by_index={9}), dict(column_names=["a"] * 50),
          dict(column_types_by_index={99: mlio.DataType.INT8}), dict(parser_options=mlio.ParserParams(number_base=99)), dict(parser_options=mlio.ParserParams(number_base=-5)), dict(column_names=[""]),
          dict(delimiter="1"), dict(quote_char="1"), dict(quote_char="\\n"), dict(default_data_type=mlio.DataType.SIZE), dict(default_data_type=mlio.DataType.FLOAT16)):
    for data in (b"1,2\\n3,4\\n", b"", b"\\n\\n", b'"1,2\\n', b"\\xff\\xfe1,2\\n", b"\\0\\0\\n"):
        try: list(rd(data, csv=mlio.CsvParams(**{"header_row_index": None, **k})))
        except Exception as e: pass
assert flat(rd()) == [1, 3, 5]; ok()
''',
    "odd-targets": '''
s = lambda: mlio.InMemoryStore(b"abcdefgh" * 20).open_read()
b = bytearray(16); assert s().read(memoryview(b)[4:8]) == 4 and bytes(b) == b"\\0\\0\\0\\0abcd" + bytes(8)
for t in (memoryview(bytearray(16))[::2], np.zeros((4, 4), "u1")[:, ::2], np.zeros(8, "u1")[::-1], bytes(8), memoryview(b"12345678"), "text", 5.5, [1, 2]):
    st = s()
    try: n = st.read(t)
    except Exception: continue
    got = bytes(memoryview(t).tobytes())[:n] if not isinstance(t, np.ndarray) else t.ravel().tobytes()[:n]
    assert not (isinstance(t, bytes) and t != bytes(8)), "a bytes object was written to"
    assert memoryview(t).c_contiguous, ("a non-contiguous target was accepted", t)
for src in (memoryview(b"abcdef")[::2], np.arange(10, dtype="u1")[::2], np.zeros((3, 3), "u1", order="F")):
    try: st = mlio.InMemoryStore(src).open_read(); x = bytearray(100); n = st.read(x)
    except Exception: continue
    assert bytes(x[:n]) in (memoryview(src).tobytes(), memoryview(src).tobytes("A")), (bytes(x[:n]), src)
raises(lambda: s().read(-1), TypeError); raises(lambda: s().seek(-1), TypeError); assert len(bytes(s().read(2**40))) == 160

ok()
''',
    "invalid-utf8-text": '''
t = rd(b"\\xff\\xc3\\xfd,2\\n", csv=mlio.CsvParams(header_row_index=None, default_data_type=mlio.DataType.STRING)).read_example()[0]
for _ in range(3): raises(lambda: as_numpy(t), SystemError, ValueError)
g = rd(b"ok,2\\n", csv=mlio.CsvParams(header_row_index=None, default_data_type=mlio.DataType.STRING)).read_example()[0]; assert as_numpy(g)[0, 0] == "ok"; ok()
''',
    "invalid-utf8-names": '''
r = rd(b"\\xff\\xc3,b\\n1,2\\n", csv=mlio.CsvParams())
e = r.read_example()
try: [a.name for a in e.schema.attributes]
except UnicodeDecodeError: pass
try: repr(e), repr(e.schema)
except UnicodeDecodeError: pass
assert [as_numpy(t).tolist() for t in e] == [[[1]], [[2]]]
d = os.path.join(WORK, "n"); os.mkdir(d); open(os.path.join(d.encode(), b"\\xff.csv"), "wb").write(b"x\\n")
s = mlio.list_files(d)[0]
try: s.id, repr(s)
except UnicodeDecodeError: pass
raises(lambda: list(rd([s], csv=mlio.CsvParams(header_row_index=None, default_data_type=mlio.DataType.INT32))), mlio.InvalidInstanceError); hash(s)
ok()
''',
    "huge-shapes": '''
for sh in ((2**63,), (2**32, 2**32), (2**31, 2**31, 2**31), (-1,), (2**64,), (0, 2**63)):
    try: t = mlio.DenseTensor(sh, np.zeros(1)); np.array(t)
    except Exception: pass
    try: mlio.CooTensor(sh, np.zeros(1), [np.zeros(1, "i8")] * len(sh))
    except Exception: pass
for st in ([2**62], [-2**62], [2**61 + 1]):
    try: t = mlio.DenseTensor((3,), np.zeros(9), strides=st); np.array(t)
    except Exception: pass
for n in (1, 40, 64, 200):
    try: t = mlio.DenseTensor((1,) * n, np.zeros(1)); np.array(t); repr(t)
    except Exception: pass
ok()
''',
    "garbage-inputs": '''
rng = random.Random(int(sys.argv[1]))
I = mlio.ImageReaderParams(image_dimensions=[3, 4, 4], image_frame=mlio.ImageFrame.RECORDIO); I2 = mlio.ImageReaderParams(image_dimensions=[3, 4, 4], image_frame=mlio.ImageFrame.NONE)
for i in range(60):
    d = rng.randbytes(rng.randint(0, 300))
    if rng.random() < .5: d = bytes([0x0a, 0x23, 0xd7, 0xce]) + rng.randint(0, 200).to_bytes(4, "little") + d
    for mk in (lambda p: mlio.CsvReader(p), mlio.TextLineReader, mlio.RecordIOProtobufReader, lambda p: mlio.ImageReader(p, I), lambda p: mlio.ImageReader(p, I2)):
        for h in (mlio.BadExampleHandling.ERROR, mlio.BadExampleHandling.PAD):
            try:
                r = mk(mlio.DataReaderParams([mlio.InMemoryStore(d)], 2, bad_example_handling=h, num_prefetched_examples=rng.randint(0, 3)))
                for e in r:
                    for t in e:
                        try: as_numpy(t)
                        except (ValueError, SystemError): pass
            except mlio.MLIOError: pass
ok()
''',
    # SciPy is only available in another interpreter here, with a NumPy of its own.
    "scipy-coo": '''
from mlio.integ.scipy import to_coo_matrix, to_tensor
from scipy.sparse import coo_matrix, csr_matrix
rng = random.Random(int(sys.argv[1]))
for dt in ("f4", "f8", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"):
    for k in range(15):
        h, w = rng.randint(1, 9), rng.randint(1, 9); n = rng.randint(0, min(12, h * w))
        cells = rng.sample([(a, b) for a in range(h) for b in range(w)], n)
        row, col = np.array([a for a, b in cells], "i4"), np.array([b for a, b in cells], "i4")
        val = np.array([rng.randint(1, 100) for _ in cells], dt)
        m = coo_matrix((val, (row, col)), (h, w)); t = to_tensor(m)
        assert t.shape == (h, w) and isinstance(t, mlio.CooTensor)
        want = np.zeros((h, w), dt)
        for a, b, v in zip(row, col, val): want[a, b] = v
        del row, col, val; gc.collect(); m2 = to_coo_matrix(t); del t; gc.collect()
        assert m2.shape == (h, w) and m2.dtype == np.dtype(dt) and np.array_equal(m2.toarray(), want), (m2.toarray(), want)
        n1 = rng.randint(0, 5); i1 = rng.sample(range(9), n1); v1 = np.arange(1, n1 + 1).astype(dt)
        m3 = to_coo_matrix(mlio.CooTensor((9,), v1, [np.array(i1, "u8")])); want = np.zeros((1, 9), dt)
        for a, b in zip(i1, v1): want[0, a] = b
        assert m3.shape == (1, 9) and np.array_equal(m3.toarray(), want)
# A converted matrix does not share its data, whose layout and protection do not matter.
for d in (np.arange(1, 9.)[::2], np.arange(1, 9.)[::-2], np.arange(1, 5, dtype="u2"), np.array([3, -7, 0, 1], "i8")):
    want = d.tolist()
    for ro in (False, True):
        m = coo_matrix((d, (np.arange(4), np.arange(4)[::-1])), (4, 4), copy=False)
        m.data.flags.writeable = not ro; t = to_tensor(m)
        assert np.array(t.data).tolist() == want and np.array(t.indices(1)).tolist() == [3, 2, 1, 0]
        if not ro: old = m.data.copy(); m.data[:] = 9; assert np.array(t.data).tolist() == want, "shared"; m.data[:] = old
        m.row[:] = 0; m.col[:] = 0; assert np.array(t.indices(1)).tolist() == [3, 2, 1, 0]
        x = to_coo_matrix(t); x.data[:] = 5; assert np.array(t.data).tolist() == want
for f in (lambda: to_coo_matrix(mlio.DenseTensor((2,), np.ones(2))), lambda: to_tensor(csr_matrix(np.eye(2))), lambda: to_tensor(np.eye(2)),
          lambda: to_coo_matrix(mlio.CooTensor((2, 2, 2), np.ones(1), [np.zeros(1, "u8")] * 3))):
    raises(f, ValueError)
m = coo_matrix(np.eye(3)); t = to_tensor(m); x = to_coo_matrix(t); x.data[:] = 9; assert np.array(t.data).tolist() == [1, 1, 1]
ok()
''',
    # The frameworks themselves are not installed: stand-ins record what they are given, and NumPy takes the DLPack capsules.
    "scipy-frameworks": '''
import types
class Cap:
    def __init__(self, c): self.c = c
    def __dlpack__(self, **k): return self.c
    def __dlpack_device__(self): return (1, 0)
def take(c):
    assert type(c).__name__ == "PyCapsule" and "dltensor" in repr(c), repr(c)
    return np.from_dlpack(Cap(c))
def module(name, **k):
    m = types.ModuleType(name); m.__dict__.update(k); sys.modules[name] = m; return m
module("tensorflow", convert_to_tensor=np.array, SparseTensor=lambda i, v, s: (np.asarray(i), np.asarray(v), tuple(s)),
       data=types.SimpleNamespace(Dataset=types.SimpleNamespace(from_generator=lambda g, t: (list(g()), dict(t)))))
dl = module("torch.utils.dlpack", from_dlpack=take); module("torch", utils=module("torch.utils", dlpack=dl))
module("mxnet", ndarray=types.SimpleNamespace(from_dlpack=take))
from mlio.integ.tensorflow import to_tf, make_tf_dataset
from mlio.integ.torch import as_torch
from mlio.integ.mxnet import as_mxnet
import mlio.integ.dlpack
mlio.integ.dlpack.as_dlpack.__defaults__ = (60,)  # The default is the version ML-IO pins, not the one installed here.
rng = random.Random(int(sys.argv[1]))
for dt in ("f4", "f8", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"):
    for k in range(12):
        h, w = rng.randint(1, 9), rng.randint(1, 9); n = rng.randint(0, min(12, h * w))
        cells = rng.sample([(a, b) for a in range(h) for b in range(w)], n)
        val = [rng.choice((0, 0, 1, 7, 100)) for _ in cells]
        one = k % 4 == 3
        if one: cells = [(0, b) for b in rng.sample(range(w), min(n, w))]; h = 1; val = val[:len(cells)]
        ix = [np.array([a for a, b in cells], "i8"), np.array([b for a, b in cells], "i8")]
        t = mlio.CooTensor((w,) if one else (h, w), np.array(val, dt), ix[1:] if one else ix); del ix; gc.collect()
        i, v, s = to_tf(t)
        assert s == (h, w) and v.dtype == np.dtype(dt), (s, v.dtype)
        # One index for every value, the explicit zeros included, in row-major order as TensorFlow demands.
        assert i.shape == (len(cells), 2) and v.shape == (len(cells),), (i.shape, v.shape, val)
        got = [(int(a), int(b), int(x)) for (a, b), x in zip(i, v)]
        assert got == sorted((a, b, x) for (a, b), x in zip(cells, val)), (got, cells, val)
    a = np.arange(rng.randint(1, 24)).astype(dt); t = mlio.DenseTensor(a.shape, a)
    assert np.array_equal(to_tf(t), a) and to_tf(t).dtype == np.dtype(dt)
    for f in (as_torch, as_mxnet):
        b = f(t); assert b.dtype == np.dtype(dt) and np.array_equal(b, a); del b
    b = as_torch(t); c = as_mxnet(t); del t; gc.collect(); assert np.array_equal(b, a) and np.array_equal(c, a)
for k in range(20):
    rows = rng.randint(1, 9); bs = rng.randint(1, 4); d = "".join(f"{r},{r + 50},{r + 100}\\n" for r in range(rows)).encode()
    r = rd(d, bs, mlio.CsvParams(header_row_index=None, column_names=["a", "b", "c"]))
    names = rng.sample(["a", "b", "c"], rng.randint(1, 3)); items, types_ = make_tf_dataset(r, names, [n + "-type" for n in names])
    assert types_ == {n: n + "-type" for n in names}
    assert all(list(i) == names for i in items) and len(items) == -(-rows // bs)
    for n in names:
        assert [int(x) for i in items for x in np.array(i[n]).ravel()] == [x + {"a": 0, "b": 50, "c": 100}[n] for x in range(rows)]
ok()
''',
}
