"""C26: the column statistics of analyze_dataset against statistics computed here."""
import math, re, threading

import numpy as np

import mlio
import vp
from mlio.contrib.insights import analyze_dataset
from vp import check, violate

RULE = ("a dataset with at least two rows and one batch size that splits it was analysed, and every statistic of every column was "
        "compared with the reference")
FLOAT = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")
WS = " \t\n\r\v\f"


def number(cell):
    """None: not a number; otherwise the value. Only used for texts whose reading is beyond doubt."""
    s = cell.strip(WS)
    if FLOAT.match(s):
        return float(s)
    # The parser treats the infinities, like every value that does not fit into a double, as out of range.
    return None


class Ref:
    def __init__(self, cells, null_like, capture, max_capture):
        n = len(cells)
        self.rows_seen = n
        enc = [c.encode() for c in cells]
        lens = [len(b) for b in enc]
        full = [x for x in lens if x]
        self.string_empty_count = n - len(full)
        self.string_min_length = min(lens) if n else 0
        self.string_min_length_not_empty = min(full) if full else 0
        self.string_max_length = max(full) if full else 0
        self.avg = sum(lens) / n if n else 0.0
        self.card = len({c for c in cells if c})
        words = [w for c in cells for w in c.split(" ")]
        self.words_lo, self.words_hi = len([w for w in words if w]), len(words) - self.string_empty_count
        self.exact_words = all(c == "" or ("  " not in c and not c.startswith(" ") and not c.endswith(" ")) for c in cells)
        self.vocab = len({w for w in words if w})
        self.string_only_whitespace_count = sum(1 for c in cells if c and not c.strip(WS))
        self.blankless = [c for c in cells if c.strip(WS)]
        nl = {x.lower() for x in null_like}
        self.string_null_like_count = sum(1 for c in self.blankless if ascii_lower(c.strip(WS)) in {ascii_lower(x) for x in nl})
        vals = [number(c) for c in self.blankless]
        nums = [v for v in vals if v is not None]
        fin = [v for v in nums if not math.isinf(v)]
        self.numeric_count = len(nums)
        self.numeric_finite_count = len(fin)
        self.numeric_nan_count = len(vals) - len(nums)
        self.int_lo = sum(1 for c, v in zip(self.blankless, vals) if v is not None and re.match(r"[+-]?\d+\Z", c.strip(WS)))
        self.int_hi = sum(1 for v in fin if abs(round(v) - v) <= 1.1e-5)
        self.mean = math.fsum(fin) / len(fin) if fin else 0.0
        self.scale = max([abs(v) for v in fin], default=0.0)
        self.min = min(fin) if fin else math.nan
        self.max = max(fin) if fin else math.nan
        self.fin = fin
        self.example = cells[0] if n else ""
        self.captured, self.overflow = {}, False
        if capture:
            for c in self.blankless:
                if c in self.captured:
                    self.captured[c] += 1
                elif len(self.captured) < max_capture:
                    self.captured[c] = 1
                else:
                    self.overflow = True


def ascii_lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


EXACT = ("rows_seen", "string_empty_count", "string_min_length", "string_min_length_not_empty", "string_max_length",
         "string_only_whitespace_count", "string_null_like_count", "numeric_count", "numeric_finite_count", "numeric_nan_count")


def near(a, b, tol):
    return abs(a - b) <= tol


def compare(col, r, where):
    for k in EXACT:
        check(getattr(col, k) == getattr(r, k), k.replace("_", "-"), f"{where}: {k} is {getattr(col, k)}, expected {getattr(r, k)}")
    check(r.int_lo <= col.numeric_int_count <= r.int_hi, "numeric-int-count", f"{where}: {col.numeric_int_count} is not within [{r.int_lo}, {r.int_hi}]")
    if r.exact_words:
        check(col.string_num_words == r.words_lo, "string-num-words", f"{where}: {col.string_num_words} instead of {r.words_lo}")
    check(r.words_lo <= col.string_num_words <= r.words_hi, "string-num-words", f"{where}: {col.string_num_words} is not within [{r.words_lo}, {r.words_hi}]")
    check(near(col.string_avg_length, r.avg, 1e-9 * (1 + r.avg)), "string-avg-length", f"{where}: {col.string_avg_length} instead of {r.avg}")
    if r.fin:
        check(near(col.numeric_finite_mean, r.mean, 1e-9 * r.scale), "numeric-finite-mean", f"{where}: {col.numeric_finite_mean} instead of {r.mean}")
        check(col.numeric_finite_min == r.min, "numeric-finite-min", f"{where}: {col.numeric_finite_min} instead of {r.min}")
        check(col.numeric_finite_max == r.max, "numeric-finite-max", f"{where}: {col.numeric_finite_max} instead of {r.max}")
    else:
        check(math.isnan(col.numeric_finite_min) and math.isnan(col.numeric_finite_max), "numeric-of-nothing",
              f"{where}: minimum {col.numeric_finite_min}, maximum {col.numeric_finite_max} of no number")
    check(col.example_value == r.example, "example-value", f"{where}: {col.example_value!r} instead of {r.example!r}")
    check(col.string_captured_unique_values == r.captured, "captured", lambda: f"{where}: {col.string_captured_unique_values} instead of {r.captured}")
    check(col.string_captured_unique_values_overflowed == r.overflow, "captured-overflow",
          f"{where}: {col.string_captured_unique_values_overflowed}, expected {r.overflow}")
    for key, got, exp, slack in (("cardinality", col.estimate_string_cardinality(), r.card, 0), ("vocab", col.estimate_string_vocab_cardinality(), r.vocab, 1)):
        check(near(got, exp, 3 + slack + 0.025 * exp), key, f"{where}: {got} instead of about {exp}")
    d = col.to_dict()
    for k in EXACT + ("numeric_int_count", "string_num_words"):
        check(d[k] == str(getattr(col, k)), "to-dict", f"{where}: {k} {d[k]!r}, attribute {getattr(col, k)}")
    for k in ("numeric_finite_mean", "numeric_finite_min", "numeric_finite_max", "string_avg_length"):
        check(d[k] == "%f" % getattr(col, k) or math.isnan(getattr(col, k)) and "nan" in d[k], "to-dict", f"{where}: {k} {d[k]!r}, attribute {getattr(col, k)}")
    check(d["example_value"] == r.example and d["string_captured_unique_values"] == r.captured and
          d["string_captured_unique_values_overflowed"] == r.overflow and d["string_cardinality"] == col.estimate_string_cardinality() and
          d["string_vocab_cardinality"] == col.estimate_string_vocab_cardinality(), "to-dict", f"{where}: {d}")
    med = d["numeric_finite_median_approx"]
    if not r.fin:
        check(math.isnan(med), "median", f"{where}: {med} of no number")
    elif len(r.fin) <= 10000:
        s = sorted(r.fin)
        lo, hi = s[(len(s) - 1) // 2], s[len(s) // 2]
        check(lo <= med <= hi, "median", f"{where}: {med} is not within [{lo}, {hi}]")
    else:
        check(r.min <= med <= r.max, "median", f"{where}: {med} is not within [{r.min}, {r.max}]")


WORDS = ["alpha", "Beta", "gamma", "δelta", "日本", "naïve", "x", "Zebra!", "a-b", "null", "None", "NA", "nil", "n/a", "Straße", "😀", "e5", "-", "+",
         "1,2", "1.2.3", "--1", "1e", "true", "0x", "NULL ", " none"]


def make_cell(rng, kind, multi):
    k = kind if kind != "mixed" else rng.choice(["int", "float", "word", "text", "empty", "blank", "special", "padded"])
    if k == "empty":
        return ""
    if k == "blank":
        return rng.choice([" ", "  ", "\t", " \t ", "   ", " " * rng.randint(8, 40)])
    if k == "int":
        return rng.choice(["%d", "%+d", "%03d"]) % rng.choice([0, 1, -1, rng.randint(-99, 99), rng.randint(-10**12, 10**12)])
    if k == "float":
        return rng.choice([lambda: repr(rng.uniform(-100, 100)), lambda: "%.3f" % rng.uniform(-9, 9), lambda: "%.5e" % rng.uniform(-1e30, 1e30),
                           lambda: "%.2e" % (rng.uniform(1, 9) * 10.0 ** rng.randint(-200, 200)), lambda: rng.choice([".5", "5.", "-.25", "1.0", "-0", "-0.0"]),
                           lambda: "0.%06d" % rng.randint(0, 40)])()
    if k == "special":
        return rng.choice(["inf", "-inf", "Infinity", "nan", "NaN", "-Inf", "INF"])
    if k == "padded":
        return rng.choice([" 5", "7 ", " -1.5 ", "\t3", " null", "NA ", " x "])
    if k == "word" and rng.random() < 0.03:
        # Hashes (XXH32) with only zeros behind the bits that select the register
        return rng.choice(["w40909", "w214191", "w2cce54", "w26348d"])
    if k == "word":
        return rng.choice(WORDS)
    if k == "unique":
        return "u%x" % rng.getrandbits(60)
    sep = rng.choice([" ", " ", " ", "  ", ", "])
    t = sep.join(rng.choice(WORDS) for _ in range(rng.randint(1, 6)))
    if multi and rng.random() < 0.2:
        t += "\n" + rng.choice(WORDS) + '"q"'
    return t


def csv_bytes(rng, cols):
    rows = []
    for r in zip(*cols):
        f = []
        for c in r:
            if not c.strip(WS) or any(x in c for x in ',"\n\r') or rng.random() < 0.1:
                f.append('"' + c.replace('"', '""') + '"')
            else:
                f.append(c)
        rows.append(",".join(f))
    return ("\n".join(rows) + ("\n" if rng.random() < 0.5 else "")).encode()


class Py_reader(mlio.DataReader):
    """Delivers prepared batches."""

    def __init__(self, schema, batches):
        super().__init__()
        self.schema, self.batches, self.i = schema, batches, 0

    def peek_example(self):
        return self.batches[self.i] if self.i < len(self.batches) else None

    def read_example(self):
        e = self.peek_example()
        self.i += 1
        return e

    def read_schema(self):
        return self.schema

    def reset(self):
        self.i = 0


class Stream(mlio.InputStream):
    """A stream implemented in Python; the background threads of the reader need the GIL to read it."""

    def __init__(self, data):
        super().__init__()
        self.data_, self.pos_, self.closed_ = data, 0, False

    def read(self, buf):
        b = memoryview(buf).cast("B")
        n = min(len(b), len(self.data_) - self.pos_)
        b[:n] = self.data_[self.pos_:self.pos_ + n]
        self.pos_ += n
        return n

    def seek(self, p):
        self.pos_ = min(p, len(self.data_))

    def close(self):
        self.closed_ = True

    @property
    def size(self):
        return len(self.data_)

    @property
    def position(self):
        return self.pos_

    @property
    def seekable(self):
        return True

    @property
    def closed(self):
        return self.closed_


class Store(mlio.DataStore):
    def __init__(self, data):
        super().__init__()
        self.data = data

    def open_read(self):
        return Stream(self.data)

    @property
    def id(self):
        return "python-store"

    def __repr__(self):
        return "<Store>"


def make_reader(c, form, cols, names, batch, rng):
    n = len(cols[0])
    if form == "py":
        attrs = [mlio.Attribute(x, mlio.DataType.STRING, (batch, 1)) for x in names]
        schema = mlio.Schema(attrs)
        out = []
        for k in range(0, n, batch):
            fs, pad = [], 0
            for col in cols:
                part = col[k:k + batch]
                pad = batch - len(part) if len(part) < batch and batch < 2 * n and c.index % 3 == 0 else 0
                fs.append(mlio.DenseTensor((len(part) + pad, 1), np.array(part + [""] * pad, dtype=object)))
            e = mlio.Example(schema, fs)
            e.padding = pad
            out.append(e)
            if rng.random() < 0.1:
                # All instances of a batch can be bad.
                k = rng.randint(1, 3)
                e = mlio.Example(schema, [mlio.DenseTensor((k, 1), np.array(["x y"] * k, dtype=object)) for _ in cols])
                e.padding = k
                out.insert(rng.randint(0, len(out)), e)
                c.count("examples with nothing but padding")
        return Py_reader(schema, out)
    leh = rng.choice([mlio.LastExampleHandling.NONE, mlio.LastExampleHandling.NONE, mlio.LastExampleHandling.PAD])
    data = csv_bytes(rng, cols) if form == "csv" else ("\n".join(cols[0]) + "\n").encode()
    store = Store(data) if rng.random() < 0.3 else mlio.InMemoryStore(data)
    c.observe("stores", type(store).__name__)
    prm = mlio.DataReaderParams([store], batch, num_prefetched_examples=rng.choice([0, 1, 2, 5]),
                                num_parallel_reads=rng.choice([0, 1, 3]), last_example_handling=leh)
    if form == "text":
        return mlio.TextLineReader(prm)
    return mlio.CsvReader(prm, mlio.CsvParams(default_data_type=mlio.DataType.STRING, header_row_index=None, column_names=names,
                                              dedupe_column_names=False, allow_quoted_new_lines=True))


def misuse(c):
    rng = c.rng
    k = c.index // 25 % 4
    c.describe(f"misuse {k}")
    prm = mlio.DataReaderParams([mlio.InMemoryStore(b"1,2\n3,4\n" if k else b"")], 2)
    if k == 0:
        exp, rd = StopIteration, mlio.CsvReader(prm, mlio.CsvParams(default_data_type=mlio.DataType.STRING, header_row_index=None))
    elif k == 1:
        exp, rd = RuntimeError, mlio.CsvReader(prm, mlio.CsvParams(default_data_type=rng.choice([mlio.DataType.FLOAT32, mlio.DataType.INT64]), header_row_index=None))
    elif k == 2:
        s = mlio.Schema([mlio.Attribute("a", mlio.DataType.STRING, (2, 3), sparse=True)])
        t = mlio.CooTensor((2, 3), np.array(["x"], dtype=object), [np.array([0]), np.array([1])])
        exp, rd = RuntimeError, Py_reader(s, [mlio.Example(s, [t])])
    else:
        exp, rd = mlio.MLIOError, mlio.CsvReader(mlio.DataReaderParams([mlio.File("/nonexistent/file.csv")], 2),
                                                 mlio.CsvParams(default_data_type=mlio.DataType.STRING, header_row_index=None))
    try:
        analyze_dataset(rd, set(), set())
    except exp:
        c.count("exceptions")
    else:
        violate("no-exception", "the dataset was analysed")
    c.nontrivial = True


def cardinality(c):
    """More distinct values than the estimator has registers."""
    rng = c.rng
    n = rng.choice([rng.randint(180000, 450000), rng.randint(850000, 1000000)]) if c.index > 130 else rng.randint(850000, 1000000)
    words = rng.random() < 0.5
    c.describe(f"cardinality of {n} values, words={words}")
    schema = mlio.Schema([mlio.Attribute("v", mlio.DataType.STRING, (n, 1))])
    vals = ["%s%d" % ("word " if words else "v", i * 7) for i in range(n)]
    k = n // 3 + 1
    rd = Py_reader(schema, [mlio.Example(schema, [mlio.DenseTensor((len(x), 1), np.array(x, dtype=object))]) for x in (vals[i:i + k] for i in range(0, n, k))])
    col = analyze_dataset(rd, set(), set()).columns[0]
    check(col.rows_seen == n, "rows-seen", f"{col.rows_seen} instead of {n}")
    for key, got in (("cardinality", col.estimate_string_cardinality()), ("vocab", col.estimate_string_vocab_cardinality())):
        check(near(got, n, 0.025 * n), key, f"{got} instead of about {n}")
    c.count("rows analysed", n)
    c.nontrivial = True


def run_case(c):
    rng = c.rng
    if c.index % 130 == 57:
        return cardinality(c)
    if c.index % 25 == 24:
        return misuse(c)
    form = rng.choice(["csv", "csv", "py", "text"])
    big = c.index % 40 == 7
    n = rng.choice([1, 2, 3, 7, 30, 120, 600]) if not big else rng.choice([4000, 12000, 25000])
    if c.thorough and big:
        n *= 4
    ncol = 1 if form == "text" else rng.randint(1, 4)
    kinds = [rng.choice(["int", "float", "word", "text", "mixed", "mixed", "empty", "blank", "special", "unique", "padded"]) for _ in range(ncol)]
    if big:
        kinds[0] = rng.choice(["unique", "float"])
    multi = form != "text"
    cols = []
    for k in kinds:
        pool = [make_cell(rng, k, multi) for _ in range(rng.choice([1, 2, 5, 50, n]))] if not big else None
        col = [rng.choice(pool) if pool else make_cell(rng, k, multi) for _ in range(n)]
        cols.append(col)
    if form == "text":
        # The text reader delivers blank lines too? It does not matter here.
        cols[0] = [x if x.strip(WS) else "word" for x in cols[0]]
    names = ["value"] if form == "text" else [rng.choice(["", "c", "col ", "ü"]) + str(i) for i in range(ncol)]
    null_like = {x for x in ("null", "None", "nil", "na", "N/A", "7", "straße") if rng.random() < 0.5}
    capture = {i for i in range(ncol + 1) if rng.random() < 0.6}
    max_capture = rng.choice([0, 1, 2, 5, 1000])
    batches = sorted({1 if n <= 600 else 50, rng.randint(1, max(1, n)), max(1, n // 2), n, n + rng.randint(1, 5)})
    if len(batches) > 3:
        batches = [batches[0], *rng.sample(batches[1:-1], 1), batches[-1]]
    c.describe(f"{form}: {n} rows of {kinds}, batch sizes {batches}, null-like {sorted(null_like)}, captured {sorted(capture)} up to {max_capture}")
    refs = [Ref(col, null_like, i in capture, max_capture) for i, col in enumerate(cols)]

    def judge(a, where):
        check(len(a.columns) == ncol, "columns", f"{where}: {len(a.columns)} columns")
        for i, (col, r) in enumerate(zip(a.columns, refs)):
            check(col.column_name == names[i], "column-name", f"{where}: {col.column_name!r} instead of {names[i]!r}")
            compare(col, r, f"{where}, column {i} ({kinds[i]})")
        c.count("columns compared", ncol)

    for b in batches:
        rd = make_reader(c, form, cols, names, b, rng)
        judge(analyze_dataset(rd, null_like, capture, max_capture), f"batch size {b}")
        c.count("rows analysed", n)
        if rng.random() < 0.3:
            rd.reset()
            judge(analyze_dataset(rd, null_like, capture, max_capture), f"batch size {b}, again")
    if c.index % 5 == 0:
        res, rds = [], [make_reader(c, form, cols, names, b, rng) for b in batches for _ in range(2)]
        ts = [threading.Thread(target=lambda r=r: res.append(analyze_dataset(r, null_like, capture, max_capture))) for r in rds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        check(len(res) == len(rds), "threads", "an analysis failed in another thread")
        for a in res:
            judge(a, "in parallel")
        c.count("parallel analyses", len(res))
    for i, r in enumerate(refs):
        c.observe("statistics", (r.numeric_count > 0, r.numeric_nan_count > 0, r.string_empty_count > 0, r.string_only_whitespace_count > 0,
                                 r.string_null_like_count > 0, r.overflow, len(r.captured) > 0, r.numeric_count != r.numeric_finite_count, kinds[i]))
    c.nontrivial = n > 1 and any(b < n for b in batches)


vp.main("C26", RULE, lambda t: 2500 if t else 260, run_case)
