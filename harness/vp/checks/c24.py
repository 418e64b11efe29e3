"""C24: tables are read and written completely, once and in order (spec: Tables.tla)."""
import copy
import datetime
import decimal
import json
import os
import random
import shutil
import tempfile

from vp import core
from vp.tlc import cfg, run_tlc, validate_traces


class Fault(Exception):
    """The failure underneath."""


WORDS = ["", "a", "l\nm", "é", "a,b", 'q"q', " lead", "trail ", "NULL", "NaN", "1.0", "true", "2020-01-01", "x" * 40, "'", ";", "\t", "0x1"]
NAMES = ["id", "x", "Value", "a b", "é", "select", 'q"', "c,d", "B"]


def kinds():
    import pyarrow as pa

    import mplang.edsl.typing as elt

    epoch = datetime.datetime(2020, 1, 1)
    return {
        "i64": (elt.i64, pa.int64(), lambda i: i * 7919 - (1 << 40)),
        "i32": (elt.i32, pa.int32(), lambda i: i * 3 - 1000),
        "i8": (elt.i8, pa.int8(), lambda i: i % 251 - 125),
        "u64": (elt.u64, pa.uint64(), lambda i: i * 12345678901 % (1 << 63)),
        "u16": (elt.u16, pa.uint16(), lambda i: i * 31 % 65521),
        "f64": (elt.f64, pa.float64(), lambda i: i / 7 - 3),
        "f32": (elt.f32, pa.float32(), lambda i: i / 4 - 3),
        "bool": (elt.bool_, pa.bool_(), lambda i: i % 3 == 0),
        "str": (elt.STRING, pa.string(), lambda i: WORDS[i % len(WORDS)] + (str(i) if i % 2 else "")),
        "ts": (elt.TIMESTAMP, pa.timestamp("ms"), lambda i: epoch + datetime.timedelta(milliseconds=i * 1009)),
        "date": (elt.DATE, pa.date64(), lambda i: (epoch + datetime.timedelta(days=i % 5000)).date()),
        "time": (elt.TIME, pa.time32("ms"), lambda i: (epoch + datetime.timedelta(milliseconds=i * 977)).time()),
        "dec": (elt.DECIMAL, pa.decimal128(38, 10), lambda i: decimal.Decimal(i * 13 - 50).scaleb(-3).quantize(decimal.Decimal(1).scaleb(-10))),
        "bin": (elt.BINARY, pa.binary(), lambda i: bytes([i % 256, 0, 255])),
    }


FITS = {"parquet": ["i64", "i32", "i8", "u64", "u16", "f64", "f32", "bool", "str", "ts", "date", "time", "dec", "bin"],
        "csv": ["i64", "i32", "i8", "u64", "u16", "f64", "f32", "bool", "str", "ts", "date", "time", "dec"],
        "json": ["i64", "i32", "i8", "u16", "bool", "f32"],
        "memory": ["i64", "i32", "f64", "bool", "str", "ts", "dec", "bin"]}


class Data:
    """Rows 1..n: a key column telling the row and others that follow from it."""

    def __init__(self, rng, n, fmt, taken=(), nulls=True):
        import pyarrow as pa

        K = kinds()
        self.n, self.rng = n, rng
        names = [x for x in NAMES if x not in taken]
        self.key = rng.choice(names)
        cols = [(self.key, "i64")]
        for name in rng.sample([x for x in names if x != self.key], rng.choice([0, 1, 2, 3]) if len(names) > 4 else 0):
            cols.append((name, rng.choice(FITS[fmt])))
        rng.shuffle(cols)
        self.cols = cols
        self.nulls = {c for c, k in cols if c != self.key and nulls and fmt in ("parquet", "memory") and rng.random() < 0.3}
        self.schema = pa.schema([pa.field(c, K[k][1]) for c, k in cols])
        self.K = K

    def value(self, c, k, i):
        if c in self.nulls and i % 4 == 1:
            return None
        return self.K[k][2](i)

    def arrays(self, first, last):
        import numpy as np
        import pyarrow as pa

        out = []
        for c, k in self.cols:
            if k == "i64" and c not in self.nulls:
                out.append(pa.array(np.arange(first, last + 1, dtype=np.int64) * 7919 - (1 << 40)))
            else:
                out.append(pa.array([self.value(c, k, i) for i in range(first, last + 1)], self.K[k][1]))
        return out

    def table(self, sizes=None):
        """The rows in one or more chunks."""
        import pyarrow as pa

        if sizes is None:
            sizes = divide(self.rng, self.n)
        at, cols = 0, [[] for _ in self.cols]
        if sizes == "ragged":
            # every column divided in its own way
            whole = self.arrays(1, self.n)
            chunked = []
            for a in whole:
                s, parts, at = divide(self.rng, self.n), [], 0
                for z in s:
                    parts.append(a.slice(at, z))
                    at += z
                chunked.append(pa.chunked_array(parts, a.type))
            return pa.Table.from_arrays(chunked, schema=self.schema)
        for z in sizes:
            for j, a in enumerate(self.arrays(at + 1, at + z)):
                cols[j].append(a)
            at += z
        return pa.Table.from_arrays([pa.chunked_array(c, f.type) for c, f in zip(cols, self.schema)], schema=self.schema)

    def runs(self, data):
        """Which rows these are, in order, as runs."""
        import numpy as np
        import pyarrow as pa

        if isinstance(data, pa.RecordBatch):
            data = pa.Table.from_batches([data])
        if data.num_rows == 0:
            return []
        k = data.column(self.key)
        if k.null_count:
            return [[-1, -1]]
        k = k.to_numpy()
        ids = (k + (1 << 40)) // 7919
        ok = (ids * 7919 - (1 << 40) == k) & (ids >= 1) & (ids <= self.n)
        for c, kind in self.cols:
            if c == self.key or c not in data.column_names:
                continue
            got = data.column(c)
            if len(got) <= 2000 or kind != "i64":
                exp = [self.value(c, kind, int(i)) for i in ids]
                v = got.to_pylist()
                same = [a == b and type(a) is type(b) or (type(b) is float and a is not None and abs(a - b) <= abs(b) * 1e-6 and kind == "f32") for a, b in zip(v, exp)]
                ok &= np.array(same)
            else:
                ok &= got.to_numpy() == ids * 7919 - (1 << 40)
        ids = np.where(ok, ids, -1)
        cut = np.flatnonzero((np.diff(ids) != 1) | (ids[1:] == -1))
        starts, ends = [0, *(cut + 1)], [*cut, len(ids) - 1]
        return [[int(ids[a]), int(ids[b])] for a, b in zip(starts, ends)]


def divide(rng, n):
    out = []
    while sum(out) < n:
        out.append(min(rng.choice([0, 1, 1, 2, 3, 4, 5, 7, max(1, n // 2), n]), n - sum(out)))
    if rng.random() < 0.2:
        out.append(0)
    return out


class Story:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.ev = []
        self.dir = tempfile.mkdtemp(prefix="vp-c24-")

    def add(self, e, **kw):
        self.ev.append({"e": e, "n": 0, "b": -1, "runs": [], "ns": [], "fail": False, "ok": False, "file": "none", "all": [], "same": True, **kw})

    def path(self, ext):
        return os.path.join(self.dir, f"f{len(os.listdir(self.dir))}{self.rng.choice(['', ' x', 'é', '.b'])}.{ext}")

    # ---------------------------------------------------------------- sources
    def put_file(self, d, fmt):
        """Rows in a file written by another writer."""
        import pyarrow.csv as pc
        import pyarrow.parquet as pq

        p = self.path({"parquet": self.rng.choice(["parquet", "pq"]), "csv": "csv", "json": self.rng.choice(["json", "jsonl"])}[fmt])
        t = d.table([d.n])
        if fmt == "parquet":
            pq.write_table(t, p, row_group_size=self.rng.choice([1, 2, 3, 1000]))
        elif fmt == "csv":
            pc.write_csv(t, p)
        else:
            with open(p, "w") as fh:
                for r in t.to_pylist():
                    fh.write(json.dumps(r) + "\n")
        return p

    def source(self, d, fmt, fail=None):
        """(TableReader over the rows of d, how) for a batch size."""
        import duckdb
        import pyarrow as pa

        from mplang.backends import table_impl as ti

        rng = self.rng
        if fmt != "memory":
            p = self.put_file(d, fmt)
            fs = list(d.schema)
            if rng.random() < 0.5:
                fs = [f for f in fs if f.name == d.key or rng.random() < 0.7]
                rng.shuffle(fs)
            return ti.FileTableSource(p, rng.choice([fmt, fmt.upper()]), pa.schema(fs))
        z = rng.random()
        if z < 0.45:
            return d.table()
        if z < 0.55 and d.n:
            return d.table("ragged")
        if z < 0.8:
            sizes = divide(rng, d.n)

            def gen():
                at = 0
                for s in sizes:
                    yield pa.RecordBatch.from_arrays(d.arrays(at + 1, at + s), schema=d.schema)
                    at += s
            return pa.RecordBatchReader.from_batches(d.schema, gen())
        if any(k in ("date", "time") for _, k in d.cols):
            return d.table()                # the query engine has other types for these
        conn = duckdb.connect()
        conn.register("t_", d.table())
        rel = conn.sql("select * from t_")
        return ti.QueryTableSource(rel, ti.DuckDBState(conn))

    # ---------------------------------------------------------------- reading
    def reading(self):
        from mplang.backends import table_impl as ti

        rng = self.rng
        fmt = rng.choice(["memory", "memory", "memory", "parquet", "csv", "json"])
        d = Data(rng, rng.choice([0, 1, 2, 3, 5, 8, 12, 20]) if fmt != "json" else rng.choice([1, 3, 8]), fmt)
        src = self.source(d, fmt)
        b = rng.choice([-1, 1, 2, 3, 4, 5, 7, 20, 50, max(1, d.n)])
        rd = src.open(b) if isinstance(src, ti.TableSource) else ti.TableReader(src, batch_size=b)
        if isinstance(src, ti.QueryTableSource) and b <= 0:
            b = -1
        self.add("open", n=d.n, b=b)
        stop = rng.choice([99, 99, 0, 1, 2])
        with rd:
            for _ in range(stop):
                try:
                    x = rd.read_next_batch() if rng.random() < 0.5 else next(rd)
                except StopIteration:
                    self.add("end")
                    break
                self.add("batch", runs=d.runs(x))
                if len(self.ev) > 60:
                    return
            else:
                self.add("rest", runs=d.runs(rd.read_all()))
                return
            for _ in range(rng.choice([0, 1])):
                try:
                    next(rd)
                    self.add("batch", runs=[[-1, -1]])
                except StopIteration:
                    self.add("end")

    # ---------------------------------------------------------------- writing
    def interp(self):
        import mplang.edsl  # noqa: F401
        from mplang.runtime.interpreter import Interpreter
        from mplang.runtime.object_store import FileSystemBackend, ObjectStore

        if self.rng.random() < 0.5:
            return Interpreter(), None
        root = os.path.join(self.dir, "store")
        os.makedirs(root, exist_ok=True)
        return Interpreter(store=ObjectStore(persistent=FileSystemBackend(root_path=root))), root

    def writing(self, big=None):
        import pyarrow as pa
        import pyarrow.csv as pc
        import pyarrow.parquet as pq

        from mplang.backends import table_impl as ti
        from mplang.dialects import table
        from mplang.edsl import typing as elt
        from mplang.runtime.interpreter import InterpObject

        rng = self.rng
        fmt = rng.choice(["parquet", "parquet", "csv", "json"]) if not big else "parquet"
        k = rng.choice([1, 1, 2, 2, 3]) if not big else 2
        n = rng.choice([0, 1, 3, 4, 6, 8, 12])
        ns = [n] * k
        if k > 1 and rng.random() < 0.4:
            ns[rng.randrange(k)] = rng.choice([0, 1, 2, 4, 6, 8, 12, n + 1])
        if big:
            ns = big
        if not big and hasattr(ti, "DEFAULT_BATCH_SIZE"):
            ti.DEFAULT_BATCH_SIZE = rng.choice([1, 2, 3, 4, 1000])
        ds, taken = [], []
        for m in ns:
            d = Data(rng, m, fmt, taken, nulls=fmt == "parquet")
            if big:
                d.cols, d.schema, d.nulls = [(d.key, "i64")], pa.schema([(d.key, pa.int64())]), set()
            taken += [c for c, _ in d.cols]
            ds.append(d)
        interp, root = self.interp()
        inside = rng.choice([None, None, None, None, "source", "writer", "close"]) if not big else None
        at, hit = rng.choice([0, 1, 2]), []
        args = []
        for d in ds:
            src = d.table() if big or rng.random() < 0.6 else self.source(d, "memory" if fmt != "parquet" or rng.random() < 0.5 else "parquet")
            if isinstance(src, pa.RecordBatchReader):
                src = src.read_all()
            if isinstance(src, ti.FileTableSource):
                src = ti.FileTableSource(src.path, src.format, d.schema)
            if inside == "source" and d is ds[-1]:
                src = failing(ti, pa, d, src, at, hit)
            t = elt.TableType({c: d.K[kind][0] for c, kind in d.cols})
            args.append(InterpObject(ti.TableValue(src), t, interp) if not isinstance(src, pa.Table) or any(kind == "dec" for _, kind in d.cols) or rng.random() < 0.8 else src)
        path = self.path(fmt)
        hint = "auto" if rng.random() < 0.4 else fmt
        # files the library names are relative to the working directory
        cwd = os.getcwd()
        os.chdir(self.dir)
        before = None
        rel = os.path.basename(path)
        if rng.random() < 0.4 and root:
            path = rel = rng.choice(["", "sub/"]) + rel
            target = os.path.join(root, rel)
        else:
            target = path
        if rng.random() < 0.2 and inside and not root:
            before = b"before"
            open(target, "wb").write(before)
        saved = pq.ParquetWriter, pc.CSVWriter
        if inside in ("writer", "close"):
            pq.ParquetWriter = faulty(pq.ParquetWriter, inside, at, hit)
            pc.CSVWriter = faulty(pc.CSVWriter, inside, at, hit)
        ok, why = True, ""
        try:
            with interp:
                table.write(args if len(args) > 1 or rng.random() < 0.5 else args[0], path, format=hint)
        except Exception as e:  # noqa: BLE001
            ok, why = False, repr(e)[:200]
        finally:
            pq.ParquetWriter, pc.CSVWriter = saved
            os.chdir(cwd)
        if inside and not hit:
            inside = None
        state = "none"
        got = None
        if os.path.exists(target):
            state = "partial"
            if before is not None and open(target, "rb").read() == before:
                state = "before"
            else:
                try:
                    got = self.look(target, fmt, ds)
                    if [d.runs(got.select([c for c, _ in d.cols])) for d in ds] == [[[1, d.n]] if d.n else [] for d in ds] and got.column_names == [c for d in ds for c, _ in d.cols]:
                        state = "complete"
                except Exception as e:  # noqa: BLE001
                    why += repr(e)[:200]
        elif any(f.endswith(os.path.basename(rel)) for _, _, fs in os.walk(os.path.join(self.dir, ".tmp")) for f in fs) and not ok:
            state = "partial"
        self.add("write", ns=ns, fail=bool(inside), ok=ok, file=state, why=why, fmt=fmt, how=[type(a.runtime_obj.unwrap() if hasattr(a, "runtime_obj") else a).__name__ for a in args])
        if state == "complete" and (fmt != "json" or ns[0]):
            self.back(interp, path, fmt, hint, ds, elt, table, ti)

    def look(self, target, fmt, ds):
        """The file as another reader sees it."""
        import pyarrow as pa
        import pyarrow.csv as pc
        import pyarrow.parquet as pq

        schema = pa.schema([f for d in ds for f in d.schema])
        if fmt == "parquet":
            return pq.ParquetFile(target).read()
        if fmt == "csv":
            return pc.read_csv(target, convert_options=pc.ConvertOptions(column_types=schema))
        rows = [json.loads(x) for x in open(target) if x.strip()]
        return pa.Table.from_pylist(rows, schema=schema)

    def back(self, interp, path, fmt, hint, ds, elt, table, ti):
        """Read through the library with declared columns and types."""
        rng = self.rng
        cols = [(c, k, d) for d in ds for c, k in d.cols]
        if rng.random() < 0.4:
            cols = [x for x in cols if x[0] == x[2].key or rng.random() < 0.6]
            rng.shuffle(cols)
        cwd = os.getcwd()
        os.chdir(self.dir)
        try:
            with interp:
                t = table.read(path, schema=elt.TableType({c: d.K[k][0] for c, k, d in cols}), format=hint if hint != "json" else "auto")
                got = t.runtime_obj.data
        finally:
            os.chdir(cwd)
        same = got.column_names == [c for c, _, _ in cols] and [f.type for f in got.schema] == [d.K[k][1] for _, k, d in cols]
        self.add("back", ns=[d.n for d in ds], all=[d.runs(got.select([c for c, _, e in cols if e is d])) for d in ds], same=same)

    def tell(self, big=None):
        try:
            if big:
                self.writing(big)
            else:
                for _ in range(self.rng.choice([1, 2, 3])):
                    self.reading() if self.rng.random() < 0.45 else self.writing()
            return {"ev": self.ev}
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def failing(ti, pa, d, src, at, hit):
    """A source whose reading fails after some batches."""
    class Failing(ti.TableSource):
        def register(self, conn, name, replace=True):
            raise NotImplementedError

        def open(self, batch_size=1000):
            def gen():
                step = max(1, d.n // 3)
                done = 0
                for k in range(at):
                    n = min(step, d.n - done)
                    yield pa.RecordBatch.from_arrays(d.arrays(done + 1, done + n), schema=d.schema)
                    done += n
                hit.append(1)
                raise Fault("the source failed")
            return ti.TableReader(pa.RecordBatchReader.from_batches(d.schema, gen()), batch_size=batch_size)
    return Failing()


def faulty(base, what, at, hit):
    """A file writer that fails at some batch or when it is closed."""
    class Writer(base):
        count = 0
        broken = False

        def _tick(self):
            if what == "writer":
                n, self.count = self.count, self.count + 1
                if n == at:
                    hit.append(1)
                    raise Fault("the disk is full")

        def write_batch(self, *a, **k):
            self._tick()
            return super().write_batch(*a, **k)

        def write_table(self, *a, **k):
            if base.__name__ == "CSVWriter":
                self._tick()
            return super().write_table(*a, **k)

        def close(self):
            super().close()
            if what == "close" and not self.broken:
                self.broken = True
                hit.append(1)
                raise Fault("the disk is full")
    Writer.__name__ = base.__name__
    return Writer


def run(chk):
    import mplang  # noqa: F401
    import mplang.backends  # noqa: F401

    inv = ("Ordered", "Sized", "Complete", "Refused", "NoPartial", "AsSpecified")
    k = {"MaxRows": chk.n(6, 8), "MaxChunks": chk.n(3, 4), "Sizes": "{1, 2, 3, 4}", "Bug": '"none"'}
    chk.spec_ok(run_tlc("MC_Tables", cfg(constants=k, invariants=inv), workers=8, timeout=3000, heap="8g"), "MC_Tables")
    for b in ("FirstChunk", "DropRemainder", "EofFirst", "StopEarly", "CloseWrites"):
        if run_tlc("MC_Tables", cfg(constants={**k, "MaxRows": 4, "MaxChunks": 2, "Bug": f'"{b}"'}, invariants=inv), workers=8).ok:
            raise RuntimeError(f"the model does not notice {b}")
    m = 1_000_000
    bigs = [[m + 3, m], [m, m + 3], [2 * m + 5, 2 * m + 5], [m, 2 * m]]
    if chk.thorough:
        bigs += [[m, m], [3 * m, 2 * m], [3 * m + 1, 3 * m + 1], [m - 1, m], [2 * m, m]]

    def job(i):
        seed = f"{chk.seed}-C24-{i}"
        return seed, Story(seed).tell(bigs[i] if i < len(bigs) else None)

    out = core.pmap(chk, job, range(chk.n(2500, 60000)), limit=200)
    batch = [t for _, t in out]
    r, acc, prog = validate_traces("Trace_Tables", batch)
    chk.tlc(r)
    chk.traces += len(acc)
    chk.count("histories", len(batch))
    for t in batch:
        for e in t["ev"]:
            chk.count(e["e"] + ("_failed" if e["e"] == "write" and not e["ok"] else ""))
    chk.sample(batch[-1])
    for i, (seed, t) in enumerate(out, 1):
        if i not in acc:
            at = prog.get(i)
            e = t["ev"][min(at, len(t["ev"])) - 1] if at else {"e": "history"}
            chk.violation(f"table:{e['e']}", {"seed": seed, "event": e, "before": t["ev"][max(0, (at or 1) - 6):at]})
    selftest(batch)


def selftest(batch):
    bad = []
    for t in batch:
        for e in ("batch", "rest", "write", "back"):
            k = next((j for j, x in enumerate(t["ev"]) if x["e"] == e and (x["runs"] or x["ok"] or x["all"] and x["all"][0])), None)
            if k is not None:
                c = copy.deepcopy(t)
                x = c["ev"][k]
                if e == "write":
                    x["file"] = "partial"
                elif e == "back":
                    x["all"][0][-1][1] -= 1
                else:
                    x["runs"][-1][0] += 1
                bad.append(c)
        k = next((j for j, x in enumerate(t["ev"]) if x["e"] == "batch" and x["runs"]), None)
        if k is not None:
            c = copy.deepcopy(t)
            del c["ev"][k]
            bad.append(c)
        if len(bad) > 40:
            break
    _, acc, _ = validate_traces("Trace_Tables", bad)
    if acc or len(bad) < 6:
        raise RuntimeError(f"a corrupted history was accepted: {len(acc)} of {len(bad)}")
