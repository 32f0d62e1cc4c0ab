"""Stand-ins for psycopg2, MySQLdb and pymongo, with the semantics of the servers which matter for a run store.

The SQL servers keep their committed data in an SQLite database in memory; every connection works on a copy:
MySQL (REPEATABLE READ) keeps the copy of the first statement of a transaction, PostgreSQL (READ COMMITTED) takes
a new one for each statement.  Statements which write are applied to the server at COMMIT.
"""
import datetime
import json
import re
import sqlite3
import sys
import types
import uuid
import zoneinfo


class Killed(BaseException):
    """The process dies here."""


class Steps:
    """Counts what a process asks its database; dies before step number `at` (1 is the next one)."""

    def __init__(self):
        self.at = 0
        self.hook = None

    def step(self):
        if self.hook:
            self.hook()
        if self.at:
            self.at -= 1
            if self.at == 0:
                self.at = 0
                raise Killed()


steps = Steps()


# ------------------------------------------------------------------ SQL servers

class Error(Exception):
    pass


class DataError(Error):
    pass


class ProgrammingError(Error):
    pass


class IntegrityError(Error):
    pass


class OperationalError(Error):
    pass


mem_connect = sqlite3.connect   # not the one which is watched


def _no_constant(c):
    raise ValueError("not JSON: " + c)


class Server:
    def __init__(self, kind):
        self.kind = kind
        self.image = None
        self.types = {}
        self.commits = 0

    def dump(self):
        return {"image": self.image.hex() if self.image else None, "types": self.types}

    def load(self, d):
        self.image = bytes.fromhex(d["image"]) if d["image"] else None
        self.commits = 1
        self.types = d["types"]

    def rows(self, table):
        """What is committed, with the times in seconds"""
        db = self.copy()
        try:
            if not db.execute("select 1 from main.sqlite_master where name = ?", (table,)).fetchone():
                return []
            out = [dict(r) for r in db.execute("select * from " + table)]
        finally:
            db.close()
        for r in out:
            for k in ("schedule_time", "start_time", "stop_time"):
                if r.get(k) is not None:
                    r[k] = datetime.datetime.strptime(r[k], "%Y-%m-%d %H:%M:%S.%f").replace(tzinfo=datetime.timezone.utc).timestamp()
        return out

    def version(self):
        return self.commits

    def copy(self):
        db = mem_connect(":memory:", isolation_level=None)
        db.row_factory = sqlite3.Row
        if self.image:
            db.deserialize(self.image)
        if self.kind == "pg":
            db.execute("pragma case_sensitive_like = on")
        db.execute("attach ':memory:' as information_schema")
        db.execute("create table information_schema.tables (table_name, table_catalog, table_schema, table_type)")
        for r in db.execute("select name from main.sqlite_master where type = 'table'").fetchall():
            db.execute("insert into information_schema.tables values (?, 'dsari', ?, 'BASE TABLE')", (r[0], "public" if self.kind == "pg" else "dsari"))
        db.create_function("current_database", 0, lambda: "dsari")
        db.create_function("database", 0, lambda: "dsari")
        return db


class Connection:
    cursor_factory = None

    def __init__(self, server, dict_rows=False):
        self.server = server
        self.log = []
        self.db = None
        self.failed = False
        self.dict_rows = dict_rows
        self.closed = 0
        self.autocommit = False

    def cursor(self, *a, **k):
        if self.closed:
            raise OperationalError("connection already closed")
        return Cursor(self)

    def view(self):
        if self.db is None or self.server.kind == "pg":
            self.db = self.server.copy()
            for sql, args in self.log:
                self.db.execute(sql, args)
        return self.db

    def commit(self):
        steps.step()
        if self.log and not self.failed:
            db = self.server.copy()
            for sql, args in self.log:
                db.execute(sql, args)
            db.execute("detach information_schema")
            self.server.image = db.serialize()
            self.server.commits += 1
        self.rollback()

    def rollback(self):
        self.log = []
        self.db = None
        self.failed = False

    def close(self):
        self.rollback()
        self.closed = 1

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        else:
            self.rollback()

    # the types of the columns
    def to_server(self, col, v):
        kind = self.server.kind
        t = self.server.types.get(col, "text")
        if isinstance(v, datetime.datetime):
            if v.tzinfo is not None:
                if kind == "pg":
                    # timestamptz -> timestamp: the local time of the session
                    v = v.astimezone(zoneinfo.ZoneInfo("Asia/Kolkata"))
                v = v.replace(tzinfo=None)
            if not t.startswith(("timestamp", "datetime", "text")):
                raise DataError("datetime for " + col)
            return v.strftime("%Y-%m-%d %H:%M:%S.%f") if v.year > 999 else "0" + v.strftime("%Y-%m-%d %H:%M:%S.%f")
        if v is None:
            return None
        if t.startswith(("timestamp", "datetime")):
            try:
                if isinstance(v, (int, float)):
                    raise ValueError
                d = datetime.datetime.fromisoformat(v)
            except ValueError:
                raise DataError("invalid input for %s: %r" % (col, v))
            return d.replace(tzinfo=None).strftime("%Y-%m-%d %H:%M:%S.%f")
        if t == "uuid":
            try:
                return str(uuid.UUID(v))
            except (ValueError, AttributeError, TypeError):
                raise DataError("invalid input syntax for type uuid: %r" % (v,))
        if t == "json":
            if isinstance(v, (dict, list)):
                raise ProgrammingError("can't adapt type %s" % type(v).__name__)
            try:
                json.loads(v, parse_constant=_no_constant)
            except ValueError:
                raise DataError("invalid input syntax for type json")
            return v
        m = re.match(r"(tiny|small|medium|big)?int(?:eger)?(?:\s*\(\d+\))?(\s+unsigned)?$", t)
        if m and isinstance(v, (int, float)):
            bits = {"tiny": 8, "small": 16, "medium": 24, "big": 64}.get(m.group(1), 32)
            if not (0 <= v < 1 << bits if m.group(2) else -(1 << bits - 1) <= v < 1 << bits - 1):
                raise DataError("out of range: %r" % v)
        m = re.match(r"(?:var)?char\((\d+)\)", t)
        size = {"tinytext": 255, "text": 65535, "mediumtext": 16777215}.get(t.split()[0])
        if kind == "mysql" and size and isinstance(v, str) and len(v.encode("utf-8")) > size:
            raise DataError("data too long: " + col)
        if m and len(v) > int(m.group(1)):
            raise DataError("data too long: " + col)
        if isinstance(v, (dict, list, tuple)):
            raise ProgrammingError("can't adapt type %s" % type(v).__name__)
        if kind == "pg" and isinstance(v, str) and "\0" in v:
            raise DataError("NUL in a string literal")
        return v

    def from_server(self, col, v):
        t = self.server.types.get(col, "text")
        if v is None:
            return None
        if t.startswith(("timestamp", "datetime")):
            return datetime.datetime.strptime(v, "%Y-%m-%d %H:%M:%S.%f")
        if t == "json":
            return json.loads(v)
        return v


class Row(dict):
    """psycopg2.extras.DictRow: by name and by number"""

    def __getitem__(self, k):
        if isinstance(k, int):
            return list(self.values())[k]
        return dict.__getitem__(self, k)

    def __iter__(self):
        return iter(self.values())


class Cursor:
    def __init__(self, conn):
        self.conn = conn
        self.rows = []
        self.rowcount = -1
        self.description = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def execute(self, sql, args=None):
        steps.step()
        conn, kind = self.conn, self.conn.server.kind
        if conn.closed:
            raise OperationalError("connection already closed")
        if conn.failed:
            raise ProgrammingError("current transaction is aborted, commands ignored until end of transaction block")
        try:
            self._execute(sql, args)
        except Error:
            if kind == "pg":
                conn.failed = True
            raise
        except sqlite3.IntegrityError as e:
            conn.failed = kind == "pg"
            raise IntegrityError(str(e))
        except sqlite3.Error as e:
            conn.failed = kind == "pg"
            raise ProgrammingError(str(e))

    def _execute(self, sql, args):
        conn, kind = self.conn, self.conn.server.kind
        args = [] if args is None else list(args)
        if re.search(r"\bin\s*\(\s*\)", sql, re.I):
            raise ProgrammingError("syntax error at or near \")\"")
        low = " ".join(sql.split())
        m = re.match(r"create table (?:if not exists )?(\w+) \((.*)\)\s*;?$", low, re.I)
        if m:
            for c in re.split(r",\s*(?![^(]*\))", m.group(2)):
                n, t = c.strip().split(None, 1)
                conn.server.types[n] = re.sub(r"\s+(not null|primary key|null|default .*|unique)", "", t, flags=re.I).strip().lower()
        # which column each parameter is for
        cols = []
        m = re.match(r"(?:insert|replace) (?:ignore )?into (\w+) \(([^)]*)\)", low, re.I)
        if m:
            cols = [c.strip() for c in m.group(2).split(",")]
        last = None
        pos = 0
        for m in re.finditer(r"(\w+)\s*(?:=|!=|<>|<=|>=|<|>|\bin\b)\s*\(?\s*(?=%s)|%s|%%", low, re.I):
            if m.group(1):
                last = m.group(1)
                continue
            if m.group(0) == "%%":
                continue
            if pos >= len(cols):
                cols.append(last)
            pos += 1
        if pos != len(args):
            raise ProgrammingError("%d placeholders for %d arguments" % (pos, len(args)))
        if "?" in re.sub(r"'[^']*'", "", sql):
            raise ProgrammingError("syntax error at or near \"?\"")
        sql = sql.replace("%s", "?").replace("%%", "%")
        sql = re.sub(r"\binsert ignore\b", "insert or ignore", sql, flags=re.I)
        sql = re.sub(r"\b(tiny|small|medium|big)?int(eger)?(\s*\(\d+\))?(\s+unsigned)?\b", "integer", sql, flags=re.I)
        if kind == "mysql" and re.match(r"\s*create table", sql, re.I):
            # text is compared without regard to case, unless the column is declared otherwise
            def collation(m):
                exact = re.search(r"\bbinary\b|_bin\b|_cs\b", m.group(0), re.I)
                rest = re.sub(r"\bbinary\b|\bcharacter set \w+|\bcharset \w+|\bcollate \w+", "", m.group(0), flags=re.I)
                return rest + ("" if exact else " collate nocase")
            sql = re.sub(r"(?<=[\s(])\w+\s+(?:(?:var)?char\s*\(\d+\)|(?:tiny|medium|long)?text)[^,)]*", collation, sql, flags=re.I)
        # a transaction per COMMIT, which is what the log is for
        if re.match(r"\s*(begin|start transaction|set)\b", sql, re.I):
            return
        if re.match(r"\s*commit\b", sql, re.I):
            return conn.commit()
        args = [conn.to_server(c, v) for c, v in zip(cols, args)]
        db = conn.view()
        cur = db.execute(sql, args)
        if not conn.log and "information_schema" in low.lower():
            conn.db = None   # not a consistent read, which starts the snapshot
        self.rowcount = cur.rowcount
        self.description = cur.description
        if not re.match(r"\s*(select|with|show)\b", sql, re.I):
            conn.log.append((sql, args))
            self.rows = []
            if re.match(r"\s*create\b", sql, re.I) and conn.server.kind == "mysql":
                conn.commit()   # DDL commits
        else:
            cls = Row if conn.server.kind == "pg" else dict
            self.rows = [cls((k, conn.from_server(k, r[k])) for k in r.keys()) for r in cur.fetchall()]
            if "order by" not in low.lower():
                # no order is promised; that of the primary key is usual
                self.rows.sort(key=lambda x: str(dict.get(x, "run_id") or ""))
            if not conn.dict_rows and not conn.cursor_factory:
                self.rows = [tuple(dict.values(r)) for r in self.rows]
        if conn.autocommit is True:
            conn.commit()

    def executemany(self, sql, seq):
        for args in seq:
            self.execute(sql, args)

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        r, self.rows = self.rows, []
        return r

    def fetchmany(self, size=1):
        r, self.rows = self.rows[:size], self.rows[size:]
        return r

    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)

    def close(self):
        pass


# ------------------------------------------------------------------ MongoDB

class InvalidDocument(Error):
    pass


class WriteError(Error):
    pass


class DuplicateKeyError(WriteError):
    pass


def _bson(v, depth=0):
    if depth > 100:
        raise WriteError("exceeded max nested object depth")
    if isinstance(v, datetime.datetime):
        if v.tzinfo is not None:
            v = v.astimezone(datetime.timezone.utc).replace(tzinfo=None)
        return v.replace(microsecond=v.microsecond // 1000 * 1000)
    if isinstance(v, dict):
        for k in v:
            if not isinstance(k, str) or "\0" in k:
                raise InvalidDocument("documents must have only string keys")
        return {k: _bson(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_bson(x, depth + 1) for x in v]
    if isinstance(v, int) and not isinstance(v, bool) and not -2 ** 63 <= v < 2 ** 63:
        raise OverflowError("MongoDB can only handle up to 8-byte ints")
    if isinstance(v, str):
        v.encode("utf-8")   # no lone surrogates
    if v is None or isinstance(v, (str, int, float, bool, bytes)):
        return v
    raise InvalidDocument("cannot encode object: %r" % (v,))


def _match(doc, q):
    for k, c in q.items():
        if k in ("$and", "$or", "$nor"):
            if {"$and": all, "$or": any, "$nor": lambda x: not any(x)}[k](_match(doc, x) for x in c):
                continue
            return False
        v = doc.get(k)
        if isinstance(c, dict) and any(o.startswith("$") for o in c):
            for o, a in c.items():
                a = _bson(a)
                if o == "$in":
                    if not isinstance(a, list):
                        raise OperationalError("$in needs an array")
                    ok = v in a
                elif o == "$nin":
                    ok = v not in a
                elif o == "$ne":
                    ok = v != a
                elif o == "$eq":
                    ok = v == a
                elif o in ("$gt", "$gte", "$lt", "$lte"):
                    ok = k in doc and {"$gt": v > a, "$gte": v >= a, "$lt": v < a, "$lte": v <= a}[o]
                elif o == "$not":
                    ok = not _match(doc, {k: a})
                elif o == "$exists":
                    ok = (k in doc) == bool(a)
                else:
                    raise OperationalError("unknown operator: " + o)
                if not ok:
                    return False
        elif v != _bson(c):
            return False
    return True


class MongoCursor:
    def __init__(self, coll, q):
        self.coll, self.q = coll, q
        self.order, self.n, self.docs = [], 0, None

    def sort(self, key, direction=None):
        self.order = list(key.items()) if isinstance(key, dict) else list(key) if isinstance(key, (list, tuple)) else [(key, direction or 1)]
        return self

    def limit(self, n):
        self.n = n
        return self

    def _get(self):
        steps.step()
        docs = [json_copy(d) for d in self.coll.docs if _match(d, self.q or {})]
        for k, d in reversed(self.order):
            docs.sort(key=lambda x: x[k], reverse=d < 0)
        return docs[:self.n] if self.n else docs

    def __getitem__(self, i):
        return self._get()[i]

    def __iter__(self):
        return self

    def __next__(self):
        # the documents of a cursor are read once
        if self.docs is None:
            self.docs = self._get()
        if not self.docs:
            raise StopIteration
        return self.docs.pop(0)

    next = __next__

    def clone(self):
        c = MongoCursor(self.coll, self.q)
        c.order, c.n = self.order, self.n
        return c

    def rewind(self):
        self.docs = None
        return self

    def batch_size(self, n):
        return self

    def to_list(self, length=None):
        return list(self)

    def close(self):
        self.docs = []


def json_copy(d):
    return {k: json_copy(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v for k, v in d.items()}


class Collection:
    def __init__(self):
        self.docs = []
        self.writes = 0

    def find(self, filter=None, projection=None, *a, sort=None, limit=0, **k):
        c = MongoCursor(self, filter).limit(limit)
        return c.sort(sort) if sort else c

    def find_one(self, *a, **k):
        return next(self.find(*a, **k).limit(1), None)

    def insert_many(self, docs, **k):
        for d in docs:
            self.insert_one(d)

    def insert_one(self, doc):
        steps.step()
        self.writes += 1
        doc.setdefault("_id", uuid.uuid4().hex)
        d = _bson(doc)
        if any(x["_id"] == d.get("_id", 0) for x in self.docs):
            raise DuplicateKeyError("duplicate key")
        d.setdefault("_id", doc["_id"])
        self.docs.append(d)

    def _delete(self, q, n):
        steps.step()
        self.writes += 1
        gone = [d for d in self.docs if _match(d, q)][:n]
        self.docs[:] = [d for d in self.docs if all(d is not g for g in gone)]
        return types.SimpleNamespace(deleted_count=len(gone), acknowledged=True)

    def delete_many(self, q):
        return self._delete(q, None)

    def delete_one(self, q):
        return self._delete(q, 1)

    def replace_one(self, q, doc, upsert=False):
        steps.step()
        self.writes += 1
        for i, d in enumerate(self.docs):
            if _match(d, q):
                self.docs[i] = dict(_bson(doc), _id=d["_id"])
                return
        if upsert:
            self.docs.append(dict(_bson(doc), _id=uuid.uuid4().hex))

    def update_one(self, q, u, upsert=False):
        steps.step()
        self.writes += 1
        for d in self.docs:
            if _match(d, q):
                d.update(_bson(u["$set"]))
                return
        if upsert:
            self.docs.append(dict(_bson(u["$set"]), _id=uuid.uuid4().hex))

    def count_documents(self, q):
        steps.step()
        return len([d for d in self.docs if _match(d, q)])

    def create_index(self, *a, **k):
        steps.step()


class MongoDB:
    def __init__(self):
        self.__dict__["c"] = {}

    def __getitem__(self, k):
        return self.c.setdefault(k, Collection())

    def __getattr__(self, k):
        return self[k]

    def get_collection(self, k, **o):
        return self[k]

    def list_collection_names(self):
        return list(self.c)


class MongoServer:
    kind = "mongo"

    def __init__(self):
        self.dbs = {}

    def dump(self):
        def one(d):
            return {k: {"$dt": v.isoformat()} if isinstance(v, datetime.datetime) else v for k, v in d.items()}
        return {n: {k: [one(d) for d in c.docs] for k, c in db.c.items()} for n, db in self.dbs.items()}

    def load(self, dump):
        for n, db in dump.items():
            self.dbs[n] = MongoDB()
            for k, docs in db.items():
                self.dbs[n][k].docs[:] = [{k: datetime.datetime.fromisoformat(v["$dt"]) if isinstance(v, dict) and list(v) == ["$dt"] else v for k, v in d.items()}
                                          for d in docs]

    def rows(self, table):
        def one(d):
            d = {k: v.replace(tzinfo=datetime.timezone.utc).timestamp() if isinstance(v, datetime.datetime) else v for k, v in d.items()}
            return dict(d, trigger_data=json.dumps(d["trigger_data"]), run_data=json.dumps(d["run_data"]))
        rows = [one(d) for db in self.dbs.values() for d in db[table].docs]
        if table == "runs_running":
            # there are no transactions: a run which is in the history has finished
            done = {d["run_id"] for db in self.dbs.values() for d in db["runs"].docs}
            rows = [r for r in rows if r["run_id"] not in done]
        return rows

    def version(self):
        return tuple(sum(c.writes for c in db.c.values()) for db in self.dbs.values())

    def client(self):
        s = self

        class MongoClient:
            def __init__(self, *a, **k):
                pass

            def __getitem__(self, n):
                return s.dbs.setdefault(n, MongoDB())

            def __getattr__(self, n):
                return self[n]

            def get_database(self, n, **o):
                return self[n]

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def close(self):
                pass
        return MongoClient


# ------------------------------------------------------------------ SQLite with steps

def sqlite_connect(real, timeout=None):
    class Cur(sqlite3.Cursor):
        def execute(self, *a, **k):
            steps.step()
            return sqlite3.Cursor.execute(self, *a, **k)

    class Conn(sqlite3.Connection):
        def cursor(self, factory=Cur):
            return sqlite3.Connection.cursor(self, factory)

        def execute(self, *a, **k):
            steps.step()
            return sqlite3.Connection.execute(self, *a, **k)

        def commit(self):
            steps.step()
            return sqlite3.Connection.commit(self)

    def connect(*a, **k):
        k.setdefault("factory", Conn)
        if timeout is not None:
            k["timeout"] = timeout
        return real(*a, **k)
    return connect


def install():
    """Make the drivers importable; returns the servers."""
    pg, my, mo = Server("pg"), Server("mysql"), MongoServer()

    m = types.ModuleType("psycopg2")
    m.extras = types.ModuleType("psycopg2.extras")
    m.extensions = types.ModuleType("psycopg2.extensions")

    class DictCursor:
        pass
    for n in ("DictCursor", "RealDictCursor"):
        setattr(m.extras, n, DictCursor)
    m.extras.register_uuid = lambda *a, **k: None
    m.extras.Json = json.dumps

    def pg_connect(dsn=None, **k):
        c = Connection(pg)
        c.cursor_factory = k.get("cursor_factory")
        return c
    m.connect = pg_connect
    for e in (Error, DataError, ProgrammingError, IntegrityError, OperationalError):
        setattr(m, e.__name__, e)
    m.DatabaseError = m.InterfaceError = m.InternalError = Error
    sys.modules.update({"psycopg2": m, "psycopg2.extras": m.extras, "psycopg2.extensions": m.extensions})

    m = types.ModuleType("MySQLdb")
    m.cursors = types.ModuleType("MySQLdb.cursors")
    m.cursors.DictCursor = DictCursor
    m.cursors.Cursor = object
    m.connect = lambda **k: Connection(my, k.get("cursorclass") is DictCursor)
    for e in (Error, DataError, ProgrammingError, IntegrityError, OperationalError):
        setattr(m, e.__name__, e)
    m.MySQLError = m.DatabaseError = m.InterfaceError = Error
    sys.modules.update({"MySQLdb": m, "MySQLdb.cursors": m.cursors})

    m = types.ModuleType("pymongo")
    m.MongoClient = mo.client()
    m.DESCENDING, m.ASCENDING = -1, 1
    m.errors = types.ModuleType("pymongo.errors")
    m.errors.PyMongoError = Error
    for e in (InvalidDocument, WriteError, DuplicateKeyError, OperationalError):
        setattr(m.errors, e.__name__, e)
    m.errors.OperationFailure = m.errors.BSONError = Error
    m.database, m.collection = types.ModuleType("pymongo.database"), types.ModuleType("pymongo.collection")
    m.database.Database, m.collection.Collection = MongoDB, Collection
    sys.modules.update({"pymongo.database": m.database, "pymongo.collection": m.collection})
    b = types.ModuleType("bson")
    b.errors = types.ModuleType("bson.errors")
    b.errors.BSONError = Error
    b.errors.InvalidDocument = InvalidDocument
    sys.modules.update({"bson": b, "bson.errors": b.errors})
    sys.modules.update({"pymongo": m, "pymongo.errors": m.errors})
    return pg, my, mo
