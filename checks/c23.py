"""C23: requested TLS verification is enforced (real servers, real certificates)."""

import contextlib
import itertools
import os
import shutil
import sqlite3
import time

import pymysql
import psycopg2
import sqlalchemy as sa
import tls
import world as W
from c14 import Dir, cli
from c18 import PREFIX, environ
from explore import Fail, HarnessError
from servers import MySqlServer, PgServer

ID = "C23"
LEVEL = "exploration"
RULE = ("real PostgreSQL and MySQL servers presenting {no TLS, a certificate for the host, for another host, for the address, with the host only as common name, from another authority, expired, not yet "
        "certified chain with and without the intermediate, self-signed} x host given as name or address x side (source: plan; destination: sample) x TLS required {not given, no, yes} x verify {not given, "
        "none, cert, identity} x root certificate {none, the authority, another one, missing file} x every placement of the three in configuration or environment.  Oracle: connected iff the model "
        "says so, over TLS iff required.  Plus client certificates (presented; nothing weaker for it), values of verify that do not exist, every connection of a whole subset run, and chain graphs of authorities.")
ASSUMPTIONS = ["the system's certificate store does not contain the test authorities", "connections over TCP"]
BOUND = {"quick": "11 kinds of server x 2 engines x 2 sides x 2 hosts x 3 x 4 x 4 settings x 8 placements", "thorough": "the same, plus every combination on whole subset runs"}
TIMEOUT = 900
JOBS = 8

KINDS = ["plain", "good", "otherhost", "address", "cn", "otherca", "expired", "chain", "nochain", "selfsigned", "wildcard"]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for engine in ("postgres", "mysql"):
        for kind in KINDS:
            for side in "sd":
                out.append({"mode": "matrix", "kind": kind, "side": side, "engine": engine})
        for side in "sd":
            for kind in KINDS:
                out.append({"mode": "client", "kind": kind, "side": side, "engine": engine})
            out.append({"mode": "invalid", "side": side, "engine": engine})
            out.append({"mode": "run", "side": side, "deep": deep, "engine": engine})
    out.append({"mode": "nosupport", "engine": "sqlite"})
    return out


def run(ctx, sc):
    return globals()["run_" + sc["mode"]](ctx, sc)


def setup(ctx):
    c = ctx.certs = tls.Certificates()
    s = c.server
    s["good"] = c.issue("good", "one", "localhost", "DNS:localhost")
    s["otherhost"] = c.issue("otherhost", "one", "db.example", "DNS:db.example")
    s["address"] = c.issue("address", "one", "db", "IP:127.0.0.1")
    s["cn"] = c.issue("cn", "one", "localhost", "DNS:db.example")
    s["otherca"] = c.issue("otherca", "two", "localhost", "DNS:localhost")
    s["expired"] = c.issue("expired", "one", "localhost", "DNS:localhost", expired=True)
    s["wildcard"] = c.issue("wildcard", "one", "db", "DNS:*.localhost,DNS:*")
    c.issue("inter", "one", "Intermediate", "", is_ca=True)
    leaf = c.issue("leaf", "inter", "localhost", "DNS:localhost")
    s["nochain"] = leaf
    s["chain"] = (c.bundle("chain.pem", leaf[0], c.p("inter.crt")), leaf[1])
    s["selfsigned"] = c.self_signed("selfsigned", "localhost", "DNS:localhost")


# ---------------------------------------------------------------- servers


class Tls:
    """A server whose TLS settings can be changed while it runs."""

    def __init__(self, ctx, engine, plain=False):
        self.engine, self.certs = engine, ctx.certs
        self.server = PgServer() if engine == "postgres" else MySqlServer("--tls-version=") if plain else MySqlServer()
        self.kind = None
        self.n = 0
        s = self.server
        if engine == "postgres":
            conn = s.connect("postgres")
            cur = conn.cursor()
            cur.execute("CREATE DATABASE data")
            cur.execute("CREATE ROLE app LOGIN SUPERUSER")
            cur.execute("CREATE ROLE certapp LOGIN SUPERUSER")
            conn.close()
            with open(os.path.join(s.dir, "pg", "pg_hba.conf"), "w", encoding="utf-8") as f:
                f.write("host all postgres all trust\nhost all app all trust\nhostssl all certapp all trust clientcert=verify-ca\n")
            conn = s.connect("data")
        else:
            conn = s.connect()
            cur = conn.cursor()
            cur.execute("CREATE DATABASE test")
            cur.execute("CREATE DATABASE test_out")
            cur.execute("CREATE USER app@'%' IDENTIFIED BY ''")
            cur.execute("GRANT ALL ON *.* TO app@'%'")
            cur.execute("CREATE USER certapp@'%' IDENTIFIED BY '' REQUIRE X509")
            cur.execute("GRANT ALL ON *.* TO certapp@'%'")
        cur = conn.cursor()
        if engine == "postgres":
            cur.execute("CREATE SCHEMA test")
        cur.execute("CREATE TABLE test.a (id INT NOT NULL PRIMARY KEY, name VARCHAR(20))")
        cur.execute("CREATE TABLE test.b (id INT NOT NULL PRIMARY KEY, a_id INT REFERENCES test.a(id))")
        if engine == "mysql":
            cur.execute("CREATE TABLE test_out.a (id INT NOT NULL PRIMARY KEY, name VARCHAR(20))")
            cur.execute("CREATE TABLE test_out.b (id INT NOT NULL PRIMARY KEY, a_id INT)")
        conn.close()

    def _copy(self, path, name):
        dst = os.path.join(self.server.dir, f"{name}{self.n}")
        shutil.copyfile(path, dst)
        os.chmod(dst, 0o600)
        if os.getuid() == 0:
            os.chown(dst, self.server.uid, self.server.gid)
        return dst

    def set(self, kind):
        if kind == self.kind:
            return
        self.n += 1
        s = self.server
        if kind != "plain":
            cert, key = (self._copy(p, n) for p, n in zip(self.certs.server[kind], ("cert", "key")))
            ca = self._copy(self.certs.ca["one"], "ca")
        if self.engine == "postgres":
            conn = s.connect("postgres")
            cur = conn.cursor()
            if kind == "plain":
                cur.execute("ALTER SYSTEM SET ssl=off")
            else:
                cur.execute(f"ALTER SYSTEM SET ssl_cert_file='{cert}'")
                cur.execute(f"ALTER SYSTEM SET ssl_key_file='{key}'")
                cur.execute(f"ALTER SYSTEM SET ssl_ca_file='{ca}'")
                cur.execute("ALTER SYSTEM SET ssl=on")
            cur.execute("SELECT pg_reload_conf()")
            conn.close()
        else:
            conn = s.connect()
            cur = conn.cursor()
            if kind != "plain":
                cur.execute("SET GLOBAL ssl_cert=%s", (cert,))
                cur.execute("SET GLOBAL ssl_key=%s", (key,))
                cur.execute("SET GLOBAL ssl_ca=%s", (ca,))
                cur.execute("ALTER INSTANCE RELOAD TLS")
            conn.close()
        deadline = time.time() + 30
        while self.presented() != (None if kind == "plain" else self.fingerprint(self.certs.server[kind][0])):
            if time.time() > deadline:
                raise HarnessError(f"{self.engine} does not switch to {kind}")
            time.sleep(0.05)
        self.kind = kind

    @staticmethod
    def fingerprint(path):
        import ssl

        with open(path, encoding="ascii") as f:
            text = f.read()
        end = "-----END CERTIFICATE-----"
        return ssl.PEM_cert_to_DER_cert(text[text.index("-----BEGIN CERT"):text.index(end) + len(end)] + "\n")

    def presented(self):
        """The certificate the server presents (harness's own handshake)."""
        import socket
        import ssl
        import struct

        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
        with socket.create_connection(("127.0.0.1", self.server.port), timeout=10) as sock:
            if self.engine == "postgres":
                sock.sendall(struct.pack("!II", 8, 80877103))
                if sock.recv(1) != b"S":
                    return None
            else:
                body = b""
                head = sock.recv(4)
                size = head[0] | head[1] << 8 | head[2] << 16
                while len(body) < size:
                    body += sock.recv(size - len(body))
                at = body.index(b"\0", 1) + 1 + 4 + 8 + 1
                caps = struct.unpack("<H", body[at:at + 2])[0]
                if not caps & 0x800:
                    return None
                sock.sendall(b"\x20\x00\x00\x01" + struct.pack("<IIB23x", 0x0008AA00 | 0x200 | 0x8000, 1 << 24, 33))
            with ctx.wrap_socket(sock) as ssock:
                return ssock.getpeercert(True)


def server_of(ctx, engine, kind):
    """A server of that kind."""
    if not hasattr(ctx, "tls_servers"):
        ctx.tls_servers = {}
    # MySQL cannot turn TLS off while it runs
    key = (engine, engine == "mysql" and kind == "plain")
    if key not in ctx.tls_servers:
        ctx.tls_servers[key] = Tls(ctx, *key)
    t = ctx.tls_servers[key]
    t.set(kind)
    return t


@contextlib.contextmanager
def watching():
    """Record, for every database connection made to a server, whether it uses TLS (asking the server)."""
    seen = []

    def on_connect(dbapi_connection, _rec):
        if isinstance(dbapi_connection, psycopg2.extensions.connection):
            cur = dbapi_connection.cursor()
            cur.execute("SELECT ssl FROM pg_stat_ssl WHERE pid=pg_backend_pid()")
            seen.append(bool(cur.fetchall()[0][0]))
            cur.close()
            dbapi_connection.rollback()
        elif isinstance(dbapi_connection, pymysql.connections.Connection):
            cur = dbapi_connection.cursor()
            cur.execute("SHOW STATUS LIKE 'Ssl_cipher'")
            seen.append(bool(cur.fetchall()[0][1]))
            cur.close()
            dbapi_connection.rollback()

    sa.event.listen(sa.pool.Pool, "connect", on_connect)
    try:
        yield seen
    finally:
        sa.event.remove(sa.pool.Pool, "connect", on_connect)
        W.close_all()


PLANNER = {"select": ["test.a"], "targets": {"test.a": {"all": True}}}
PLAN = {"queries": {"test.a": {"statement": {"type": "select", "columns": ["id", "name"], "from": {"schema": "test", "table": "a"}}}}}


class Bench:
    def __init__(self, d, t, side):
        self.d, self.t, self.side = d, t, side
        self.main = d.file("main.db")
        self.other = d.file("other.db")
        if os.path.exists(self.other):
            os.unlink(self.other)
        con = sqlite3.connect(self.other)
        con.execute("CREATE TABLE a (id INTEGER NOT NULL PRIMARY KEY, name TEXT)")
        con.execute("CREATE TABLE b (id INTEGER NOT NULL PRIMARY KEY, a_id INTEGER REFERENCES a(id))")
        con.executemany("INSERT INTO a VALUES (?,?)", [(1, "x"), (2, "y")])
        con.executemany("INSERT INTO b VALUES (?,?)", [(1, 1)])
        con.commit()
        con.close()
        self.plan = d.file("plan.yaml", PLAN)

    def base(self, host, user="app"):
        out = {"dialect": self.t.engine, "host": host, "port": self.t.server.port, "username": user}
        if self.t.engine == "postgres":
            out["database"] = "data"
        return out

    def connect(self, settings, env, command=None):
        """-> (succeeded, list of whether each connection used TLS)"""
        if self.side == "s":
            conf = {"source": settings, "planner": PLANNER}
            args = ["plan"]
        else:
            remap = [{"search": r"^test\.", "replace": "test_out."}] if self.t.engine == "mysql" else []
            conf = {"source": {"dialect": "sqlite", "database": self.main, "sqlite_databases": {"test": self.other}, "ssl": {"require": False}}, "planner": PLANNER,
                    "sampler": {"output": {"mode": "database", "remap": remap, "conflict_strategy": "replace", **settings}}}
            args = ["sample", "-p", self.plan]
        conf = self.d.file("c.yaml", conf)
        with environ(env), watching() as seen:
            code, _ = cli("-c", conf, *args)
        return code == 0, list(seen)


def allowed(kind, host, verify, root):
    """The model: is a connection with TLS required to be made?  None: unspecified."""
    if kind == "plain":
        return False
    if verify == "none":
        # a root certificate that nothing asks to be used: libpq checks the chain against it, PyMySQL does not
        return True if root == "none" or root is None else None
    if root == "missing":
        return False
    if kind == "expired" or kind == "nochain":
        return False
    issuer = {"otherca": "two", "selfsigned": "self"}.get(kind, "one")
    if root != issuer:
        return False
    if verify == "cert":
        return True
    if kind in ("good", "otherca", "chain", "selfsigned"):
        return host == "localhost"
    if kind == "address":
        return host == "127.0.0.1"
    return False  # otherhost, cn, wildcard


def run_matrix(ctx, sc):
    t = server_of(ctx, sc["engine"], sc["kind"])
    prefix = PREFIX[sc["side"]]
    c = ctx.certs
    roots = {"none": None, "one": c.ca["one"], "two": c.ca["two"], "missing": c.p("no-such-file")}
    if sc["kind"] == "selfsigned":
        roots["self"] = c.server["selfsigned"][0]
    n, outcomes, made = 0, {}, 0
    with Dir() as d:
        b = Bench(d, t, sc["side"])
        for host, require, verify, root in itertools.product(("localhost", "127.0.0.1"), (None, False, True), (None, "none", "cert", "identity"), roots):
            for wr, wv, wc in itertools.product(("config", "env"), repeat=3):
                if (wv == "env" and verify is None) or (wc == "env" and root == "none") or (wr == "env" and require is not True) or (require is not True and (wv, wc) == ("config", "env")):
                    continue
                settings, env, ssl_ = b.base(host), {}, {}
                if require is not None:
                    if wr == "env":
                        env[prefix + "SSL_REQUIRE"] = "1"
                    else:
                        ssl_["require"] = require
                if verify:
                    if wv == "env":
                        env[prefix + "SSL_SERVER_VERIFY"] = verify
                    else:
                        ssl_.setdefault("server", {})["verify"] = verify
                if roots[root]:
                    if wc == "env":
                        env[prefix + "SSL_SERVER_ROOTCERT"] = roots[root]
                    else:
                        ssl_.setdefault("server", {})["rootcert"] = roots[root]
                if ssl_:
                    settings["ssl"] = ssl_
                ok, seen = b.connect(settings, env)
                n += 1
                text = f"{sc['engine']} server '{sc['kind']}', {host}, TLS settings {ssl_}, environment {env}"
                if ok and not seen:
                    raise Fail(f"{text}: the command succeeded without a connection")
                if require is not True:
                    if not ok:
                        raise Fail(f"{text}: TLS is not required, and connecting fails")
                    continue
                if not all(seen):
                    raise Fail(f"{text}: a connection without TLS is made")
                want = allowed(sc["kind"], host, verify or "none", root)
                if want is not None and bool(seen) != want:
                    raise Fail(f"{text}: {'connected' if seen else 'not connected'}, expected {'a connection' if want else 'none'}")
                if bool(seen) != ok:
                    raise Fail(f"{text}: connections made: {len(seen)}, command {'succeeded' if ok else 'failed'}")
                made += ok
                outcomes[f"{host} {verify} {root}"] = ok
    return {"n": n, "outcome": [sc["kind"], sc["engine"], sc["side"], sorted(outcomes.items())], "sample": {"connected": made, "kind": sc["kind"]}}


def run_client(ctx, sc):
    """The client certificate is presented, wherever it is configured, and does not weaken what is asked of the server."""
    t = server_of(ctx, sc["engine"], sc["kind"])
    prefix = PREFIX[sc["side"]]
    c = ctx.certs
    n, made = 0, 0
    with Dir() as d:
        b = Bench(d, t, sc["side"])
        choices = {None: (None, None), "one": c.client["one"], "two": c.client["two"]}
        good = sc["kind"] == "good"
        for user, conf, envc, verify, root, host in itertools.product(("app", "certapp"), choices, choices, ("none", "cert", "identity"), ("one", None, "two"), ("localhost", "127.0.0.1")):
            if not good and ((conf and envc) or "two" in (conf, envc)) or host != "localhost" and (root != "one" or user == "certapp"):
                continue
            settings, env = b.base(host, user), {}
            ssl_ = {"require": True, "server": {"verify": verify}}
            if root:
                ssl_["server"]["rootcert"] = c.ca[root]
            if conf:
                ssl_["client"] = dict(zip(("cert", "key"), choices[conf]))
            if envc:
                env[prefix + "SSL_CLIENT_CERT"], env[prefix + "SSL_CLIENT_KEY"] = choices[envc]
            settings["ssl"] = ssl_
            ok, seen = b.connect(settings, env)
            n += 1
            made += ok
            text = (f"{sc['engine']} server '{sc['kind']}', {host}, user {user}, client certificate {conf} in the configuration and {envc} in the environment, "
                    f"verify {verify}, root certificate {root}: {'connected' if ok else 'not connected'}, TLS {seen}")
            if not all(seen):
                raise Fail(text)
            server = allowed(sc["kind"], host, verify, root)
            if server is False and (ok or seen):
                raise Fail(text)
            used = conf or envc
            if server is None or (used == "two" and user == "app"):
                continue  # whether a server minds a certificate it does not need is its own business
            want = server and (used == "one" or (used is None and user == "app"))
            if ok != want:
                raise Fail(text)
    return {"n": n, "outcome": [sc["kind"], made], "nontrivial": made > 0 or sc["kind"] not in ("good", "chain", "cn")}


def run_invalid(ctx, sc):
    """A verification level that does not exist must never be taken for less than the strictest."""
    prefix = PREFIX[sc["side"]]
    n = 0
    with Dir() as d:
        for kind in ("plain", "otherhost", "otherca", "expired"):
            t = server_of(ctx, sc["engine"], kind)
            b = Bench(d, t, sc["side"])
            for value, where, root in itertools.product(("full", "Identity", "IDENTITY", "verify-full", "CERT", "required", "true", "1", " identity"), ("config", "env"), (None, ctx.certs.ca["one"])):
                settings, env = b.base("localhost"), {}
                ssl_ = {"require": True, "server": {}}
                if root:
                    ssl_["server"]["rootcert"] = root
                if where == "config":
                    ssl_["server"]["verify"] = value
                else:
                    env[prefix + "SSL_SERVER_VERIFY"] = value
                settings["ssl"] = ssl_
                ok, seen = b.connect(settings, env)
                n += 1
                if ok or seen:
                    raise Fail(f"{sc['engine']} server '{kind}', verify {value!r} ({where}), root certificate {'given' if root else 'not given'}: a connection is made")
    return {"n": n}


def run_run(ctx, sc):
    """Every connection of whole runs: all features that open connections or cursors of their own."""
    n, outcomes = 0, []
    for kind in ("plain", "good", "otherhost", "otherca") if sc["deep"] else ("good", "otherca"):
        t = server_of(ctx, sc["engine"], kind)
        for verify, root in itertools.product(("none", "cert", "identity"), (None, "one")):
            for sampler in ({}, {"compact": {"primary_keys": True}}, {"multiplicity": {"multiplier": 2}}, {"merge": True}):
                with Dir() as d:
                    b = Bench(d, t, sc["side"])
                    server = {"verify": verify}
                    if root:
                        server["rootcert"] = ctx.certs.ca[root]
                    net = {**b.base("localhost"), "ssl": {"require": True, "server": server}}
                    file = {"dialect": "sqlite", "database": b.main, "sqlite_databases": {"test": b.other}}
                    merge = {"merge": True} if sampler.get("merge") else {}
                    remap = []
                    conn = t.server.connect("data") if sc["engine"] == "postgres" else t.server.connect()
                    cur = conn.cursor()
                    out_schema = "test"
                    if sc["side"] == "d" and sc["engine"] == "mysql":
                        remap, out_schema = [{"search": r"^test\.", "replace": "test_out."}], "test_out"
                    for tab in ("b", "a"):
                        cur.execute(f"DELETE FROM {out_schema}.{tab}")
                    if sc["side"] == "s":
                        cur.execute("INSERT INTO test.a VALUES (1,'x'),(2,'y')")
                        cur.execute("INSERT INTO test.b VALUES (1,1)")
                        con = sqlite3.connect(b.other)
                        con.execute("DELETE FROM b")
                        con.execute("DELETE FROM a")
                        con.commit()
                        con.close()
                    conn.close()
                    conf = {"source": net if sc["side"] == "s" else file, "planner": {"select": ["test.*"], "targets": {"test.b": {"all": True}}},
                            "sampler": {**{k: v for k, v in sampler.items() if k != "merge"},
                                        "output": {"mode": "database", "remap": remap, **merge, **(file if sc["side"] == "s" else net)}}}
                    with environ({}), watching() as seen:
                        code, _ = cli("-c", d.file("c.yaml", conf), "subset", *([] if merge else ["--truncate"]))
                    n += 1
                    want = allowed(kind, "localhost", verify, root)
                    if not all(seen):
                        raise Fail(f"{sc['engine']} '{kind}' {verify} {root} {sampler}: one of {len(seen)} connections has no TLS")
                    if want is not None and (code == 0) != want:
                        raise Fail(f"{sc['engine']} '{kind}' {verify} {root} {sampler}: {'fails' if code else 'succeeds'}")
                    outcomes.append([kind, verify, root, len(seen)])
    return {"n": n, "outcome": outcomes}


def run_nosupport(ctx, sc):
    """Requiring TLS where there is none is an error."""
    n = 0
    with Dir() as d:
        path = d.file("x.db")
        con = sqlite3.connect(path)
        con.execute("CREATE TABLE a (id INTEGER NOT NULL PRIMARY KEY)")
        con.commit()
        con.close()
        for where, verify, dialect in itertools.product(("config", "env", "no"), (None, "none", "cert", "identity"), ("config", "env")):
            src, env = {"database": path}, {}
            if dialect == "config":
                src["dialect"] = "sqlite"
            else:
                env["SUBSET_SOURCE_DIALECT"] = "sqlite"
            if where == "config":
                src["ssl"] = {"require": True}
            elif where == "env":
                env["SUBSET_SOURCE_SSL_REQUIRE"] = "1"
            if verify:
                src.setdefault("ssl", {})["server"] = {"verify": verify}
            with environ(env):
                code, _ = cli("-c", d.file("c.yaml", {"source": src, "planner": {"select": ["main.a"], "targets": {"main.a": {"all": True}}}}), "plan")
            n += 1
            if (code == 0) != (where == "no"):
                raise Fail(f"sqlite with TLS required in {where}: the command {'fails' if code else 'succeeds'}")
    return {"n": n}
