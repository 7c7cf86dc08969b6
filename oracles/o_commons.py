"""Executable contracts of the commons."""

import copy
import hashlib
import http.server
import io
import json
import sys
import threading
import urllib.parse

import numpy

import o_filters as F
from oracle import Fail, Skip, close, raises, same, show

from diamondback.commons.log import Log
from diamondback.commons.rest_client import RestClient
from diamondback.commons.serial import Serial
from diamondback.models.diversity_model import DiversityModel
from diamondback.models.gaussian_model import GaussianModel
from diamondback.transforms.complex_transform import ComplexTransform
from diamondback.transforms.fourier_transform import FourierTransform
from diamondback.transforms.psd_transform import PsdTransform
from diamondback.transforms.wavelet_transform import WaveletTransform
from diamondback.transforms.z_transform import ZTransform


# ---------------------------------------------------------------------- serial
def text(g, n):
    pool = g.pick(["abc XYZ 019", "\x00\x01\x7f\n\t", "\u00e9\u00df\u03bb\u4e2d\u6587", "\U0001f600\U00010348 a"])
    return "".join(g.pick(pool) for _ in range(n))


def thing(g, depth=3):
    k = g.pick(["int", "float", "str", "bytes", "none", "bool", "array", "complex"] + (["list", "tuple", "dict", "set"] if depth else []))
    if k == "int":
        return int(g.pick([0, -1, 2 ** 70, int(g.rng.integers(-1000, 1000))]))
    if k == "float":
        return float(g.pick([g.value(), numpy.inf, -0.0]))
    if k == "str":
        return text(g, g.size(0, 30))
    if k == "bytes":
        return bytes(g.rng.integers(0, 256, size=g.size(0, 40)).astype(numpy.uint8))
    if k == "none":
        return None
    if k == "bool":
        return g.flag()
    if k == "array":
        return g.signal(g.size(0, 50), g.flag()).astype(g.pick([complex, float, int])) if g.flag(0.5) else g.real(6).reshape(2, 3)
    if k == "complex":
        return complex(g.value(), g.value())
    n = g.size(0, 6)
    if k == "list":
        return [thing(g, depth - 1) for _ in range(n)]
    if k == "tuple":
        return tuple(thing(g, depth - 1) for _ in range(n))
    if k == "set":
        return {int(v) for v in g.rng.integers(0, 99, size=n)}
    return {text(g, 3) + str(i): thing(g, depth - 1) for i in range(n)}


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, numpy.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(numpy.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    return a == b


def check_serial(g):
    x = thing(g)
    compress = g.flag()
    enc = g.pick(["utf-8", "utf-8", "ascii", "latin-1", "utf-16"])
    g.note(x=x, compress=compress, encoding=enc)
    if enc == "utf-16":
        enc = "utf-8"
    y = Serial.encode(x, compress, enc)
    if not isinstance(y, str):
        raise Fail(f"encoding is a {type(y).__name__}")
    z = Serial.decode(y, enc)
    if not equal(z, x):
        raise Fail(f"round trip gave {show(z)}")
    same(Serial.encode(x, compress, enc), y, "encoding again") if not compress else None
    if not equal(Serial.decode(Serial.encode(x)), x):
        raise Fail("round trip with the default arguments")
    s = text(g, g.size(1, 200))
    e = g.pick(["utf-8", "utf-16", "utf-8"])
    g.note(s=s, e=e)
    c = Serial.code(s, e)
    same(c, hashlib.sha3_256(s.encode(e)).hexdigest(), "code")
    same(Serial.code(s), hashlib.sha3_256(s.encode("utf-8")).hexdigest(), "code with the default encoding")
    raises(ValueError, lambda: Serial.code(""), "code of nothing")
    raises(ValueError, lambda: Serial.code("a", ""), "no encoding")
    raises(ValueError, lambda: Serial.decode(""), "decoding of nothing")
    raises(ValueError, lambda: Serial.decode(y, ""), "no encoding")
    raises(ValueError, lambda: Serial.encode(x, compress, ""), "no encoding")


# ------------------------------------------------------------------------- log
RANK = {"Trace": 5, "Debug": 10, "Info": 20, "Success": 25, "Warning": 30, "Error": 40, "Critical": 50}


class Sink:
    def __init__(self):
        self.lines = []

    def write(self, s):
        self.lines.append(s)

    def flush(self):
        pass


def check_log(g):
    """One handler, the newest stream; an entry appears once, and only at or above the level."""
    from loguru import logger

    # start as a fresh process would: no handler of an earlier case
    sinks = [Sink()]
    Log.stream(sinks[-1])
    level = g.pick(RANK)
    Log.level(level)
    script = []
    g.note(script=script, level=level)
    expect = [[]]
    for _ in range(g.size(1, 25)):
        op = g.pick(["write", "write", "write", "write", "level", "stream", "exception", "badlevel", "badwrite", "badstream"])
        name = g.pick(RANK)
        spell = g.pick([name, name.upper(), name.lower()])
        if op == "write":
            msg = "entry " + str(len(script)) + text(g, 3).replace("\n", "").replace("\x00", "").strip()
            msg = msg.replace("\t", "") + g.pick(["", "", " {x}", " {}", " <b>", " %s", " {0}", " </red>", "\\<a>"])
            script.append((op, spell, msg))
            Log.write(spell, msg)
            if RANK[name] >= RANK[level]:
                expect[-1].append((name, msg))
        elif op == "exception":
            script.append((op, spell))
            try:
                raise KeyError("reason")
            except KeyError as ex:
                Log.write(spell, ex)
            if RANK[name] >= RANK[level]:
                expect[-1].append((name, "Exception = KeyError"))
        elif op == "level":
            script.append((op, spell))
            Log.level(spell)
            level = name
        elif op == "stream":
            script.append((op,))
            sinks.append(g.pick([Sink(), Sink(), io.StringIO()]))
            expect.append([])
            Log.stream(sinks[-1])
        elif op == "badlevel":
            script.append((op,))
            raises(ValueError, lambda: Log.level("Loud"), "unknown level")
        elif op == "badwrite":
            script.append((op,))
            raises(ValueError, lambda: Log.write("Loud", "never"), "unknown level of an entry")
        else:
            script.append((op,))
            raises(ValueError, lambda: Log.stream(g.pick([None, 5, object()])), "stream without write")
    for s, want in zip(sinks, expect):
        out = s.getvalue() if isinstance(s, io.StringIO) else "".join(s.lines)
        lines = [ln for ln in out.split("\n") if ln.strip()]
        if len(lines) != len(want):
            raise Fail(f"{len(lines)} entries appeared, specified {len(want)}: {show(lines)}")
        for ln, (name, msg) in zip(lines, want):
            if msg not in ln:
                raise Fail(f"entry {ln!r}, specified {msg!r}")
            if name.upper() not in ln and False:
                raise Fail("level")
    if g.flag(0.1):
        contended(g)


def contended(g):
    """Concurrent use leaves one handler and loses or repeats no entry."""
    s = Sink()
    Log.stream(s)
    Log.level("Trace")

    def run(k):
        for i in range(20):
            Log.write("Info", f"thread {k} entry {i} end")

    ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    out = "".join(s.lines)
    for k in range(4):
        for i in range(20):
            if out.count(f"thread {k} entry {i} end") != 1:
                raise Fail(f"entry {i} of thread {k} appeared {out.count(f'thread {k} entry {i} end')} times")


# ------------------------------------------------------------------------ rest
class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do(self):
        n = int(self.headers.get("Content-Length") or 0)
        body = self.rfile.read(n) if n else b""
        self.server.seen.append((self.command, self.path, dict(self.headers), body))
        wait = self.server.wait
        if wait:
            self.server.gate.wait(wait)
        self.send_response(self.server.status)
        out = self.server.body if self.command != "HEAD" else b""
        self.send_header("Content-Length", str(len(out)))
        self.end_headers()
        try:
            self.wfile.write(out)
        except OSError:
            pass

    do_GET = do_PUT = do_POST = do_PATCH = do_DELETE = do_OPTIONS = do_HEAD = do


_server = []


def server():
    if not _server:
        s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        s.daemon_threads = True
        threading.Thread(target=s.serve_forever, daemon=True).start()
        _server.append(s)
    s = _server[0]
    s.seen, s.wait, s.status, s.body = [], 0, 200, b"reply"
    s.gate = threading.Event()
    return s


def check_rest(g):
    import requests

    s = server()
    base = f"http://127.0.0.1:{s.server_address[1]}"
    c = RestClient()
    same(c.url, "http://127.0.0.1:8080", "default url")
    path = g.pick(["", "", "/root", "/a/b"])
    c.url = g.pick(["", "/", "//"]) + base + path + g.pick(["", "/", "//"])
    same(c.url, base + path, "url without surrounding slashes")
    c.timeout = (5.0, 5.0)
    method = g.pick(["Get", "Put", "Post", "Patch", "Delete", "Options", "Head"])
    spell = g.pick([method, method.lower(), method.upper()])
    core = g.pick(["", "x", "x/y", "long/er/path", "v1.0/item"])
    api = g.pick(["", "/", "//"]) + core + g.pick(["", "/", "//"])
    item = g.pick([None, {"a": "1"}, {"k": "v w", "n": "2"}])
    head = g.pick([None, {"X-Test": "yes"}])
    kind = g.pick(["none", "data", "json"])
    data = {"none": None, "data": "body text", "json": None}[kind]
    js = {"none": None, "data": None, "json": {"p": [1, 2, {"q": None}]}}[kind]
    auth = g.pick([None, ("user", "pass")])
    s.status = g.pick([200, 200, 200, 201, 204, 400, 404, 500, 503])
    s.body = b"" if s.status == 204 else b"reply " + str(g.case).encode()
    g.note(url=c.url, method=spell, api=api, item=item, header=head, data=data, json=js, status=s.status)
    want = path + ("/" + core if core else "")
    if s.status >= 400:
        raises(requests.exceptions.HTTPError, lambda: c.request(spell, api, auth, head, item, data, js), f"status {s.status}")
    else:
        r = c.request(spell, api, auth, head, item, data, js)
        same(r.status_code, s.status, "status")
        if method != "Head":
            same(r.content, s.body, "content")
    same(len(s.seen), 1, "requests made")
    cmd, p, hs, body = s.seen[0]
    same(cmd, method.upper(), "method")
    u = urllib.parse.urlsplit(p)
    same(u.path, want or "/", "path")
    same(dict(urllib.parse.parse_qsl(u.query)), item or {}, "query")
    same(body, b"body text" if kind == "data" else json.dumps(js).encode() if kind == "json" else b"", "body") if kind != "json" else same(json.loads(body), js, "JSON body")
    if head:
        same(hs.get("X-Test"), "yes", "header")
    same("Authorization" in hs, auth is not None, "authorization")
    s.seen.clear()
    raises(ValueError, lambda: c.request(g.pick(["Fetch", "", "Trace"]), "x"), "unknown method")
    raises(ValueError, lambda: c.request("Post", "x", data="a", json={"b": 1}), "both data and JSON")
    same(s.seen, [], "requests made by rejected calls")
    s.status, s.body = 200, b""
    same(c.live, True, "live")
    same(s.seen[0][:2], ("HEAD", path or "/"), "request of live")
    if g.flag(0.2):
        s.seen.clear()
        c.proxy = {"http": base}
        c.url = "http://example.invalid/top"
        c.request("Get", "api")
        same(s.seen[0][1], "http://example.invalid/top/api", "request through the proxy")
        same(c.live, True, "live through the proxy")
        c.proxy = {}
    d = RestClient()
    d.url = "http://127.0.0.1:9"  # the discard port: refused
    d.timeout = 0.5
    same(d.live, False, "live of nothing")
    if g.flag(0.03):
        s.wait = 20
        c.url, c.timeout = base, 0.2
        raises(requests.exceptions.Timeout, lambda: c.request("Get", "slow"), "no reply in time")
        same(c.live, False, "live of a silent service")
        s.gate.set()
    same(RestClient().proxy, {}, "proxy of another client")


# ----------------------------------------------------------------- P26 isolation
def frozen(v):
    return copy.deepcopy(v)


def unchanged(v, was, what):
    if not equal(v, was):
        raise Fail(f"{what} was modified: {show(v)}, before {show(was)}")


def call(g, fn, *args):
    was = [frozen(a) for a in args]
    r = fn(*args)
    for i, (a, w) in enumerate(zip(args, was)):
        unchanged(a, w, f"argument {i}")
    return r


def tables():
    from diamondback.filters.derivative_filter import DerivativeFilter
    from diamondback.filters.integral_filter import IntegralFilter

    return {
        "derivative": DerivativeFilter.B,
        "integral": IntegralFilter.B,
        "wavelet": WaveletTransform.B,
        "complex": ComplexTransform.COEFFICIENT,
    }


TABLES = frozen(tables())


def scribble(*vs):
    """Overwrite arrays handed out or handed in."""
    for v in vs:
        if isinstance(v, tuple):
            scribble(*v)
        elif isinstance(v, numpy.ndarray) and v.flags.writeable and v.dtype.kind in "fci":
            v[...] = 77
        elif isinstance(v, list):
            v[:] = [55.0] * len(v)


def check_frame(g):
    kind = g.pick(["filter", "filter", "filter", "construct", "transform", "model"])
    g.note(kind=kind)
    if kind in ("filter", "construct"):
        make, c, unit = F.stateful(g)
        x = g.signal(g.size(1, 60), c)
        if unit == "unit":
            x = numpy.clip(x, -1, 1)
        if unit == "cfreq":
            x = numpy.exp(1j * numpy.cumsum(g.real(len(x))))
        x = x + 0j if c else x
        g.note(x=x)
        f, h, other = make(), make(), make()
        fx = g.form(x) if not c else numpy.array(x)
        y = call(g, f.filter, fx)
        keep = frozen(y)
        # nothing the caller holds is connected to the filter or to another filter
        scribble(fx)
        unchanged(y, keep, "a returned signal, through the argument,")
        u = f.filter(numpy.array(x))
        unchanged(y, keep, "a returned signal, by the next call,")
        scribble(y)
        h.filter(numpy.array(x))
        w = h.filter(numpy.array(x))
        for p, q in zip(u if isinstance(u, tuple) else (u,), w if isinstance(w, tuple) else (w,)):
            close(p, q, "second output", 1e-12, F.scale(q))
        v, r = other.filter(numpy.array(x)), make().filter(numpy.array(x))
        for p, q in zip(v if isinstance(v, tuple) else (v,), r if isinstance(r, tuple) else (r,)):
            close(p, q, "output of another instance", 1e-12, F.scale(q))
    elif kind == "transform":
        k = g.pick(["fourier", "inverse", "psd", "complex", "phases", "wavelet", "z", "polynomial", "polyphase", "window"])
        n = 2 * g.size(2, 30)
        x, b = g.form(g.signal(n, g.flag(0.3))), g.form(numpy.abs(g.real(n)) + 0.5)
        g.note(transform=k, x=x, b=b)
        if k in ("fourier", "inverse"):
            y = call(g, lambda p, q: FourierTransform.transform(p, q, k == "inverse"), x, b)
        elif k == "psd":
            y = call(g, lambda p, q: PsdTransform.transform(p, q, 1), x, b)
        elif k == "complex":
            y = call(g, lambda p: ComplexTransform.transform(p, g.flag()), numpy.asarray(x) + 0j)
        elif k == "phases":
            y = call(g, lambda p: ComplexTransform.transform(p, False), numpy.array([numpy.real(x)] * 3))
        elif k == "wavelet":
            st = g.pick(WaveletTransform.B)
            t = WaveletTransform(st, g.pick(WaveletTransform.B[st]))
            y = call(g, lambda p: t.transform(p, 1, g.flag()), g.form(numpy.real(x)))
        elif k == "z":
            p, q = numpy.poly([-1.0, -2.0, -0.5]) * 2, numpy.array([1.0, 3.0])
            y = call(g, lambda p, q: ZTransform.transform(p, q, 0.3, g.flag()), g.form(p), g.form(q))
        elif k == "polynomial":
            t = F.PolynomialRateFilter(1.3, g.pick([1, 2, 3]))
            y = call(g, t.filter, g.form(numpy.real(x)))
        elif k == "polyphase":
            t, t2 = F.PolyphaseRateFilter(1.25), F.PolyphaseRateFilter(1.25)
            bank = frozen(t.b)
            y = call(g, t.filter, g.form(numpy.real(x)))
            close(t2.filter(numpy.real(x)), y, "output of another instance", 1e-12, F.scale(y))
            unchanged(t2.b, bank, "the shared filter bank")
        else:
            t = F.WindowFilter(g.pick(F.WindowFilter.STYLE), n - 1, g.flag())
            y = call(g, t.filter, x)
        keep = frozen(y)
        scribble(x, b)
        unchanged(y, keep, "a returned signal, through the argument,")
    else:
        d = g.size(1, 4)
        x = g.real(d * g.size(4, 20)).reshape(-1, d)
        g.note(x=x)
        if g.flag():
            m, h = DiversityModel("Euclidean", 2), DiversityModel("Euclidean", 2)
            y = call(g, m.fit, x)
            keep = frozen(m.s)
            scribble(x, y)
            unchanged(m.s, keep, "the members, through the argument,")
            same(h.s.shape, (3, 0), "members of another instance")
        else:
            lab = g.rng.integers(0, 3, size=len(x))
            m, h = GaussianModel(0.3), GaussianModel(0.3)
            q = numpy.array(x[:3])
            call(g, m.fit, x, lab)
            p = call(g, m.predict, q)
            scribble(x, lab)
            same(m.predict(q).tolist(), p.tolist(), "prediction after the training data changed")
            raises(ValueError, lambda: h.predict(q), "predict of another instance before fit")
    # coefficients given to a filter are copied
    n = g.size(2, 10)
    a, b, s = F.stable(g, n, False), g.real(n), g.real(n)
    g.note(a=a, b=b, s=s)
    for mk in (lambda a, b, s: F.FirFilter(b=b, s=s), lambda a, b, s: F.IirFilter(a=a, b=b, s=s)):
        fa, fb, fs = numpy.array(a), numpy.array(b), numpy.array(s)
        f = call(g, mk, fa, fb, fs)
        h = mk(numpy.array(a), numpy.array(b), numpy.array(s))
        x = g.real(9)
        scribble(fa, fb, fs)
        close(f.filter(x), h.filter(x), "output after the coefficients given changed", 1e-12, F.scale(b) * F.scale(x, s) * 50)
    w = numpy.abs(g.real(5)) + 0.1
    z, z2 = numpy.array(w), g.real(11)
    f, h = call(g, lambda w: F.GoertzelFilter(w, 0.3), z), F.GoertzelFilter(numpy.array(w), 0.3)
    scribble(z)
    close(f.filter(z2), h.filter(z2), "output after the window given changed", 1e-12, F.scale(z2) * 5)
    unchanged(tables(), TABLES, "a coefficient table")


# ------------------------------------------------------------------ P27 rejection
def check_reject(g):
    """An invalid argument is rejected and changes nothing."""
    k = g.pick(["fir", "iir", "design", "design", "rate", "setters", "signal", "length", "pid", "goertzel", "diversity"])
    g.note(kind=k)
    bad_f = g.pick([0.0, 1.0, -0.1, 1.5])
    if k == "design":
        cls = g.pick([F.FirFilter, F.IirFilter])
        ok = dict(style=cls.STYLE[0], frequency=0.3, order=3, count=1)
        bad = g.pick([dict(style="Flat"), dict(style=""), dict(frequency=bad_f), dict(order=g.pick([0, -1])), dict(count=g.pick([0, -2]))])
        g.note(bad=bad)
        raises(ValueError, lambda: cls(**{**ok, **bad}), f"{cls.__name__} {bad}")
    elif k == "fir":
        raises(ValueError, lambda: F.FirFilter(b=[]), "no coefficients and no style")
        f, b, s, c = F.fir(g)
        rejected(f, lambda: f.filter([]), "empty signal")
        for n, q in ((0, 1), (-1, 1), (8, 0), (8, -1)):
            rejected(f, lambda: f.response(n, q), f"response({n}, {q})")
            rejected(f, lambda: f.delay(n, q), f"delay({n}, {q})")
        rejected(f, lambda: f.reset([1.0]), "reset of a sequence")
    elif k == "iir":
        a = F.stable(g, 4, False)
        a[0] = g.pick([1.0, -0.5, 1e-3])
        g.note(a=a)
        raises(ValueError, lambda: F.IirFilter(a=a, b=[1.0]), "a(0) other than zero")
        f, *_ = F.iir(g)
        rejected(f, lambda: f.filter([]), "empty signal")
        for n, q in ((0, 1), (-1, 1), (8, 0), (8, -1)):
            rejected(f, lambda: f.response(n, q), f"response({n}, {q})")
            rejected(f, lambda: f.delay(n, q), f"delay({n}, {q})")
        rejected(f, lambda: f.reset(numpy.zeros(1)), "reset of an array")
    elif k == "rate":
        for cls, top in ((F.PolynomialRateFilter, None), (F.PolyphaseRateFilter, 256)):
            f = cls(1.5)
            vals = [-0.1, -5.0] + ([top + 0.5, 1e4] if top else [])
            v = g.pick(vals)
            g.note(rate=v)
            raises(ValueError, lambda: cls(v), f"{cls.__name__}({v})")
            rejected(f, lambda: setattr(f, "rate", v), f"rate {v}")
            rejected(f, lambda: f.filter([]), "empty signal")
        raises(ValueError, lambda: F.PolynomialRateFilter(1.0, 0), "order 0")
    elif k == "setters":
        for f, nm, vals in (
            (F.ComplexBandpassFilter(0.1, 0.1), "frequency", [1.1, -1.5]),
            (F.ComplexBandpassFilter(0.1, 0.1), "rate", [1.1, -0.1]),
            (F.ComplexFrequencyFilter(0.1, 0.1), "frequency", [1.1, -1.5]),
            (F.ComplexFrequencyFilter(0.1, 0.1), "rate", [1.1, -0.1]),
            (F.ComplexExponentialFilter(0.5), "phase", [1.1, -1.5]),
            (F.GoertzelFilter([1.0, 1.0], 0.5), "frequency", [1.1, -1.5]),
            (F.PidFilter([1.0, 1.0, 1.0]), "limit", [-0.1]),
            (F.RankFilter(1, 3), "index", [-1, 4]),
        ):
            v = g.pick(vals)
            g.note(**{nm: v, "filter": type(f).__name__})
            rejected(f, lambda: setattr(f, nm, v), f"{type(f).__name__}.{nm} = {v}")
        for cls in (F.ComplexBandpassFilter, F.ComplexFrequencyFilter):
            for args in ((1.5, 0.1), (-1.5, 0.1), (0.1, -0.1), (0.1, 1.1)):
                raises(ValueError, lambda: cls(*args), f"{cls.__name__}{args}")
    elif k == "signal":
        for f in (F.ComplexBandpassFilter(0.1, 0.1), F.ComplexFrequencyFilter(0.1, 0.1), F.ComplexExponentialFilter(), F.RankFilter(1, 3), F.PidFilter([1.0, 0, 0]), F.GoertzelFilter([1.0, 1.0], 0.2), F.DerivativeFilter(1, 2), F.IntegralFilter(2)):
            rejected(f, lambda: f.filter(g.pick([[], numpy.zeros(0)])), f"{type(f).__name__} of an empty signal")
        f = F.ComplexExponentialFilter(0.25)
        rejected(f, lambda: f.filter(g.pick([[0.5, 1.5], [0.1, 0.2j], [-2.0]])), "signal outside [-1, 1]")
        f = F.ComplexFrequencyFilter(0.1, 0.1)
        rejected(f, lambda: f.reset(g.pick([[1.0], numpy.zeros(2)])), "reset of a sequence")
    elif k == "length":
        f = F.WindowFilter("Hann", 4)
        rejected(f, lambda: f.filter([0.0] * g.pick([0, 4, 6])), "signal of another length")
        raises(ValueError, lambda: F.WindowFilter("Boxcar", 4), "unknown style")
    elif k == "pid":
        raises(ValueError, lambda: F.PidFilter([1.0] * g.pick([0, 2, 4])), "coefficients other than three")
        raises(ValueError, lambda: F.RankFilter(*g.pick([(4, 3), (-1, 3)])), "index out of range")
    elif k == "goertzel":
        raises(ValueError, lambda: F.GoertzelFilter([1.0], g.pick([1.1, -1.1])), "frequency out of range")
        raises(ValueError, lambda: F.GoertzelFilter([0.0, 0.0], 0.1), "window of zeros")
        raises(ValueError, lambda: F.ComplexExponentialFilter(g.pick([1.1, -1.1])), "phase out of range")
    else:
        m = DiversityModel("Euclidean", 2)
        m.fit(g.real(10).reshape(5, 2))
        rejected(m, lambda: m.fit(numpy.zeros((2, 3))), "features of another length")
        rejected(m, lambda: m.fit(numpy.zeros(4)), "one dimensional observations")
        m = GaussianModel()
        x, y = g.real(12).reshape(6, 2), numpy.array([0, 0, 0, 1, 1, 1])
        m.fit(x, y)
        rejected(m, lambda: m.fit(x, y[:3]), "fewer classes than observations")
        rejected(m, lambda: m.fit(x[0], y[:1]), "one dimensional observations")
        rejected(m, lambda: setattr(m, "regularize", -1.0), "negative regularization")
        rejected(m, lambda: m.predict(numpy.zeros((2, 5))), "features of another length")


def state(f):
    return {k: (v if not hasattr(v, "__dict__") else state(v)) for k, v in vars(f).items() if not callable(v) or hasattr(v, "filter")}


def rejected(f, fn, what):
    was = frozen(state(f))
    raises(ValueError, fn, what)
    unchanged(state(f), was, f"state, by a rejected call ({what}),")


CHECKS = {"P23": check_serial, "P24": check_log, "P25": check_rest, "P26": check_frame, "P27": check_reject}
