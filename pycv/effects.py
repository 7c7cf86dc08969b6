"""Library contracts with effects: requests, loguru, locks, streams, and the encodings.

Effects on the outside world are events of a ghost trace, compared like any other state.
Texts, bytes and arbitrary objects are opaque terms; library functions are uninterpreted
except for the equations assumed here."""

import z3

from . import lib
from . import terms as T
from .ctx import PyExc
from .heap import ListRef, DictRef, Obj, ObjRec, Opaque
from .interp import EXC, LibFn
from .lib import CONTEXTS, FNS, OBJ_METHODS, SPECIAL_ATTR, VAL, fn, op_apply, uf, val_term
from .terms import INT, Num, Unsupported, b_not, is_z, lift, r_eq, r_le, zb, zi

EXC.update({
    "RequestException": "OSError", "HTTPError": "RequestException", "ConnectionError": "RequestException", "Timeout": "RequestException",
    "UnicodeError": "ValueError", "UnicodeEncodeError": "UnicodeError", "EOFError": "Exception",
    "BadGzipFile": "OSError", "UnpicklingError": "PickleError", "PickleError": "Exception", "error": "Exception",
})
EXC.setdefault("OSError", "Exception")


def obj_method(tag, *names):
    def deco(f):
        for n in names:
            OBJ_METHODS[tag, n] = f
        return f

    return deco


# ----------------------------------------------------------------- ghost state
def ghost(I, **fields):
    """Ghost state of the outside world: a trace of events and the state of library services."""
    I.heap.objs["ghost"] = ObjRec("ghost", {"trace": I.heap.new_list([]), "lock": lift(0), **fields})


def world(I):
    g = I.heap.objs.get("ghost")
    if g is None:
        raise Unsupported("an effect outside the verified functions")
    return g.fields


def trace(I):
    return I.heap.lists[world(I)["trace"].ref]


def event(I, *what):
    r = world(I)["trace"].ref
    I.heap.lists[r] = I.heap.lists[r] + [tuple(what)]
    return len(I.heap.lists[r])


# ----------------------------------------------------------------------- texts
STR_OPS = {}


def text(name, tag="str"):
    return Opaque(tag, z3.Const(name, VAL))


def applied(x, name):
    """(arguments) when a term is an application of an opaque operation."""
    t = x.term if isinstance(x, Opaque) else None
    if t is not None and z3.is_app(t) and t.decl().name() == "op:" + name:
        return t.children()
    return None


def strip_op(which):
    def f(I, s, chars=None):
        # strip = left of right, in one order
        if which == "strip":
            return STR_OPS["lstrip"](I, STR_OPS["rstrip"](I, s, chars), chars)
        a = applied(s, which)
        if a is not None and a[1].eq(val_term(chars)):
            return s
        if which == "rstrip":
            b = applied(s, "lstrip")
            if b is not None and b[1].eq(val_term(chars)):
                return STR_OPS["lstrip"](I, STR_OPS["rstrip"](I, Opaque("str", b[0]), chars), chars)
        return op_apply(which, s, chars, tag="str")

    return f


def case_op(which):
    def f(I, s):
        x = s
        while True:  # only the last change of case matters, for the texts considered
            for n in ("title", "upper", "lower", "capitalize", "casefold"):
                a = applied(x, n)
                if a is not None:
                    x = Opaque("str", a[0])
                    break
            else:
                break
        I.ctx.trust("str.title, upper, lower", "the last change of case decides")
        return op_apply(which, x, tag="str")

    return f


for _n in ("strip", "lstrip", "rstrip"):
    STR_OPS[_n] = strip_op(_n)
for _n in ("title", "upper", "lower", "capitalize", "casefold"):
    STR_OPS[_n] = case_op(_n)
for _n, _f in STR_OPS.items():
    OBJ_METHODS["str", _n] = _f


@obj_method("str", "encode")
def _encode(I, s, encoding="utf-8", errors="strict"):
    return to_bytes(I, s, encoding)


@obj_method("bytes", "decode")
def _decode(I, b, encoding="utf-8", errors="strict"):
    return to_text(I, b, encoding)


def to_bytes(I, s, enc):
    I.ctx.trust("text encodings", "known to the interpreter, compatible with ASCII; encoding undoes decoding of ASCII bytes; texts are encodable")
    a = applied(s, "decoded")
    if a is not None and a[1].eq(val_term(enc)):
        return Opaque("bytes", a[0])
    return op_apply("encoded", s, enc, tag="bytes")


def to_text(I, b, enc):
    I.ctx.trust("text encodings", "known to the interpreter, compatible with ASCII; encoding undoes decoding of ASCII bytes; texts are encodable")
    a = applied(b, "encoded")
    if a is not None and a[1].eq(val_term(enc)):
        return Opaque("str", a[0])
    return op_apply("decoded", b, enc, tag="str")


@fn("bytes")
def _bytes(I, v=b"", encoding=None, errors="strict"):
    if isinstance(v, (str, Opaque)) and (isinstance(v, str) or v.tag == "str"):
        if encoding is None:
            raise PyExc("TypeError")
        return to_bytes(I, v, encoding)
    if isinstance(v, (bytes, Opaque)):
        return v
    raise Unsupported("bytes")


@fn("str")
def _str(I, v=None, encoding=None, errors="strict"):
    if isinstance(v, str):
        return v
    if isinstance(v, Opaque) and v.tag == "str" and v.term is not None:
        return v
    if isinstance(v, Opaque) and v.tag == "bytes" and encoding is not None:
        return to_text(I, v, encoding)
    return Opaque("str", None)


FNS["repr"] = lambda I, v=None: Opaque("str", None)


@obj_method("str", "join")
def _join(I, sep, xs):
    it = I.iterate(xs)
    if is_z(it.n):
        raise Unsupported("join of a symbolic sequence")
    return joined(I, sep, [it.at(i) for i in range(int(it.n))])


def joined(I, sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i and sep != "":
            out.append(sep)
        out.append(p)
    return concat(out)


def pieces(x):
    if isinstance(x, str):
        return [x] if x else []
    a = applied(x, "concat")
    if a is None:
        return [x]
    return pieces(from_term(a[0])) + pieces(from_term(a[1]))


def from_term(t):
    n = str(t.decl().name()) if z3.is_app(t) else ""
    if n == "literal":
        return LITERALS[t.arg(0).as_long()]
    return Opaque("str", t)


def concat(parts):
    """Associated to the right, with adjacent literals merged."""
    if any(isinstance(p, Opaque) and p.term is None for p in parts):
        return Opaque("str", None)
    ps = []
    for p in parts:
        for q in pieces(p):
            if isinstance(q, str) and ps and isinstance(ps[-1], str):
                ps[-1] += q
            else:
                ps.append(q)
    if not ps:
        return ""
    r = ps[-1]
    for p in reversed(ps[:-1]):
        r = op_apply("concat", p, r, tag="str")
    return r


# literals are distinct constants
LITERALS = {}
F_LIT = uf("literal", INT, VAL)


def literal_term(a):
    for k, v in LITERALS.items():
        if v == a and type(v) is type(a):
            return F_LIT(k)
    LITERALS[len(LITERALS)] = a
    return F_LIT(len(LITERALS) - 1)


@T.pair_schema("literal")
def _distinct(a, b):
    return [a != b] if not a.arg(0).eq(b.arg(0)) else []


def truth_of(I, v):
    """Truth of an opaque text, bytes or object."""
    if v.tag in ("str", "bytes") and v.term is not None:
        return v.term != literal_term("" if v.tag == "str" else b"")
    return None


def none_if_false(I, v):
    """Where the receiver treats any false value as absent."""
    if v is None or isinstance(v, DictRef) and not I.heap.dicts[v.ref] or isinstance(v, str) and not v:
        return None
    if isinstance(v, Opaque) and v.term is not None:
        t = I.truth(v)
        if t is True:
            return v
        return Opaque(v.tag, z3.If(zb(t), v.term, val_term(None)), v.info)
    return v


# -------------------------------------------------------------------- requests
def send(I, method, url, params=None, data=None, headers=None, cookies=None, files=None, auth=None, timeout=None, allow_redirects=None, proxies=None, hooks=None, stream=None, verify=None, cert=None, json=None):
    I.ctx.trust("requests.request", "one request with these arguments, which may fail with a RequestException or answer; a method is compared without case")
    name = method.upper() if isinstance(method, str) else STR_OPS["upper"](I, method)
    extra = [cookies, files, hooks, stream, verify, cert]
    if any(x is not None and not (isinstance(x, Num) and x.conc and not x.re) for x in extra):
        event(I, "an option of the request the contract does not allow")
    redirect = True if allow_redirects is None else bool(I.truth(allow_redirects))
    n = event(I, "request", name, url, none_if_false(I, params), none_if_false(I, data), none_if_false(I, headers), none_if_false(I, auth), json, none_if_false(I, proxies), timeout, lift(redirect))
    if I.ctx.branch(z3.Bool(f"request {n} fails")):
        raise PyExc("RequestException")
    return Opaque("response", uf("response", INT, VAL)(zi(n)), {"truth": z3.Not(z3.Bool(f"reply {n} is an error")), "n": n})


@fn("requests.request", "requests.api.request")
def _request(I, method, url, **kw):
    return send(I, method, url, **kw)


for _m in ("get", "options", "head", "post", "put", "patch", "delete"):

    def _make(m):
        def f(I, url, *a, **kw):
            if m == "head" or m == "get" or m == "options":
                names = {"get": ["params"]}.get(m, [])
                if m == "head":
                    kw.setdefault("allow_redirects", lift(False))
            else:
                names = ["data", "json"] if m == "post" else ["data"]
            for n, x in zip(names, a):
                kw[n] = x
            return send(I, m, url, **kw)

        return f

    FNS["requests." + _m] = _make(_m)

CONTEXTS["response"] = lambda I, v: ((lambda: v), (lambda ex: False))


@obj_method("response", "raise_for_status")
def _raise_for_status(I, r):
    if I.ctx.branch(z3.Bool(f"reply {r.info['n']} is an error")):
        raise PyExc("HTTPError")
    return None


@obj_method("response", "close")
def _close(I, r):
    return None


# ------------------------------------------------------------- locks and loguru
@fn("threading.RLock", "threading.Lock")
def _rlock(I):
    return Opaque("lock", z3.Const("lock", VAL), {"truth": True})


def _acquire(I, v=None, *a, **k):
    w = world(I)
    w["lock"] = lift(w["lock"].re + 1)
    return lift(True)


def _release(I, v=None):
    w = world(I)
    if w["lock"].re < 1:
        raise PyExc("RuntimeError")
    w["lock"] = lift(w["lock"].re - 1)


def _unlock(I):
    _release(I)
    return False


CONTEXTS["lock"] = lambda I, v: ((lambda: (_acquire(I), v)[1]), (lambda ex: _unlock(I)))
OBJ_METHODS["lock", "acquire"] = _acquire
OBJ_METHODS["lock", "release"] = _release


def locked(I, what):
    g = I.heap.objs.get("ghost")
    if g is not None and getattr(I, "spec_mode", False) is False:
        I.ctx.oblige(f"lock held: {what}", g.fields["lock"].re >= 1, assume=False)


F_KNOWN, F_NO, F_NAME = uf("level_known", VAL, z3.BoolSort()), uf("level_no", VAL, INT), uf("level_name", VAL, VAL)


def level_of(I, name):
    I.ctx.trust("loguru.logger.level", "a level of this name with a number of at least zero, or ValueError when there is none of that name")
    if isinstance(name, Num):
        raise PyExc("TypeError")
    t = val_term(name)
    name = from_term(t)
    known = isinstance(name, str) and name in ("CRITICAL", "ERROR", "WARNING", "SUCCESS", "INFO", "DEBUG", "TRACE")
    if not known and not I.ctx.branch(F_KNOWN(t)):
        raise PyExc("ValueError")
    return level_value(t)


def level_value(t):
    return Opaque("level", uf("level", VAL, VAL)(t), {"attr:no": Num("i", F_NO(t)), "attr:name": from_term(t), "truth": True})


@T.schema("level_no")
def _no(a, t):
    out = [a >= 0]
    n = from_term(t)
    if isinstance(n, str):
        no = {"CRITICAL": 50, "ERROR": 40, "WARNING": 30, "SUCCESS": 25, "INFO": 20, "DEBUG": 10, "TRACE": 5}.get(n)
        if no is not None:
            out.append(a == no)
    return out


SPECIAL_ATTR["loguru.logger"] = lambda I: Opaque("logger", z3.Const("logger", VAL), {"truth": True})
FNS_CONST = {"loguru.logger": SPECIAL_ATTR["loguru.logger"]}


@obj_method("logger", "level")
def _level(I, lg, name, no=None, color=None, icon=None):
    if no is not None:
        raise Unsupported("a new level")
    return level_of(I, name)


@obj_method("logger", "add")
def _add(I, lg, sink, level=lift(10), **kw):
    locked(I, "logger.add")
    I.ctx.trust("loguru.logger.add", "the stream receives the entries from its level; a new identity greater than every earlier one")
    w = world(I)
    ok = I.truth(lib._hasattr(I, sink, "write")) if isinstance(sink, Opaque) else False
    if not I.ctx.branch(ok):
        raise PyExc("TypeError")
    lv = I.num(level) if isinstance(level, Num) else level_of(I, level).info["attr:no"]
    n = w["next"]
    w["next"] = Num("i", n.re + 1)
    I.heap.lists[w["sinks"].ref] = I.heap.lists[w["sinks"].ref] + [(n, sink, lv)]
    return n


@obj_method("logger", "remove")
def _remove(I, lg, identity=None):
    locked(I, "logger.remove")
    I.ctx.trust("loguru.logger.remove", "the stream of this identity receives nothing more; ValueError when there is none; every stream without an identity")
    w = world(I)
    xs = I.heap.lists[w["sinks"].ref]
    if identity is None:
        I.heap.lists[w["sinks"].ref] = []
        return None
    for i, x in enumerate(xs):
        if I.ctx.branch(r_eq(x[0].re, I.num(identity).re)):
            I.heap.lists[w["sinks"].ref] = xs[:i] + xs[i + 1 :]
            return None
    raise PyExc("ValueError")


def emit(I, name, no, message):
    w = world(I)
    for _, sink, lv in I.heap.lists[w["sinks"].ref]:
        if I.ctx.branch(r_le(lv.re, no.re)):
            event(I, "emit", sink, name, message)


@obj_method("logger", "log")
def _log(I, lg, level, message, *args, **kw):
    locked(I, "logger.log")
    I.ctx.trust("loguru.logger.log", "the entry, once, to every stream whose level it reaches; formatted only when given arguments")
    if args or kw:
        raise Unsupported("formatted entries")
    if isinstance(level, Num):
        raise Unsupported("entries of a numeric level")
    v = level_of(I, level)
    emit(I, v.info["attr:name"], v.info["attr:no"], message)


for _n in ("critical", "error", "warning", "success", "info", "debug", "trace"):
    OBJ_METHODS["logger", _n] = (lambda n: lambda I, lg, message, *a, **k: _log(I, lg, n.upper(), message, *a, **k))(_n)

for _n in ("stdout", "stderr"):
    SPECIAL_ATTR["sys." + _n] = (lambda n: lambda I: stream("sys." + n, True))(_n)


def stream(name, writes):
    """A stream; whatever can be written counts as true."""
    return Opaque("stream", z3.Const(name, VAL), {"truth": True if writes is True else z3.Or(zb(writes), z3.Bool(name + " is true")), "has:write": writes})


@fn("sys.exc_info")
def _exc_info(I):
    d = z3.Int("traceback depth")
    I.ctx.assume(d >= 0)
    return (None, None, traceback(d))


def traceback(d):
    """The remaining entries of a traceback, of finite length."""
    return Opaque("traceback", None, {"truth": d > 0, "depth": d, "none": d <= 0, "attr:tb_lineno": Opaque("str", None), "attr:tb_frame": Opaque("frame", None, {"attr:f_code": Opaque("code", None, {"attr:co_filename": Opaque("str", None)})})})


@fn("pathlib.Path", "pathlib.PurePath")
def _path(I, x):
    return Opaque("path", None, {"truth": True, "attr:name": Opaque("str", None), "attr:parts": (Opaque("str", None),)})


@fn("os.path.basename", "traceback.format_exc")
def _basename(I, *a, **k):
    return Opaque("str", None)


@fn("numpy.set_printoptions")
def _printoptions(I, **kw):
    return None


# ------------------------------------------------------------------- encodings
def bytes_op(f, g, tag_from, tag_to, why):
    """A pair of functions, g undoing f."""

    def forward(I, x, *a, **k):
        I.ctx.trust(f, why)
        return op_apply(f, x, tag=tag_to)

    def backward(I, x, *a, **k):
        I.ctx.trust(g, why)
        c = applied(x, f)
        if c is not None:
            return Opaque(tag_from, c[0])
        # anything else may or may not be valid
        if not I.ctx.branch(uf("valid:" + g, VAL, z3.BoolSort())(val_term(x))):
            raise PyExc("ValueError")
        return op_apply(g, x, tag=tag_from)

    return forward, backward


for _f, _g in (("b85encode", "b85decode"), ("b64encode", "b64decode"), ("b32encode", "b32decode"), ("b16encode", "b16decode")):
    FNS["base64." + _f], FNS["base64." + _g] = bytes_op("base64." + _f, "base64." + _g, "bytes", "bytes", "ASCII bytes; decoding undoes encoding")
FNS["gzip.compress"], _gunzip = bytes_op("gzip.compress", "gzip.decompress", "bytes", "bytes", "decompressing undoes compressing; a pickle is not a compressed stream")


@fn("gzip.decompress")
def _decompress(I, x):
    if applied(x, "pickle.dumps") is not None:
        raise PyExc("BadGzipFile")
    try:
        return _gunzip(I, x)
    except PyExc:
        raise PyExc("BadGzipFile")


@fn("pickle.dumps")
def _dumps(I, x, *a, **k):
    I.ctx.trust("pickle.dumps", "loading a pickle of a picklable instance returns an equal instance")
    return op_apply("pickle.dumps", x, tag="bytes")


@fn("pickle.loads")
def _loads(I, b, *a, **k):
    I.ctx.trust("pickle.dumps", "loading a pickle of a picklable instance returns an equal instance")
    c = applied(b, "pickle.dumps")
    if c is not None:
        return Opaque("instance", c[0])
    if not I.ctx.branch(uf("valid:pickle", VAL, z3.BoolSort())(val_term(b))):
        raise PyExc("UnpicklingError")
    return op_apply("pickle.loads", b, tag="instance")


@fn("io.BytesIO")
def _bytesio(I, initial_bytes=b""):
    return I.heap.new_obj("io.BytesIO", {"data": initial_bytes, "pos": lift(0)})


CONTEXTS["io.BytesIO"] = lambda I, v: ((lambda: v), (lambda ex: False))


def buffer(I, f):
    rec = I.heap.objs[f.oid]
    if rec.cls != "io.BytesIO":
        raise Unsupported("a file")
    return rec.fields


@fn("pickle.dump")
def _dump(I, x, file, *a, **k):
    b = buffer(I, file)
    if b["data"] != b"":
        raise Unsupported("a second write to a buffer")
    b["data"], b["pos"] = _dumps(I, x), lift(1)


@fn("pickle.load")
def _load(I, file, *a, **k):
    b = buffer(I, file)
    if b["pos"].re != 0:
        raise PyExc("EOFError")
    b["pos"] = lift(1)
    return _loads(I, b["data"])


@obj_method("io.BytesIO", "getvalue")
def _getvalue(I, f):
    return buffer(I, f)["data"]


@obj_method("io.BytesIO", "read")
def _read(I, f):
    b = buffer(I, f)
    if b["pos"].re != 0:
        return b""
    b["pos"] = lift(1)
    return b["data"]


@obj_method("io.BytesIO", "write")
def _write(I, f, data):
    b = buffer(I, f)
    if b["data"] != b"":
        raise Unsupported("a second write to a buffer")
    b["data"], b["pos"] = data, lift(1)


@obj_method("io.BytesIO", "seek")
def _seek(I, f, pos):
    if I.num(pos).re != 0:
        raise Unsupported("seek")
    buffer(I, f)["pos"] = lift(0)
    return lift(0)


@obj_method("io.BytesIO", "close")
def _bclose(I, f):
    return None


def _hash(name):
    def f(I, data=b"", **k):
        return I.heap.new_obj("hash", {"name": name, "data": data})

    return f


for _n in ("sha3_256", "sha3_512", "sha3_384", "sha3_224", "sha256", "sha1", "md5", "sha512", "blake2b", "blake2s", "sha224", "sha384"):
    FNS["hashlib." + _n] = _hash(_n)


@fn("hashlib.new")
def _new_hash(I, name, data=b"", **k):
    return _hash(name.lower())(I, data)


@obj_method("hash", "update")
def _update(I, h, data):
    f = I.heap.objs[h.oid].fields
    if f["data"] != b"":
        raise Unsupported("a second update")
    f["data"] = data


@obj_method("hash", "digest")
def _digest(I, h):
    f = I.heap.objs[h.oid].fields
    I.ctx.trust("hashlib", "the digest is a function of the algorithm and the bytes")
    return op_apply("digest:" + f["name"], f["data"], tag="bytes")


@obj_method("bytes", "hex")
def _hex(I, b):
    return op_apply("hex", b, tag="str")


@obj_method("hash", "hexdigest")
def _hexdigest(I, h):
    return _hex(I, _digest(I, h))


# ------------------------------------------------------------------- sklearn
GMM = {
    "precisions_": uf("gmm_precision", lib.SEQ, INT, INT, T.REAL, INT, INT, INT, T.REAL),
    "means_": uf("gmm_mean", lib.SEQ, INT, INT, T.REAL, INT, INT, T.REAL),
    "weights_": uf("gmm_weight", lib.SEQ, INT, INT, T.REAL, INT, T.REAL),
}


@fn("sklearn.mixture.GaussianMixture")
def _mixture(I, n_components=lift(1), covariance_type="full", tol=None, reg_covar=lift(1e-6), max_iter=lift(100), **kw):
    if kw or tol is not None or covariance_type != "full":
        raise Unsupported("options of a Gaussian mixture")
    return I.heap.new_obj("GaussianMixture", {"n_components": n_components, "covariance_type": covariance_type, "reg_covar": reg_covar.to("f"), "max_iter": max_iter})


@obj_method("GaussianMixture", "fit")
def _mixture_fit(I, g, X, y=None):
    if g.oid in I.heap.frozen:
        raise Unsupported("fit of an element of a symbolic list")
    I.ctx.trust("sklearn.mixture.GaussianMixture", "the estimate is a function of the observations and of the number of components, iterations and the regularisation (its random start held fixed)")
    f, (n, c) = I.snap(X), I.shape(X)
    I.heap.objs[g.oid].fields.update(mixture_estimate(I, I.heap.objs[g.oid].fields, n, c, f))
    return g


def mixture_estimate(I, p, n, c, f):
    s = T.seq([n, c], lambda i, j: [T.zr(f(i, j).to("f").re)])
    K = p["n_components"].re
    a = (s, zi(K), zi(p["max_iter"].re), T.zr(p["reg_covar"].re))
    P, M, W = GMM["precisions_"], GMM["means_"], GMM["weights_"]
    return {
        "precisions_": I.new((K, c, c), "f", lambda k, i, j: Num("f", P(*a, zi(k), zi(i), zi(j)))),
        "means_": I.new((K, c), "f", lambda k, i: Num("f", M(*a, zi(k), zi(i)))),
        "weights_": I.new((K,), "f", lambda k: Num("f", W(*a, zi(k)))),
    }
