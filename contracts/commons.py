"""RestClient, Log and Serial: what they send, emit and encode, as events of a ghost trace
and terms over the assumed library functions."""

from pycv import effects as E
from pycv import lib
from pycv.contract import Lemma
from pycv.ctx import PyExc
from pycv.lib import val_term
from pycv.std import *  # noqa
from pycv.std import T


def text(name):
    return E.text(name)


def maybe(name, tag="val"):
    """An arbitrary value, true or false, or None."""
    return Opaque(tag, z3.Const(name, lib.VAL), {"truth": z3.Bool(name + " is true")})


# ------------------------------------------------------------------ RestClient
METHODS = ("Delete", "Get", "Head", "Options", "Patch", "Post", "Put")
REST = "diamondback.commons.rest_client"


def client(I):
    E.ghost(I)
    return sym_obj(I, "RestClient", {"proxy": maybe("proxy"), "timeout": maybe("timeout"), "url": text("url")})


class Request(Contract):
    """One request, exactly as asked; the reply, or the failure of the request or the reply."""

    qual = "RestClient.request"
    modulename = REST

    def configs(self):
        def setup(method, given):
            def f(I):
                kw = {"auth": None, "header": None, "item": None, "data": None, "json": None}
                for n in given:
                    kw[n] = maybe(n)
                return [client(I)], {"method": method, "api": text("api"), **{n: v for n, v in kw.items() if v is not None or not given}}

            return f

        out = {"any method, all": setup(text("method"), ["auth", "header", "item", "data", "json"]), "any method, none": setup(text("method"), [])}
        for m in ("get", "POST", "Head", "trace", ""):
            out[repr(m)] = setup(m, ["auth", "header", "item", "data", "json"])
        return out

    def spec(self, I, env):
        o, m = env["self"], env["method"]
        title = m.title() if isinstance(m, str) else E.STR_OPS["title"](I, m)
        if not I.ctx.branch(b_or(*[I.equal(title, x) for x in METHODS])):
            raise_("ValueError")
        truth = lambda v: False if v is None else I.truth(v)  # noqa
        if I.ctx.branch(b_and(truth(env["data"]), truth(env["json"]))):
            raise_("ValueError")
        api = E.STR_OPS["strip"](I, env["api"], "/")
        url = get(I, o, "url")
        if I.ctx.branch(truth(api)):
            url = E.concat([url, "/", api])
        r = E.send(I, title, url, params=env["item"], data=env["data"], headers=env["header"], auth=env["auth"], json=env["json"], proxies=get(I, o, "proxy"), timeout=get(I, o, "timeout"))
        E._raise_for_status(I, r)
        return r


class Live(Contract):
    """Whether the address answers a request for its head."""

    qual = "RestClient.live"
    modulename = REST

    def configs(self):
        return {"": lambda I: ([client(I)], {})}

    def spec(self, I, env):
        o = env["self"]
        try:
            E.send(I, "head", get(I, o, "url"), proxies=get(I, o, "proxy"), timeout=get(I, o, "timeout"))
        except PyExc:
            return lift(False)
        return lift(True)


class RestInit(Contract):
    qual = "RestClient.__init__"
    modulename = REST

    def configs(self):
        return {"": lambda I: ([sym_obj(I, "RestClient", {})], {})}

    def spec(self, I, env):
        o = env["self"]
        put(I, o, "proxy", I.heap.new_dict({}))
        put(I, o, "timeout", (lift(10.0), lift(60.0)))
        put(I, o, "url", "http://127.0.0.1:8080")
        return None


class RestSet(Contract):
    """A property keeps the value it is given."""

    modulename = REST
    field = None

    @property
    def qual(self):
        return f"RestClient.{self.field}.setter"

    def configs(self):
        return {"": lambda I: ([client(I), maybe("new")], {})}

    def value(self, I, v):
        return v

    def spec(self, I, env):
        v = [env[n] for n in env if n != "self"][0]
        put(I, env["self"], self.field, self.value(I, v))
        return None


class Proxy(RestSet):
    field = "proxy"


class Timeout(RestSet):
    field = "timeout"


class Url(RestSet):
    """An address without slashes at its ends."""

    field = "url"

    def configs(self):
        return {"text": lambda I: ([client(I), text("new")], {}), "none": lambda I: ([client(I), None], {})}

    def value(self, I, v):
        if v is None or not I.ctx.branch(I.truth(v)):
            return v
        return E.STR_OPS["strip"](I, v, "/")


# ------------------------------------------------------------------------- Log
LOG = "diamondback.commons.log"


def log(I, selected):
    """The state of Log and of loguru: before a stream was selected, or after."""
    c = I.prog.classes["Log"]
    for n in ("_level", "_identity", "_rlock"):
        I.class_attr(c, n)
    nxt, ident = z3.Int("next identity"), z3.Int("identity")
    rec = I.class_obj(c)
    I.ctx.assume(z3.And(nxt >= 1, ident >= 1, ident < nxt))
    sinks = []
    if selected == "stream":
        rec.fields["_identity"] = Num("i", ident)
        sinks = [(Num("i", ident), E.stream("current", True), lift(0))]
    elif selected == "default":
        sinks = [(lift(0), E.stream("sys.stderr", True), lift(10))]
    rec.fields["_level"] = E.level_value(z3.Const("active", lib.VAL))
    E.ghost(I, sinks=I.heap.new_list(sinks), next=Num("i", nxt), guarded=("_level", "_identity"))
    return c


def select(I, c, s):
    """The stream replaces the one before."""
    w = E.world(I)
    n = w["next"]
    w["next"] = Num("i", n.re + 1)
    I.heap.lists[w["sinks"].ref] = [(n, s, lift(0))]
    I.class_obj(c).fields["_identity"] = n


class LogClass(Lemma):
    """Before anything is selected the active level is Info, and there is no stream of Log's."""

    name = "initial state of Log"
    modules = (LOG,)

    def run(self, I):
        c = I.prog.classes["Log"]
        lv = I.class_attr(c, "_level")
        I.ctx.oblige("level", lv.term == E.level_value(val_term("INFO")).term if isinstance(lv, Opaque) and lv.tag == "level" else False)
        n = I.class_attr(c, "_identity")
        I.ctx.oblige("no stream", r_eq(n.re, 0) if isinstance(n, Num) else False)
        k = I.class_attr(c, "_rlock")
        I.ctx.oblige("lock", isinstance(k, Opaque) and k.tag == "lock")


class LogLevel(Contract):
    """The active level is the level of this name, in any case."""

    qual = "Log.level"
    modulename = LOG

    def configs(self):
        def setup(sel, level):
            return lambda I: ([log(I, sel), level], {})

        return {"any": setup("stream", text("level")), "default": setup("default", text("level")), "'Debug'": setup("none", "Debug"), "not a text": setup("stream", lift(3))}

    def spec(self, I, env):
        v = env["level"]
        if isinstance(v, Num):
            raise_("ValueError")
        t = E.STR_OPS["upper"](I, v) if isinstance(v, Opaque) else v.upper()
        I.class_obj(env["cls"]).fields["_level"] = E.level_of(I, t)
        return None


class LogStream(Contract):
    """Entries go to this stream and no other."""

    qual = "Log.stream"
    modulename = LOG

    def configs(self):
        def setup(sel, s):
            return lambda I: ([log(I, sel), s()], {})

        out = {}
        for sel in ("none", "default", "stream"):
            out[f"{sel}, any"] = setup(sel, lambda: E.stream("new", z3.Bool("new can be written")))
        out["none given"] = setup("stream", lambda: None)
        return out

    def spec(self, I, env):
        s = env["stream"]
        if s is None or not I.ctx.branch(I.truth(lib._hasattr(I, s, "write"))):
            raise_("ValueError")
        select(I, env["cls"], s)
        return None


class LogWrite(Contract):
    """Emitted once if and only if the level reaches the active level."""

    qual = "Log.write"
    modulename = LOG

    def configs(self):
        def setup(sel, level, entry):
            return lambda I: ([log(I, sel), level, entry()], {})

        out = {}
        for sel in ("none", "default", "stream"):
            out[f"{sel}, text"] = setup(sel, text("level"), lambda: text("entry"))
            out[f"{sel}, exception"] = setup(sel, text("level"), lambda: Opaque("exc:Exception", z3.Const("failure", lib.VAL), {"truth": True}))
        for n in ("Info", "trace", "CRITICAL"):
            out[f"stream, {n}"] = setup("stream", n, lambda: text("entry"))
        out["not a level"] = setup("stream", lift(20), lambda: text("entry"))
        return out

    def spec(self, I, env):
        c, v, entry = env["cls"], env["level"], env["entry"]
        rec = I.class_obj(c)
        if I.ctx.branch(r_eq(rec.fields["_identity"].re, 0)):
            select(I, c, E.stream("sys.stdout", True))
        if isinstance(v, Num):
            raise_("ValueError")
        t = E.STR_OPS["upper"](I, v) if isinstance(v, Opaque) else v.upper()
        lv = E.level_of(I, t)
        active = rec.fields["_level"].info["attr:no"]
        if I.ctx.branch(r_le(active.re, lv.info["attr:no"].re)):
            E.emit(I, lv.info["attr:name"], lv.info["attr:no"], entry if entry.tag == "str" else Where(lambda I, h, a: [("a text", isinstance(a, str) or isinstance(a, Opaque) and a.tag == "str")]))
        return None

    def loops(self, I, env):
        return []


# ---------------------------------------------------------------------- Serial
SERIAL = "diamondback.commons.serial"


class Encode(Contract):
    """A text whose bytes are the base 85 code of a pickle of the instance, compressed or not."""

    qual = "Serial.encode"
    modulename = SERIAL

    def configs(self):
        def setup(compress, **kw):
            return lambda I: ([Opaque("instance", z3.Const("x", lib.VAL))], {**({} if compress is None else {"compress": compress}), **kw})

        return {"compressed": setup(lift(True), encoding=text("encoding")), "plain": setup(lift(False), encoding=text("encoding")), "either": setup(Num("b", z3.Bool("compress")), encoding=text("encoding")), "default": setup(None), "no encoding": setup(None, encoding=""), "none": setup(None, encoding=None)}

    def spec(self, I, env):
        enc = env["encoding"]
        if enc is None or not I.ctx.branch(I.truth(enc)):
            raise_("ValueError")
        compress = I.ctx.branch(I.truth(env["compress"]))

        def check(I, h, r):
            if not (isinstance(r, Opaque) and r.tag == "str" and r.term is not None):
                return [("text", False)]
            b = lib.FNS["base64.b85decode"](I, E.to_bytes(I, r, enc))
            z = E.applied(b, "gzip.compress")
            if compress:
                if z is None:
                    return [("compressed", False)]
                b = Opaque("bytes", z[0])
            p = E.applied(b, "pickle.dumps")
            return [("pickle", p is not None and p[0].eq(env["x"].term))]

        return Where(check)


class Decode(Contract):
    """The instance a text encodes."""

    qual = "Serial.decode"
    modulename = SERIAL

    def configs(self):
        def setup(compress):
            def f(I):
                enc, x = text("encoding"), Opaque("instance", z3.Const("x", lib.VAL))
                b = lib.FNS["pickle.dumps"](I, x)
                if compress:
                    b = lib.FNS["gzip.compress"](I, b)
                I.ctx.assume(zb(I.truth(enc)))
                r = E.to_text(I, lib.FNS["base64.b85encode"](I, b), enc)
                I.ctx.assume(zb(I.truth(r)))  # a code is not empty
                return [r], {"encoding": enc}

            return f

        empty = lambda x, e: (lambda I: ([x], {"encoding": e}))  # noqa
        return {"compressed": setup(True), "plain": setup(False), "empty": empty("", text("encoding")), "no encoding": empty(text("code"), ""), "none": empty(None, text("encoding"))}

    def spec(self, I, env):
        x, e = env["x"], env["encoding"]
        if x is None or not I.ctx.branch(I.truth(x)) or not I.ctx.branch(I.truth(e)):
            raise_("ValueError")
        return Opaque("instance", z3.Const("x", lib.VAL))


class Code(Contract):
    """The hexadecimal digest of the text in its encoding."""

    qual = "Serial.code"
    modulename = SERIAL

    def configs(self):
        setup = lambda x, **k: (lambda I: ([x], k))  # noqa
        return {"any": setup(text("x"), encoding=text("encoding")), "default": setup(text("x")), "empty": setup("", encoding=text("encoding")), "no encoding": setup(text("x"), encoding=""), "none": setup(None)}

    def spec(self, I, env):
        x, e = env["x"], env["encoding"]
        if x is None or not I.ctx.branch(I.truth(x)) or e is None or not I.ctx.branch(I.truth(e)):
            raise_("ValueError")
        return E._hexdigest(I, lib.FNS["hashlib.sha3_256"](I, E.to_bytes(I, x, e)))
