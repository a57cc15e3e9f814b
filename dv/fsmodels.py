"""Assumed contracts of std::fs, std::io, std::path, anyhow, clap and roxmltree::Document as far as the two command-line tools use them.

Every operation on a file may fail.  What happened is logged, in order, in the ghost "fs":
    ("read", path)                     the whole file was read; its text is the atom of ("text", path) in ghost "files"
    ("open", path, opts, handle)       a file was opened; opts is the set of options that were switched on
    ("data", handle, rope)             text written to it
    ("mkdir", path) ("mkdirs", path)
    ("print", rope)
    ("failed", operation, path)        the operation failed; nothing is known about its effect
    ("each", records)                  one iteration over a directory: [(state, log)] (dv/abstract.py)
Paths are opaque terms; whether one exists or is a directory is an arbitrary fact that does not change during the run
unless the tool itself creates it."""
from . import lang as L
from .models import rmodel, ret, rope_of, AbsIt, run_args
from .terms import *


def log(s, *ev):
    s = s.fork()
    s.ghost["fs"] = s.ghost.get("fs", ()) + (tuple(ev),)
    return s


def pathv(E, st, v):
    v = E.expand(st, v)
    while isinstance(v, Ref):
        v = E.expand(st, E.deref(st, v))
    if isinstance(v, Opq) and v.kind == "path":
        return v.d
    if isinstance(v, (SRef, StringV)):
        c = st.const_str(rope_of(E, st, v))
        if c is not None:
            return ("lit", c.decode())
    raise Unsupported("path %r" % (v,))


def p_ext(d, e):
    if d[0] == "join":
        return ("join", d[1], p_ext(d[2], e))
    return ("ext", d, e)


def mkpath(E, s, d):
    return E.ref(s, Opq("path", d))


def attempt(st, op, p, f):
    """the operation succeeds (f) or fails"""
    t = log(st, "failed", op, p)
    return f(st.fork()) + [(t, "ret", err(Opq("ioerr", (op, p))))]


@rmodel(r"^<std::path::PathBuf as std::convert::From<.*>>::from$")
def m_from(E, st, a, fn):
    return ret(st, Opq("path", pathv(E, st, a[0])))


@rmodel(r"^<std::path::PathBuf as std::ops::Deref>::deref$", r"^std::path::PathBuf::as_path$", r"^std::path::Path::new$", r"^<std::path::.* as std::convert::AsRef<std::path::Path>>::as_ref$",
        r"^<std::path::PathBuf as std::borrow::Borrow<std::path::Path>>::borrow$")
def m_deref(E, st, a, fn):
    s = st.fork()
    return ret(s, mkpath(E, s, pathv(E, s, a[0])))


@rmodel(r"^std::path::Path::to_path_buf$", r"^<std::path::PathBuf as std::clone::Clone>::clone$", r"^std::path::Path::to_owned$", r"^<std::path::Path as std::borrow::ToOwned>::to_owned$")
def m_own(E, st, a, fn):
    return ret(st, Opq("path", pathv(E, st, a[0])))


@rmodel(r"^std::path::Path::join$")
def m_join(E, st, a, fn):
    return ret(st, Opq("path", ("join", pathv(E, st, a[0]), pathv(E, st, a[1]))))


@rmodel(r"^std::path::Path::with_extension$")
def m_ext(E, st, a, fn):
    e = st.const_str(rope_of(E, st, a[1]))
    if e is None:
        raise Unsupported("extension")
    return ret(st, Opq("path", p_ext(pathv(E, st, a[0]), e.decode())))


@rmodel(r"^std::path::PathBuf::set_extension$")
def m_setext(E, st, a, fn):
    e = st.const_str(rope_of(E, st, a[1]))
    if e is None:
        raise Unsupported("extension")
    s = st.fork()
    E.set_ref(s, a[0], Opq("path", p_ext(pathv(E, st, a[0]), e.decode())))
    return ret(s, True)


@rmodel(r"^std::path::PathBuf::push$")
def m_push(E, st, a, fn):
    s = st.fork()
    E.set_ref(s, a[0], Opq("path", ("join", pathv(E, st, a[0]), pathv(E, st, a[1]))))
    return ret(s, UNIT)


@rmodel(r"^std::path::Path::file_name$")
def m_file_name(E, st, a, fn):
    p = pathv(E, st, a[0])
    s = st.fork()
    if p[0] == "ext":
        raise Unsupported("file name of a changed path")
    out = [(s, "ret", some(mkpath(E, s, ("name", p))))]
    if p[0] != "ent":
        out.append((st.fork(), "ret", NONE))
    return out


def fact(st, what, p):
    """[(state, bool)]: an arbitrary but fixed fact about the file system"""
    for (w, q), b in st.ghost.get("facts", ()):
        if (w, q) == (what, p):
            return [(st, b)]
        if q == p and {w, what} == {"exists", "isdir"} and b is (w == "isdir"):
            return [(st, b)]
    out = []
    for b in (True, False):
        s = st.fork()
        s.ghost["facts"] = s.ghost.get("facts", ()) + (((what, p), b),)
        out.append((s, b))
    return out


@rmodel(r"^std::path::Path::(is_dir|exists)$")
def m_is(E, st, a, fn):
    w = {"is_dir": "isdir", "exists": "exists"}[fn["def"].split("::")[-1]]
    return [(s, "ret", b) for s, b in fact(st, w, pathv(E, st, a[0]))]


@rmodel(r"^std::path::Path::is_file$")
def m_isfile(E, st, a, fn):
    raise Unsupported("is_file")


@rmodel(r"^std::fs::(metadata|File::metadata)$", r"^std::path::Path::metadata$")
def m_md(E, st, a, fn):
    p = pathv(E, st, a[0])
    return attempt(st, "metadata", p, lambda s: [(s, "ret", ok(Opq("metadata", p)))])


@rmodel(r"^std::fs::Metadata::is_dir$")
def m_md_dir(E, st, a, fn):
    return [(s, "ret", b) for s, b in fact(st, "isdir", E.deref(st, a[0]).d)]


@rmodel(r"^std::fs::(create_dir_all|create_dir)$")
def m_mkdir(E, st, a, fn):
    p = pathv(E, st, a[0])
    op = "mkdirs" if fn["def"].endswith("all") else "mkdir"
    return attempt(st, op, p, lambda s: [(log(s, op, p), "ret", ok(UNIT))])


@rmodel(r"^std::fs::read_dir$")
def m_read_dir(E, st, a, fn):
    p = pathv(E, st, a[0])

    def src(E_, s0):
        s = s0.fork()
        n = s.fresh("entry")
        s.ghost["entry"] = n
        t = log(s0, "failed", "entry", p)
        return [(s, ok(Opq("dirent", ("ent", p, n)))), (t, err(Opq("ioerr", ("entry", p))))]
    src.dir = p
    return attempt(st, "readdir", p, lambda s: [(log(s, "readdir", p), "ret", ok(Opq("iter", AbsIt(src))))])


@rmodel(r"^std::fs::DirEntry::path$")
def m_ent_path(E, st, a, fn):
    return ret(st, Opq("path", E.deref(st, a[0]).d))


@rmodel(r"^std::fs::DirEntry::file_name$")
def m_ent_name(E, st, a, fn):
    return ret(st, Opq("path", ("name", E.deref(st, a[0]).d)))


# ------------------------------------------------------------------ files
def content(st, p):
    for q, r in st.ghost.get("files", ()):
        if q == p:
            return st, r
    s = st.fork()
    r = s.atom_rope(L.UTF8, "file")
    s.ghost["files"] = s.ghost.get("files", ()) + ((p, r),)
    return s, r


def opened(st, p, opts, readonly=False):
    def f(s):
        h = s.fresh("handle")
        s = s if readonly else log(s, "open", p, frozenset(opts), h)
        return [(s, "ret", ok(Opq("file", (p, h, readonly))))]
    return attempt(st, "open", p, f)


@rmodel(r"^std::fs::File::open$")
def m_open(E, st, a, fn):
    return opened(st, pathv(E, st, a[0]), (), True)


@rmodel(r"^std::fs::File::create$")
def m_create(E, st, a, fn):
    return opened(st, pathv(E, st, a[0]), ("write", "create", "truncate"))


@rmodel(r"^std::fs::OpenOptions::new$", r"^std::fs::File::options$")
def m_oo(E, st, a, fn):
    return ret(st, Opq("openopts", frozenset()))


@rmodel(r"^std::fs::OpenOptions::(read|write|append|truncate|create|create_new)$")
def m_oo_set(E, st, a, fn):
    o = E.deref(st, a[0])
    n = fn["def"].split("::")[-1]
    if not isinstance(a[1], bool):
        raise Unsupported("open option")
    s = st.fork()
    E.set_ref(s, a[0], Opq("openopts", o.d | {n} if a[1] else o.d - {n}))
    return ret(s, a[0])


@rmodel(r"^std::fs::OpenOptions::open$")
def m_oo_open(E, st, a, fn):
    o = E.deref(st, a[0])
    return opened(st, pathv(E, st, a[1]), o.d, o.d == {"read"})


def strip(E, st, v):
    v = E.expand(st, v)
    while isinstance(v, Ref):
        v = E.expand(st, E.deref(st, v))
    return v


@rmodel(r"^<std::fs::File as std::io::Read>::read_to_string$", r"^<&std::fs::File as std::io::Read>::read_to_string$")
def m_read(E, st, a, fn):
    p, h, ro = strip(E, st, a[0]).d
    old = E.deref(st, a[1])

    def f(s):
        s, r = content(s, p)
        s = log(s, "read", p)
        E.set_ref(s, a[1], StringV(s.rope(tuple(old.r) + tuple(r))))
        return [(s, "ret", ok(s.length(r)))]
    return attempt(st, "read", p, f)


@rmodel(r"^std::fs::read_to_string$")
def m_read_all(E, st, a, fn):
    p = pathv(E, st, a[0])

    def f(s):
        s, r = content(s, p)
        return [(log(s, "read", p), "ret", ok(StringV(r)))]
    return attempt(st, "read", p, f)


def bytes_of(E, st, v):
    v = strip(E, st, v)
    if isinstance(v, (SRef, StringV)):
        return rope_of(E, st, v)
    if isinstance(v, Opq) and v.kind == "bytes":
        return v.d
    raise Unsupported("bytes")


@rmodel(r"^std::io::Write::write_all$", r"^<std::fs::File as std::io::Write>::write_all$")
def m_write_all(E, st, a, fn):
    f = strip(E, st, a[0])
    if not (isinstance(f, Opq) and f.kind == "file"):
        raise Unsupported("write to %r" % (f,))
    r = bytes_of(E, st, a[1])
    return attempt(st, "write", f.d[0], lambda s: [(log(s, "data", f.d[1], s.rope(r)), "ret", ok(UNIT))])


@rmodel(r"^<std::fs::File as std::io::Write>::flush$", r"^std::fs::File::sync_(all|data)$")
def m_flush(E, st, a, fn):
    return attempt(st, "flush", strip(E, st, a[0]).d[0], lambda s: [(s, "ret", ok(UNIT))])


@rmodel(r"^std::fs::write$")
def m_write(E, st, a, fn):
    p = pathv(E, st, a[0])
    r = bytes_of(E, st, a[1])

    def f(s):
        h = s.fresh("handle")
        return [(log(log(s, "open", p, frozenset(("write", "create", "truncate")), h), "data", h, s.rope(r)), "ret", ok(UNIT))]
    return attempt(st, "write", p, f)


@rmodel(r"^std::io::_print$")
def m_print(E, st, a, fn):
    s = st.fork()
    sink = E.ref(s, StringV(()))
    out = []
    for s2, k, v in run_args(E, s, a[0], sink):
        if k != "ret" or not v:
            out.append((s2, "panic" if k == "ret" else k, "format" if k == "ret" else v))
        else:
            out.append((log(s2, "print", s2.rope(E.deref(s2, sink).r)), "ret", UNIT))
    return out


# ------------------------------------------------------------------ errors
@rmodel(r"^anyhow::context::<impl anyhow::Context<T, E> for .*>::(context|with_context)$")
def m_context(E, st, a, fn):
    out = []
    for s, o in E.variants(st, a[0]):
        out.append((s, "ret", ok(o.f[0]) if o.var == 0 else err(Opq("anyhow", (o.f[0],)))))
    return out


@rmodel(r"^anyhow::error::<impl std::convert::From<E> for anyhow::Error>::from$", r"^anyhow::__private::(format_err|must_use)$", r"^anyhow::(error::<impl anyhow::Error>|Error)::(msg|new)$")
def m_anyhow(E, st, a, fn):
    if fn["def"].endswith("must_use"):
        return ret(st, a[0])
    return ret(st, Opq("anyhow", (a[0],)))
