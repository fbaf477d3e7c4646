"""Models of std / third-party calls for the abstract interpreter."""
from terms import *

STREAM_TYPES = {"File", "BufReader", "BufWriter", "Cursor", "BufferedReader", "Take"}
M = {}
OVERRIDE = set()
def model(*names, over=False):
    def d(fn):
        for n in names:
            M[n] = fn
            if over: OVERRIDE.add(n)
        return fn
    return d
def lookup(fn, A):
    n = fn["n"]; rn = fn.get("rn")
    ws = "inst" in fn and fn["inst"] in A.p.bodies
    if ws:
        for x in (rn, n):
            if x in OVERRIDE: return M[x]
        return None
    for x in (rn, n):
        if x in M: return M[x]
    # impl-method names like `<Vec as Foo>::bar` fall back to `Foo::bar`
    return None
PURE = set()
def is_pure(fn): return fn["n"] in PURE
def err(site, what): return mk("err", what, site)

# ---------------------------------------------------------------- helpers
def C(A, st, v): return A.content(st, v)
def pure(name):
    def f(A, st, fn, args, t, site):
        return [(st, mk("call", name, tuple(A.deep(st, a) for a in args)))]
    return f

def is_stream(A, st, a, ty, fn, i):
    to = A.p.types[ty["to"]]
    k = 0
    while to["k"] == "ref" and k < 4: to = A.p.types[to["to"]]; k += 1
    if to["k"] == "param": return True
    if to["k"] == "adt" and to["n"] in STREAM_TYPES: return True
    return False
def stream_of(A, st, a):
    v = a; k = 0
    while v.op == "ref" and k < 6:
        k += 1
        c = A.read(st, v.a[0], v.a[1]) if v.a[0].op != "K" else A.readk(v)
        if c.op == "ref":
            # a &[u8] used as a stream keeps its own location
            if v.a[0].op != "K" and getattr(A, "_slice_stream", None) and A._slice_stream(v): break
            v = c
        elif c.op == "agg" and c.a[0] in ("BufReader", "BufWriter", "Take", "ByRef") and c.a[2]:
            v = c.a[2][0] if c.a[2][0].op == "ref" else mk("ref", v.a[0], v.a[1] + (("f", None, 0),))
            if c.a[0] == "BufReader" and c.a[2][0].op != "ref": return v
        else: break
    return v
def curpos(A, st, s):
    c = memstream(A, st, s)
    if c is not None: return getf(c, None, 1)
    return st.cur.get(s) or mk("pos", s)
def memstream(A, st, s):
    """the Cursor aggregate if s is an in-memory stream"""
    if s.op == "ref" and s.a[0].op != "K":
        c = A.read(st, s.a[0], s.a[1])
        if c.op == "agg" and c.a[0] == "Cursor": return c
        if c.op == "with" and getf(c, None, 0).op != "fld": return c
    return None
def setpos(A, st, s, p):
    c = memstream(A, st, s)
    if c is not None: A.write(st, s.a[0], s.a[1] + (("f", None, 1),), p)
    else: st.cur[s] = p
def peek(A, st, s, off, n):
    c = memstream(A, st, s)
    if c is not None:
        return slc(A.deep(st, getf(c, None, 0)), off, add(off, n) if n is not None else None)
    return mk("rd", s, off, n)

# ---------------------------------------------------------------- Read / BufRead / Seek / Write
@model("Read::read_exact", "<Cursor as Read>::read_exact", "<BufReader as Read>::read_exact", "<File as Read>::read_exact", "<&mut as Read>::read_exact", "<&File as Read>::read_exact", "<R as Read>::read_exact", "default_read_exact")
def read_exact(A, st, fn, args, t, site):
    if is_slice_self(A, fn): return slice_read_exact(A, st, fn, args, t, site)
    s = stream_of(A, st, args[0]); buf = args[1]
    n = ln(A.content(st, buf)); off = curpos(A, st, s)
    A.ev("io", fn=fn, op="read_exact", stream=s, off=off, len=n, site=site, st=st.copy())
    ok = st.copy()
    data = peek(A, st, s, off, n)
    if buf.op == "ref": A.write(ok, buf.a[0], buf.a[1], data)
    setpos(A, ok, s, add(off, n))
    bad = st.copy()
    setpos(A, bad, s, mk("pos_err", site, off))
    if buf.op == "ref": A.write(bad, buf.a[0], buf.a[1], mk("havoc", "read_exact", site, 1, data))
    return [(ok, Ok(UNIT), (mk("io", "read_exact", site), "Ok")), (bad, Err(err(site, "read_exact")), (mk("io", "read_exact", site), "Err"))]
def is_slice_self(A, fn):
    if not fn["targs"]: return False
    t = A.p.types[fn["targs"][0]]
    return t["k"] == "ref" and A.p.types[t["to"]]["k"] == "slice"
def slice_read_exact(A, st, fn, args, t, site):
    loc = args[0]; buf = args[1]
    src = A.one_deref(st, loc); n = ln(A.content(st, buf))
    ok = st.copy(); bad = st.copy()
    if src.op == "ref":
        data = slc(A.one_deref(st, src), ZERO, n)
        A.write(ok, buf.a[0], buf.a[1], data)
        L = ln(A.one_deref(st, src))
        A.write(ok, loc.a[0], loc.a[1], mk("ref", src.a[0], src.a[1] + (("s", n, L),)))
    return [(ok, Ok(UNIT)), (bad, Err(err(site, "read_exact")))]
@model("Read::read", "<File as Read>::read", "<BufReader as Read>::read", "<Cursor as Read>::read")
def read(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); buf = args[1]
    off = curpos(A, st, s)
    n = mk("nread", site, off)
    A.ev("io", fn=fn, op="read", stream=s, off=off, len=n, site=site, st=st.copy(), cap=ln(A.content(st, buf)))
    ok = st.copy(); old = A.content(st, buf)
    if buf.op == "ref": A.write(ok, buf.a[0], buf.a[1], splice(old, ZERO, n, peek(A, st, s, off, n)))
    setpos(A, ok, s, add(off, n))
    return [(ok, Ok(n), (mk("io", "read", site), "Ok")), (st.copy(), Err(err(site, "read")), (mk("io", "read", site), "Err"))]
@model("Read::read_to_end", "<File as Read>::read_to_end", "<BufReader as Read>::read_to_end")
def read_to_end(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); buf = args[1]; off = curpos(A, st, s)
    n = mk("nrest", site, off)
    A.ev("io", fn=fn, op="read_to_end", stream=s, off=off, len=n, site=site, st=st.copy())
    ok = st.copy()
    if buf.op == "ref": A.write(ok, buf.a[0], buf.a[1], seq([A.content(st, buf), peek(A, st, s, off, n)]))
    setpos(A, ok, s, add(off, n))
    return [(ok, Ok(n), (mk("io", "read_to_end", site), "Ok")), (st.copy(), Err(err(site, "read_to_end")), (mk("io", "read_to_end", site), "Err"))]
@model("BufRead::fill_buf", "<BufReader as BufRead>::fill_buf", "<Cursor as BufRead>::fill_buf", "<&[T] as BufRead>::fill_buf")
def fill_buf(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    c = memstream(A, st, s)
    A.ev("io", fn=fn, op="fill_buf", stream=s, off=off, len=None, site=site, st=st.copy())
    if c is not None: w = slc(A.deep(st, getf(c, None, 0)), off, None)
    else: w = mk("rd", s, off, mk("avail", s, off))
    return [(st.copy(), Ok(mk("ref", mk("K", w), ())), (mk("io", "fill_buf", site), "Ok")), (st.copy(), Err(err(site, "fill_buf")), (mk("io", "fill_buf", site), "Err"))]
@model("BufRead::consume", "<BufReader as BufRead>::consume", "<Cursor as BufRead>::consume", "<&[T] as BufRead>::consume", "BufReader::consume")
def consume(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    A.ev("io", fn=fn, op="consume", stream=s, off=off, len=args[1], site=site, st=st.copy())
    st = st.copy()
    setpos(A, st, s, add(off, args[1]))
    return [(st, UNIT)]
@model("BufReader::buffer")
def br_buffer(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    return [(st, mk("ref", mk("K", mk("rd", s, off, mk("avail", s, off))), ()))]
@model("BufReader::new", "BufReader::with_capacity", "BufWriter::new")
def bufreader_new(A, st, fn, args, t, site):
    n = "BufReader" if "Reader" in fn["n"] else "BufWriter"
    return [(st, agg(n, "", (args[-1],)))]
@model("Read::by_ref", "Write::by_ref")
def by_ref(A, st, fn, args, t, site): return [(st, args[0])]
@model("Read::take")
def take(A, st, fn, args, t, site): return [(st, agg("Take", "", (args[0], args[1])))]
@model("Cursor::new")
def cursor_new(A, st, fn, args, t, site): return [(st, agg("Cursor", "", (args[0], ZERO)))]
@model("Cursor::position")
def cursor_pos(A, st, fn, args, t, site): return [(st, getf(A.content(st, args[0]), None, 1))]
@model("Cursor::set_position")
def cursor_setpos(A, st, fn, args, t, site):
    A.write(st, args[0].a[0], args[0].a[1] + (("f", None, 1),), args[1]); return [(st, UNIT)]
@model("Cursor::get_ref", "Cursor::get_mut")
def cursor_ref(A, st, fn, args, t, site): return [(st, mk("ref", args[0].a[0], args[0].a[1] + (("f", None, 0),)))] if args[0].op == "ref" else None
@model("Cursor::into_inner")
def cursor_inner(A, st, fn, args, t, site): return [(st, getf(args[0], None, 0))]
@model("Seek::stream_position", "<File as Seek>::stream_position", "<Cursor as Seek>::stream_position", "<BufReader as Seek>::stream_position")
def stream_position(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    A.ev("io", fn=fn, op="tell", stream=s, off=off, len=None, site=site, st=st.copy())
    return [(st.copy(), Ok(off), (mk("io", "stream_position", site), "Ok")), (st.copy(), Err(err(site, "stream_position")), (mk("io", "stream_position", site), "Err"))]
@model("Seek::seek", "<File as Seek>::seek", "<Cursor as Seek>::seek", "<BufReader as Seek>::seek")
def seek(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    w = args[1]
    if is_agg(w, "Start"): p = w.a[2][0]
    elif is_agg(w, "Current"): p = add(off, w.a[2][0])
    elif is_agg(w, "End"): p = add(mk("end", s), w.a[2][0])
    else: p = mk("seekto", w)
    A.ev("io", fn=fn, op="seek", stream=s, off=off, to=p, how=w, len=None, site=site, st=st.copy())
    ok = st.copy(); setpos(A, ok, s, p)
    bad = st.copy()
    return [(ok, Ok(p), (mk("io", "seek", site), "Ok")), (bad, Err(err(site, "seek")), (mk("io", "seek", site), "Err"))]
@model("Seek::rewind")
def rewind(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    A.ev("io", fn=fn, op="seek", stream=s, off=off, to=ZERO, how=None, len=None, site=site, st=st.copy())
    ok = st.copy(); setpos(A, ok, s, ZERO)
    return [(ok, Ok(UNIT), (mk("io", "seek", site), "Ok")), (st.copy(), Err(err(site, "seek")), (mk("io", "seek", site), "Err"))]
@model("Seek::seek_relative", "BufReader::seek_relative")
def seek_rel(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s); p = add(off, args[1])
    A.ev("io", fn=fn, op="seek", stream=s, off=off, to=p, how=None, len=None, site=site, st=st.copy())
    ok = st.copy(); setpos(A, ok, s, p)
    return [(ok, Ok(UNIT), (mk("io", "seek", site), "Ok")), (st.copy(), Err(err(site, "seek")), (mk("io", "seek", site), "Err"))]
@model("Write::write_all", "<File as Write>::write_all", "<Cursor as Write>::write_all", "<BufWriter as Write>::write_all")
def write_all(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    data = A.deep(st, args[1])
    A.ev("io", fn=fn, op="write_all", stream=s, off=off, len=ln(data), data=data, site=site, st=st.copy())
    ok = st.copy(); setpos(A, ok, s, add(off, ln(data)))
    bad = st.copy(); setpos(A, bad, s, mk("pos_err", site, off))
    return [(ok, Ok(UNIT), (mk("io", "write_all", site), "Ok")), (bad, Err(err(site, "write_all")), (mk("io", "write_all", site), "Err"))]
@model("Write::write", "<File as Write>::write", "<BufWriter as Write>::write", "Write::write_vectored", "<File as Write>::write_vectored")
def write(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0]); off = curpos(A, st, s)
    data = A.deep(st, args[1]); n = mk("nwritten", site, off)
    A.ev("io", fn=fn, op=fn["n"].split("::")[-1], stream=s, off=off, len=n, data=data, site=site, st=st.copy())
    ok = st.copy(); setpos(A, ok, s, add(off, n))
    return [(ok, Ok(n), (mk("io", "write", site), "Ok")), (st.copy(), Err(err(site, "write")), (mk("io", "write", site), "Err"))]
@model("Write::flush", "<File as Write>::flush", "<BufWriter as Write>::flush", "File::sync_all", "File::sync_data")
def flush(A, st, fn, args, t, site):
    s = stream_of(A, st, args[0])
    A.ev("io", fn=fn, op=fn["n"].split("::")[-1], stream=s, off=curpos(A, st, s), len=None, site=site, st=st.copy())
    return [(st.copy(), Ok(UNIT), (mk("io", "flush", site), "Ok")), (st.copy(), Err(err(site, "flush")), (mk("io", "flush", site), "Err"))]
@model("<Vec as Write>::write_all", "Vec::extend_from_slice", "<Vec as Write>::write")
def vec_extend(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    data = A.deep(st, args[1])
    A.write(st, v.a[0], v.a[1], seq([A.read(st, v.a[0], v.a[1]), data]))
    if "Write" in (fn.get("rn") or fn["n"]):
        return [(st, Ok(UNIT if fn["n"].endswith("write_all") else ln(data)))]
    return [(st, UNIT)]

# ---------------------------------------------------------------- Vec / slices / arrays
@model("Vec::new", "Vec::with_capacity", "<Vec as Default>::default", "Default::default@Vec", "String::new", "VecDeque::new")
def vec_new(A, st, fn, args, t, site):
    if args: A.ev("alloc", size=args[0], st=st.copy(), site=site)
    return [(st, EMPTY)]
@model("vec::from_elem")
def from_elem(A, st, fn, args, t, site):
    A.ev("alloc", size=args[1], st=st.copy(), site=site)
    return [(st, mk("rep", args[0], args[1]) if args[1] is not ZERO else EMPTY)]
@model("Vec::push")
def vec_push(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    A.ev("push", base=v.a[0], path=v.a[1], val=A.deep(st, args[1]), st=st.copy(), site=site)
    A.write(st, v.a[0], v.a[1], seq([A.read(st, v.a[0], v.a[1]), mk("el", args[1])]))
    return [(st, UNIT)]
@model("Vec::append")
def vec_append(A, st, fn, args, t, site):
    v, w = args
    if v.op != "ref" or w.op != "ref": return None
    A.write(st, v.a[0], v.a[1], seq([A.read(st, v.a[0], v.a[1]), A.read(st, w.a[0], w.a[1])]))
    A.write(st, w.a[0], w.a[1], EMPTY)
    return [(st, UNIT)]
@model("Vec::clear", "String::clear")
def vec_clear(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    A.ev("vecop", op="clear", base=v.a[0], path=v.a[1], old=A.read(st, v.a[0], v.a[1]), st=st.copy())
    A.write(st, v.a[0], v.a[1], EMPTY); return [(st, UNIT)]
@model("Vec::truncate")
def vec_trunc(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    A.write(st, v.a[0], v.a[1], slc(A.read(st, v.a[0], v.a[1]), ZERO, args[1])); return [(st, UNIT)]
@model("Vec::resize")
def vec_resize(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1])
    A.ev("alloc", size=args[1], st=st.copy(), site=site)
    A.write(st, v.a[0], v.a[1], seq([old, mk("rep", args[2], sub(args[1], ln(old)))])); return [(st, UNIT)]
@model("Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact")
def vec_reserve(A, st, fn, args, t, site): return [(st, UNIT)]
@model("Vec::split_off")
def vec_split_off(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1])
    A.write(st, v.a[0], v.a[1], slc(old, ZERO, args[1]))
    return [(st, slc(old, args[1], None))]
@model("Vec::drain")
def vec_drain(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1]); a, b = rng(A, st, args[1], old)
    A.ev("vecop", op="drain", base=v.a[0], path=v.a[1], old=old, a=a, b=b, st=st.copy())
    L = ln(old)
    A.write(st, v.a[0], v.a[1], seq([slc(old, ZERO, a), slc(old, b, L)]))
    return [(st, agg("It", "vals", (slc(old, a, b),)))]
@model("Vec::len", "[T]::len", "str::len", "String::len", "VecDeque::len")
def vec_len(A, st, fn, args, t, site): return [(st, ln(A.content(st, args[0])))]
@model("Vec::is_empty", "[T]::is_empty", "str::is_empty", "String::is_empty")
def vec_is_empty(A, st, fn, args, t, site): return [(st, EQ(ln(A.content(st, args[0])), ZERO))]
@model("<Vec as Deref>::deref", "<Vec as DerefMut>::deref_mut", "Vec::as_slice", "Vec::as_mut_slice", "<String as Deref>::deref", "String::as_bytes", "str::as_bytes", "String::as_str", "AsRef::as_ref", "<Vec as AsRef>::as_ref", "<[T] as AsRef>::as_ref", "Borrow::borrow", "[T;N]::as_slice", "<Vec as AsMut>::as_mut", "[T]::as_ref", "Vec::as_mut_ptr", "Vec::as_ptr", "[T]::as_ptr", "[T]::as_mut_ptr", "<Box as Deref>::deref", "<IoSlice as Deref>::deref", "Box::as_ref", "<Arc as Deref>::deref", "<Arc as AsRef>::as_ref", "[T;N]::as_mut_slice", "<Cow as Deref>::deref", "<[T;N] as AsRef>::as_ref", "<&T as AsRef>::as_ref", "String::into_bytes", "<PathBuf as Deref>::deref", "<PathBuf as AsRef>::as_ref", "Path::as_ref", "hint::must_use", "IoSlice::new", "<&mut as Deref>::deref", "hint::black_box", "Vec::into_boxed_slice", "<T as Borrow>::borrow", "<MutexGuard as Deref>::deref", "<MutexGuard as DerefMut>::deref_mut")
def ident(A, st, fn, args, t, site): return [(st, args[0])]
def rng(A, st, r, content):
    """range value -> (a,b) terms"""
    if r.op == "ref": r = A.content(st, r)
    if r.op == "agg":
        n = r.a[0]; f = r.a[2]
        if n == "Range": return f[0], f[1]
        if n == "RangeTo": return ZERO, f[0]
        if n == "RangeFrom": return f[0], ln(content)
        if n == "RangeFull": return ZERO, ln(content)
        if n == "RangeInclusive": return f[0], add(f[1], ONE)
        if n == "RangeToInclusive": return ZERO, add(f[0], ONE)
    return mk("rstart", r), mk("rend", r)
def is_range(A, st, r):
    if r.op == "ref": r = A.content(st, r)
    return r.op == "agg" and r.a[0].startswith("Range")
@model("Index::index", "IndexMut::index_mut", "<Vec as Index>::index", "<[T] as Index>::index", "<Vec as IndexMut>::index_mut", "<[T] as IndexMut>::index_mut", "<[T;N] as Index>::index", "<[T;N] as IndexMut>::index_mut", "<str as Index>::index", "<String as Index>::index")
def index(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": v = mk("ref", mk("D", v), ())
    c = A.read(st, v.a[0], v.a[1]) if v.a[0].op != "K" else A.readk(v)
    if c.op == "ref": v = c; c = A.one_deref(st, v)
    if is_range(A, st, args[1]):
        a, b = rng(A, st, args[1], c)
        A.ev("index", a=a, b=b, len=ln(c), of=c, st=st.copy(), site=site, rng=A.content(st, args[1]) if args[1].op == "ref" else args[1])
        if a is ZERO and b is ln(c): return [(st, v)]
        return [(st, mk("ref", v.a[0], v.a[1] + (("s", a, b),)))]
    A.ev("index", a=args[1], b=None, len=ln(c), of=c, st=st.copy(), site=site)
    return [(st, mk("ref", v.a[0], v.a[1] + (("i", args[1]),)))]
@model("[T]::get", "[T]::get_mut", "Vec::get", "str::get")
def sl_get(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    c = A.content(st, v)
    if is_range(A, st, args[1]):
        a, b = rng(A, st, args[1], c)
        r = mk("ref", v.a[0], v.a[1] + (("s", a, b),))
        cond = NOT(LT(ln(c), b))
    else:
        r = mk("ref", v.a[0], v.a[1] + (("i", args[1]),))
        cond = LT(args[1], ln(c))
    return forkc(A, st, cond, Some(r), NONE)
def forkc(A, st, cond, vt, vf):
    tv = A.truth(st, cond)
    out = []
    if tv is not False:
        s = st.copy(); A.assume(s, cond, True); out.append((s, vt, (cond, True)))
    if tv is not True:
        s = st.copy(); A.assume(s, cond, False); out.append((s, vf, (cond, False)))
    return out
@model("[T]::first", "[T]::first_mut")
def sl_first(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    return forkc(A, st, NOT(EQ(ln(A.content(st, v)), ZERO)), Some(mk("ref", v.a[0], v.a[1] + (("i", ZERO),))), NONE)
@model("[T]::last", "[T]::last_mut")
def sl_last(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    c = A.content(st, v)
    return forkc(A, st, NOT(EQ(ln(c), ZERO)), Some(mk("ref", v.a[0], v.a[1] + (("i", sub(ln(c), ONE)),))), NONE)
@model("[T]::split_at", "[T]::split_at_mut")
def split_at(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    c = A.content(st, v)
    A.ev("index", a=ZERO, b=args[1], len=ln(c), of=c, st=st.copy(), site=site, rng=args[1])
    return [(st, tup(mk("ref", v.a[0], v.a[1] + (("s", ZERO, args[1]),)), mk("ref", v.a[0], v.a[1] + (("s", args[1], ln(c)),))))]
@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def copy_from_slice(A, st, fn, args, t, site):
    d = args[0]
    if d.op != "ref": return None
    src = A.deep(st, args[1]); n = ln(A.content(st, d))
    A.ev("copylen", dst=n, src=ln(src), st=st.copy())
    if ln(src) is not n and ln(src).op == "len": src = mk("raw", src, n)
    A.write(st, d.a[0], d.a[1], src)
    return [(st, UNIT)]
@model("[T]::fill")
def sl_fill(A, st, fn, args, t, site):
    d = args[0]
    if d.op != "ref": return None
    A.write(st, d.a[0], d.a[1], mk("rep", args[1], ln(A.content(st, d))))
    return [(st, UNIT)]
@model("ptr::add", "ptr::offset")
def ptr_add(A, st, fn, args, t, site):
    return [(st, mk("ref", args[0].a[0], args[0].a[1] + (("off", args[1]),)) if args[0].op == "ref" else mk("ptradd", *args))]
def copy_nonoverlapping(A, st, src, dst, cnt):
    if dst.op != "ref": return
    def norm(r):
        p = r.a[1]; off = ZERO
        q = []
        for e in p:
            if e[0] == "off": off = add(off, e[1])
            else: q.append(e)
        return r.a[0], tuple(q), off
    b, p, off = norm(dst)
    if src.op == "ref":
        sb, sp, so = norm(src)
        c = A.read(st, sb, sp) if sb.op != "K" else A.readk(mk("ref", sb, sp))
        c = A.deep(st, c)
        data = slc(c, so, add(so, cnt)) if not (so is ZERO and ln(c) is cnt) else c
        if ln(c).op == "len" and so is ZERO: data = mk("raw", c, cnt)
    else: data = mk("raw", mk("init", mk("D", src)), cnt)
    A.ev("rawcopy", n=cnt, dstlen=sub(ln(A.read(st, b, p)), off), srclen=ln(A.deep(st, src)) if src.op == "ref" else None, st=st.copy())
    A.write(st, b, p + (("s", off, add(off, cnt)),), data)
@model("ptr::copy_nonoverlapping", "intrinsics::copy_nonoverlapping")
def cno(A, st, fn, args, t, site):
    copy_nonoverlapping(A, st, args[0], args[1], args[2]); return [(st, UNIT)]
@model("[T]::to_vec", "[T]::into_vec", "ToOwned::to_owned", "[T]::to_owned", "Clone::clone", "<Vec as Clone>::clone", "<String as Clone>::clone", "str::to_owned", "<Arc as Clone>::clone", "<Vec as From>::from", "<[T] as ToOwned>::to_owned", "<str as ToOwned>::to_owned", "<[T;N] as Clone>::clone", "<Option as Clone>::clone", "Option::cloned", "Option::copied", "Path::to_path_buf", "<PathBuf as Clone>::clone", "<u8 as Clone>::clone", "<u32 as Clone>::clone", "<u64 as Clone>::clone", "<usize as Clone>::clone", "<Range as Clone>::clone", "<RangeInclusive as Clone>::clone")
def clone(A, st, fn, args, t, site):
    v = args[0]
    if fn["n"] in ("Option::cloned", "Option::copied"):
        return [(s, (Some(A.deep(s, x.a[2][0])) if is_agg(x, "Some") else x), *l) for s, x, *l in split(A, st, v, "Option", (("Some", 1), ("None", 0)))]
    return [(st, A.one_deref(st, v) if v.op == "ref" else (v if v.op in ("seq", "bytes", "rd", "le", "slice") else A.one_deref(st, v)))]
@model("[T]::starts_with")
def starts_with(A, st, fn, args, t, site):
    a = A.content(st, args[0]); b = A.content(st, args[1])
    return [(st, EQ(slc(a, ZERO, ln(b)), b))]
@model("[T]::ends_with")
def ends_with(A, st, fn, args, t, site):
    a = A.content(st, args[0]); b = A.content(st, args[1])
    return [(st, EQ(slc(a, sub(ln(a), ln(b)), ln(a)), b))]
@model("[T]::concat", "[T]::join")
def concat(A, st, fn, args, t, site):
    c = A.deep(st, args[0])
    return [(st, seq([x.a[1] if x.op == "le" and x.a[0] == 1 else x for x in segs(c)]))]
@model("PartialEq::eq", "PartialEq::ne", over=True)
def peq(A, st, fn, args, t, site):
    a = A.deep(st, args[0]); b = A.deep(st, args[1])
    e = EQ(a, b)
    return [(st, e if fn["n"].endswith("eq") else NOT(e))]
for _n in ("<&A as PartialEq>", "<[T;N] as PartialEq>", "<Vec as PartialEq>", "<str as PartialEq>", "<String as PartialEq>", "<[T] as PartialEq>", "<Option as PartialEq>", "<ErrorKind as PartialEq>", "<&[T] as PartialEq>", "<ByteBlock as PartialEq>"):
    M[_n + "::eq"] = peq; M[_n + "::ne"] = peq
    OVERRIDE.add(_n + "::eq"); OVERRIDE.add(_n + "::ne")
@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", "<&A as PartialOrd>::lt", "<&A as PartialOrd>::gt", "<&A as PartialOrd>::le", "<&A as PartialOrd>::ge")
def pord(A, st, fn, args, t, site):
    a = A.deep(st, args[0]); b = A.deep(st, args[1]); k = fn["n"].split("::")[-1]
    return [(st, {"lt": LT(a, b), "gt": LT(b, a), "le": NOT(LT(b, a)), "ge": NOT(LT(a, b))}[k])]
@model("Ord::min", "<usize as Ord>::min", "<u64 as Ord>::min", "cmp::min", "Ord::max", "<usize as Ord>::max", "<u64 as Ord>::max", "cmp::max")
def ordmm(A, st, fn, args, t, site):
    k = fn["n"].split("::")[-1]
    a, b = args
    if a is b: return [(st, a)]
    if a is ZERO or b is ZERO:      # only unsigned sizes are compared this way here
        o = b if a is ZERO else a
        if o.op in ("nread", "nwritten", "len", "param"): return [(st, o if k == "max" else ZERO)]
    if a.op == "int" and b.op == "int": return [(st, I((min if k == "min" else max)(a.a[0], b.a[0])))]
    x, y = sorted((a, b), key=lambda q: q.id)
    return [(st, mk(k, x, y))]
INTS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "usize": 8, "isize": 8, "f32": 4, "f64": 8}
for _t, _w in INTS.items():
    def _mk(w, tn):
        def to(A, st, fn, args, t, site):
            x = args[0]
            return [(st, seq([mk("le", w, x)]))]
        def fr(A, st, fn, args, t, site):
            return [(st, fromle(w, A.deep(st, args[0])))]
        def tobe(A, st, fn, args, t, site): return [(st, mk("be", w, args[0]))]
        def frbe(A, st, fn, args, t, site): return [(st, mk("frombe", w, A.deep(st, args[0])))]
        return to, fr, tobe, frbe
    _a, _b, _c, _d = _mk(_w, _t)
    M[f"{_t}::to_le_bytes"] = _a; M[f"{_t}::from_le_bytes"] = _b; M[f"{_t}::to_be_bytes"] = _c; M[f"{_t}::from_be_bytes"] = _d
    M[f"{_t}::to_ne_bytes"] = _a; M[f"{_t}::from_ne_bytes"] = _b
    def _mkar(tn):
        def satsub(A, st, fn, args, t, site):
            a, b = args; d = sub(a, b)
            if d.op == "int": return [(st, I(max(0, d.a[0])))]
            tv = A.truth(st, LT(a, b))
            if tv is False: return [(st, d)]
            # how much a source holds from a position on; a position past its end is as good as the end
            if a.op == "end": A.satends.add((a, b)); return [(st, d)]
            A.satsubs.add(mk("satsub", a, b))
            return [(st, mk("satsub", a, b))]
        def satadd(A, st, fn, args, t, site): return [(st, add(*args))]
        def wrap(op):
            return lambda A, st, fn, args, t, site: [(st, op(*args))]
        def chk(op, nm):
            def f(A, st, fn, args, t, site):
                r = op(*args)
                if r.op == "int" and nm != "Sub": return [(st, Some(r))]
                c = mk("ovf", nm, args[0], args[1])
                if nm == "Sub": c = LT(args[0], args[1])
                return forkc(A, st, c, NONE, Some(r))
            return f
        M[f"{tn}::saturating_sub"] = satsub; M[f"{tn}::saturating_add"] = satadd
        M[f"{tn}::saturating_mul"] = wrap(mul)
        M[f"{tn}::wrapping_add"] = wrap(lambda a, b: mk("wrapping", add(a, b))); M[f"{tn}::wrapping_sub"] = wrap(lambda a, b: mk("wrapping", sub(a, b)))
        M[f"{tn}::checked_add"] = chk(add, "Add"); M[f"{tn}::checked_sub"] = chk(sub, "Sub"); M[f"{tn}::checked_mul"] = chk(mul, "Mul")
    _mkar(_t)
for _n, _op in (("Add", add), ("Sub", sub), ("Mul", mul)):
    for _t in INTS:
        def _mko(op):
            return lambda A, st, fn, args, t, site: [(st, op(A.deep(st, args[0]), A.deep(st, args[1])))]
        for _s in (f"<&{_t} as {_n}>::{_n.lower()}", f"<{_t} as {_n}>::{_n.lower()}"): M[_s] = _mko(_op)
        def _mka(op):
            def f(A, st, fn, args, t, site):
                v = args[0]
                if v.op != "ref": return None
                A.write(st, v.a[0], v.a[1], op(A.read(st, v.a[0], v.a[1]), A.deep(st, args[1]))); return [(st, UNIT)]
            return f
        M[f"<{_t} as {_n}Assign>::{_n.lower()}_assign"] = _mka(_op)
@model("<u64 as Default>::default", "<usize as Default>::default", "<u32 as Default>::default", "<u8 as Default>::default", "<bool as Default>::default")
def zero(A, st, fn, args, t, site): return [(st, ZERO)]
@model("mem::size_of")
def size_of(A, st, fn, args, t, site):
    ty = A.p.types[fn["targs"][0]]
    if ty.get("n") in INTS: return [(st, I(INTS[ty["n"]]))]
    if ty.get("n") == "bool": return [(st, ONE)]
    if ty["k"] == "array" and A.p.types[ty["to"]].get("n") in INTS: return [(st, I(ty["n"] * INTS[A.p.types[ty["to"]]["n"]]))]
    return None
@model("mem::replace")
def mem_replace(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1]); A.write(st, v.a[0], v.a[1], args[1])
    A.ev("set", base=v.a[0], path=v.a[1], val=args[1])
    return [(st, old)]
@model("mem::take")
def mem_take(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1])
    ty = A.p.types[fn["targs"][0]]
    new = EMPTY if ty.get("n") in ("Vec", "String") else NONE if ty.get("n") == "Option" else ZERO if ty.get("n") in INTS else mk("default", ty["s"])
    A.write(st, v.a[0], v.a[1], new)
    A.ev("set", base=v.a[0], path=v.a[1], val=new)
    return [(st, old)]
@model("Option::take")
def opt_take(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1]); A.write(st, v.a[0], v.a[1], NONE); return [(st, old)]
@model("Option::replace")
def opt_replace(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1]); A.write(st, v.a[0], v.a[1], Some(args[1])); return [(st, old)]
@model("mem::swap")
def mem_swap(A, st, fn, args, t, site):
    a, b = args
    if a.op != "ref" or b.op != "ref": return None
    x, y = A.read(st, a.a[0], a.a[1]), A.read(st, b.a[0], b.a[1])
    A.write(st, a.a[0], a.a[1], y); A.write(st, b.a[0], b.a[1], x); return [(st, UNIT)]
@model("mem::drop", "mem::forget")
def mem_drop(A, st, fn, args, t, site):
    A.ev("call", name=fn["n"], rn=None, args=args, vals=args, fn=fn, st=st.copy())
    return [(st, UNIT)]
@model("mem::transmute", "intrinsics::transmute")
def transmute(A, st, fn, args, t, site): return [(st, args[0])]

# ---------------------------------------------------------------- conversions
@model("Into::into", "<T as Into>::into", "From::from", "<T as From>::from")
def into(A, st, fn, args, t, site):
    ts = [A.p.types[x] for x in fn["targs"]]
    src, dst = (ts[0], ts[1]) if fn["n"].startswith("Into") and len(ts) > 1 else ((ts[1], ts[0]) if len(ts) > 1 else (None, None))
    if src is not None and src["s"] == dst["s"]: return [(st, args[0])]
    if src is not None and src["k"] == "prim" and dst["k"] == "prim": return [(st, args[0])]
    if src is not None and dst["k"] == "adt" and dst["n"] == "Error": return [(st, conv_err(A, st, dst, src, A.deep(st, args[0])))]
    if dst is not None and dst["k"] == "adt" and dst["n"].split("::")[-1] in ("Cow", "Box", "Arc", "Rc"): return [(st, args[0])]
    # user From impl reached through the blanket Into
    if fn["n"].startswith("Into"):
        b = find_from(A, src, dst)
        if b is not None: return [(st, ("invokebody", b))] if False else [(st, mk("conv", dst["s"], A.deep(st, args[0])))]
    return [(st, mk("conv", dst["s"] if dst else "?", A.deep(st, args[0])))]
def find_from(A, src, dst): return None
def cap_lens(A, ty):
    """lengths of the variants of ByteBlock, from its definition"""
    out = set()
    for v in ty.get("variants", []):
        for f in v.get("ft", ()):
            ft = A.p.types[f]
            if ft["k"] != "array" or ft["n"] is None: return None
            out.add(ft["n"])
    return out or None
def cap_known(A, st, n, good):
    """is n known to be one of the allowed lengths?"""
    for a, v in st.facts.items():
        if v is not True: continue
        if a.op == "call" and "contains" in str(a.a[0]) and len(a.a[1]) == 2 and a.a[1][1] is n:
            l = a.a[1][0]
            if l.op == "bytes" and set(l.a[0]) <= good: return True
            if l.op == "seq" and all(x.op == "el" and x.a[0].op == "int" and x.a[0].a[0] in good for x in l.a[0]): return True
        if a.op == "eq" and n in a.a:
            o = a.a[0] if a.a[1] is n else a.a[1]
            if o.op == "int" and o.a[0] in good: return True
    return False
@model("ByteBlock::as_slice", over=True)
def bb_as_slice(A, st, fn, args, t, site):
    return [(st, mk("ref", mk("K", bb_bytes(A.content(st, args[0]))), ()))]
@model("ByteBlock::size", over=True)
def bb_size(A, st, fn, args, t, site):
    return [(st, ln(bb_bytes(A.content(st, args[0]))))]
def bb_bytes(v):
    if v.op == "bblock": return v.a[0]
    if v.op == "agg" and v.a[0] == "ByteBlock" and len(v.a[2]) == 1: return v.a[2][0]
    return mk("bbytes", v)
def to_byteblock(A, st, dst, args, site):
    # checked separately (props.byteblock): Ok exactly for the lengths of the variants, content kept
    c = A.deep(st, args[0]); n = ln(c); tv = None
    good = cap_lens(A, dst)
    if n.op == "int": tv = n.a[0] in good if good else None
    elif good and cap_known(A, st, n, good): tv = True
    ok, bad = Ok(mk("bblock", c)), Err(mk("err", "byteblock", site))
    if tv is True: return [(st, ok)]
    if tv is False: return [(st, bad)]
    return forkc(A, st, mk("capok", n), ok, bad)
@model("TryInto::try_into", "<T as TryInto>::try_into", "TryFrom::try_from", "<[T;N] as TryFrom>::try_from", "<&[T;N] as TryFrom>::try_from", "<usize as TryFrom>::try_from", "<u64 as TryFrom>::try_from", "<u32 as TryFrom>::try_from", "<u8 as TryFrom>::try_from")
def try_into(A, st, fn, args, t, site):
    ts = [A.p.types[x] for x in fn["targs"]]
    if fn["n"].startswith("TryInto"): src, dst = ts[0], ts[1]
    else: dst, src = ts[0], ts[1]
    if dst["k"] == "array":
        c = A.deep(st, args[0]); n = I(dst["n"]) if dst["n"] is not None else None
        if n is not None and ln(c) is n: return [(st, Ok(c))]
        if n is not None and ln(c).op == "int": return [(st, Err(mk("err", "try_from_slice", site)))]
        cond = EQ(ln(c), n) if n is not None else mk("lenok", c)
        return forkc(A, st, cond, Ok(mk("raw", c, n) if n is not None else c), Err(mk("err", "try_from_slice", site)))
    if dst["k"] == "ref" and A.p.types[dst["to"]]["k"] == "array":
        c = A.content(st, args[0]); n = I(A.p.types[dst["to"]]["n"])
        if ln(c) is n: return [(st, Ok(args[0]))]
        if ln(c).op == "int": return [(st, Err(mk("err", "try_from_slice", site)))]
        return forkc(A, st, EQ(ln(c), n), Ok(args[0]), Err(mk("err", "try_from_slice", site)))
    if dst["k"] == "adt" and dst["n"] == "ByteBlock":
        return to_byteblock(A, st, dst, args, site)
    if dst["k"] == "prim" and src["k"] == "prim":
        ws, wd = INTS.get(src["n"], 0), INTS.get(dst["n"], 0)
        if wd >= ws and src["n"][0] == dst["n"][0]: return [(st, Ok(args[0]))]
        if {src["n"], dst["n"]} == {"u64", "usize"}: return [(st, Ok(args[0]))]
        return forkc(A, st, mk("fits", dst["n"], args[0]), Ok(mk("trunc", dst["n"], args[0]) if wd < ws and dst["n"][0] == "u" and args[0].op != "int" else args[0]), Err(mk("err", "try_from_int", site)))
    return None
@model("<ByteBlock as TryFrom>::try_from", over=True)
def byteblock_from(A, st, fn, args, t, site):
    dst = next((x for x in A.p.types if isinstance(x, dict) and x["k"] == "adt" and x["n"] == "ByteBlock"), None)
    return None if dst is None else to_byteblock(A, st, dst, args, site)
@model("Try::branch", "<Result as Try>::branch", "<Option as Try>::branch")
def branch(A, st, fn, args, t, site):
    ty = A.p.types[fn["targs"][0]]
    out = []
    if ty["n"] == "Result":
        for s, x, *l in split(A, st, args[0], "Result", (("Ok", 1), ("Err", 1))):
            if is_agg(x, "Ok"): out.append((s, agg("ControlFlow", "Continue", (x.a[2][0],)), *l))
            else: out.append((s, agg("ControlFlow", "Break", (Err(x.a[2][0]),)), *l))
    else:
        for s, x, *l in split(A, st, args[0], "Option", (("Some", 1), ("None", 0))):
            if is_agg(x, "Some"): out.append((s, agg("ControlFlow", "Continue", (x.a[2][0],)), *l))
            else: out.append((s, agg("ControlFlow", "Break", (NONE,)), *l))
    return out
@model("FromResidual::from_residual", "<Result as FromResidual>::from_residual", "<Option as FromResidual>::from_residual")
def from_residual(A, st, fn, args, t, site):
    v = args[0]
    if is_agg(v, "None"): return [(st, NONE)]
    ts = [A.p.types[x] for x in fn["targs"]]
    if is_agg(v, "Err"):
        e = v.a[2][0]
        try:
            d = A.p.types[ts[0]["args"][1]]; s = A.p.types[ts[1]["args"][1]]
            if d["s"] != s["s"]: e = conv_err(A, st, d, s, e)
        except Exception: pass
        return [(st, Err(e))]
    return [(st, mk("conv", "?", v))]
def conv_err(A, st, d, s, e):
    if d.get("k") == "adt" and d["n"] == "Error" and d["kind"] == "enum":
        names = {v["n"] for v in d["variants"]}
        if s["s"].endswith("io::Error") and "Io" in names: return agg("Error", "Io", (e,))
        if s["s"].endswith("TryFromSliceError") and "TryFromSliceError" in names: return agg("Error", "TryFromSliceError", (e,))
    return mk("conv", d.get("n", d["s"]), e)

def split(A, st, v, ename, variants):
    """case split of an enum value -> [(state, agg)]"""
    if v.op == "agg": return [(st, v)]
    out = []
    for n, k in variants:
        if v.op == "phi":
            cs = [x for x in v.a[0] if not (x.op == "agg" and x.a[1] != n)]
            if not cs: continue
            nv = agg(ename, n, [phi([getf(x, n, i) for x in cs]) for i in range(k)])
        else: nv = agg(ename, n, [getf(v, n, i) for i in range(k)])
        d = mk("discr", v)
        kn = st.facts.get(d)
        if kn is not None and kn != n: continue
        s = st.copy(); s.facts[d] = n
        A.subst_all(s, {v: nv})
        out.append((s, nv, (d, n)))
    return out
def R(A, st, v): return split(A, st, v, "Result", (("Ok", 1), ("Err", 1)))
def O(A, st, v): return split(A, st, v, "Option", (("Some", 1), ("None", 0)))

# ---------------------------------------------------------------- Option / Result combinators
def comb(kind, table):
    def f(A, st, fn, args, t, site):
        out = []
        for s, x, *l in (R if kind == "R" else O)(A, st, args[0]):
            h = table[x.a[1]]
            r = h(A, s, x.a[2][0] if x.a[2] else None, args, site, x)
            for q in (r if isinstance(r, list) else [(s, r)]):
                out.append(tuple(q[:2]) + tuple(l))
        return out
    return f
def inv(post, i=1):
    return lambda A, s, v, args, site, x: ("invoke", args[i], [v] if v is not None else [], post)
same = lambda A, s, v, args, site, x: x
def diverge(A, s, v, args, site, x):
    A.ev("panic", what="unwrap", st=s.copy(), val=x)
    return []
const = lambda c: (lambda A, s, v, args, site, x: c)
val = lambda A, s, v, args, site, x: v
M["Result::map"] = comb("R", {"Ok": inv(("Ok",)), "Err": same})
M["Result::map_err"] = comb("R", {"Err": inv(("Err",)), "Ok": same})
M["Result::and_then"] = comb("R", {"Ok": inv(None), "Err": same})
M["Result::or_else"] = comb("R", {"Err": inv(None), "Ok": same})
M["Result::unwrap"] = M["Result::expect"] = comb("R", {"Ok": val, "Err": diverge})
M["Result::unwrap_or"] = comb("R", {"Ok": val, "Err": lambda A, s, v, args, site, x: args[1]})
M["Result::unwrap_or_else"] = comb("R", {"Ok": val, "Err": inv(None)})
M["Result::unwrap_or_default"] = comb("R", {"Ok": val, "Err": lambda A, s, v, args, site, x: mk("default", site)})
M["Result::ok"] = comb("R", {"Ok": lambda A, s, v, args, site, x: Some(v), "Err": const(NONE)})
M["Result::err"] = comb("R", {"Err": lambda A, s, v, args, site, x: Some(v), "Ok": const(NONE)})
M["Option::map"] = comb("O", {"Some": inv(("Some",)), "None": same})
M["Option::and_then"] = comb("O", {"Some": inv(None), "None": same})
M["Option::map_or"] = comb("O", {"Some": inv(None, 2), "None": lambda A, s, v, args, site, x: args[1]})
M["Option::map_or_else"] = comb("O", {"Some": inv(None, 2), "None": inv(None, 1)})
M["Result::map_or"] = comb("R", {"Ok": inv(None, 2), "Err": lambda A, s, v, args, site, x: args[1]})
M["Option::is_some_and"] = comb("O", {"Some": inv(None), "None": const(ZERO)})
M["Option::is_none_or"] = comb("O", {"Some": inv(None), "None": const(ONE)})
M["Result::is_ok_and"] = comb("R", {"Ok": inv(None), "Err": const(ZERO)})
M["Option::filter"] = comb("O", {"Some": lambda A, s, v, args, site, x: ("invoke", args[1], [mk("ref", mk("K", v), ())], ("filter", v)), "None": same})
M["Option::ok_or"] = comb("O", {"Some": lambda A, s, v, args, site, x: Ok(v), "None": lambda A, s, v, args, site, x: Err(args[1])})
M["Option::ok_or_else"] = comb("O", {"Some": lambda A, s, v, args, site, x: Ok(v), "None": inv(("Err",))})
M["Option::unwrap"] = M["Option::expect"] = comb("O", {"Some": val, "None": diverge})
M["Option::unwrap_or"] = comb("O", {"Some": val, "None": lambda A, s, v, args, site, x: args[1]})
M["Option::unwrap_or_else"] = comb("O", {"Some": val, "None": inv(None)})
M["Option::unwrap_or_default"] = comb("O", {"Some": val, "None": lambda A, s, v, args, site, x: mk("default", site)})
def deflt(A, st, fn, site):
    ty = A.p.types[fn["targs"][0]] if fn.get("targs") else {}
    if ty.get("n") in INTS or ty.get("n") == "bool": return ZERO
    if ty.get("n") in ("Vec", "String"): return EMPTY
    return mk("default", site)
def undef(kind, good, bad):
    def f(A, st, fn, args, t, site):
        r = comb(kind, {good: val, bad: lambda A_, s, v, a, si, x: deflt(A, s, fn, site)})
        return r(A, st, fn, args, t, site)
    return f
M["Option::unwrap_or_default"] = undef("O", "Some", "None")
M["Result::unwrap_or_default"] = undef("R", "Ok", "Err")
def transpose_o(A, st, fn, args, t, site):
    out = []
    for s, x, *l in O(A, st, args[0]):
        if x.a[1] == "None": out.append((s, Ok(NONE), *l)); continue
        for s2, y, *l2 in R(A, s, x.a[2][0]): out.append((s2, Ok(Some(y.a[2][0])) if y.a[1] == "Ok" else y, *(l2 or l)))
    return out
def transpose_r(A, st, fn, args, t, site):
    out = []
    for s, x, *l in R(A, st, args[0]):
        if x.a[1] == "Err": out.append((s, Some(x), *l)); continue
        for s2, y, *l2 in O(A, s, x.a[2][0]): out.append((s2, Some(Ok(y.a[2][0])) if y.a[1] == "Some" else NONE, *(l2 or l)))
    return out
M["Option::transpose"] = transpose_o; M["Result::transpose"] = transpose_r
def flat(kind, good):
    def f(A, st, fn, args, t, site):
        out = []
        for s, x, *l in (R if kind == "R" else O)(A, st, args[0]):
            if x.a[1] != good: out.append((s, x, *l)); continue
            for s2, y, *l2 in (R if kind == "R" else O)(A, s, x.a[2][0]): out.append((s2, y, *(l2 or l)))
        return out
    return f
M["Option::flatten"] = flat("O", "Some"); M["Result::flatten"] = flat("R", "Ok")
M["Option::and"] = comb("O", {"Some": lambda A, s, v, args, site, x: args[1], "None": same})
M["Result::and"] = comb("R", {"Ok": lambda A, s, v, args, site, x: args[1], "Err": same})
M["Result::or"] = comb("R", {"Err": lambda A, s, v, args, site, x: args[1], "Ok": same})
M["Result::map_or_else"] = comb("R", {"Ok": inv(None, 2), "Err": inv(None, 1)})
M["Result::is_err_and"] = comb("R", {"Err": inv(None), "Ok": const(ZERO)})
M["Option::or"] = comb("O", {"Some": same, "None": lambda A, s, v, args, site, x: args[1]})
M["Option::or_else"] = comb("O", {"Some": same, "None": inv(None)})
M["bool::then"] = lambda A, st, fn, args, t, site: forkc(A, st, args[0], ("invoke", args[1], [], ("Some",)), NONE)
M["bool::then_some"] = lambda A, st, fn, args, t, site: forkc(A, st, args[0], Some(args[1]), NONE)
def isv(kind, v):
    def f(A, st, fn, args, t, site):
        x = args[0]
        loc = x if x.op == "ref" else None
        c = A.one_deref(st, x)
        out = []
        for s, y, *l in (R if kind == "R" else O)(A, st, c):
            out.append((s, ONE if y.a[1] == v else ZERO, *l))
        return out
    return f
M["Option::is_some"] = isv("O", "Some"); M["Option::is_none"] = isv("O", "None")
M["Result::is_ok"] = isv("R", "Ok"); M["Result::is_err"] = isv("R", "Err")
def as_ref(kind):
    def f(A, st, fn, args, t, site):
        x = args[0]
        if x.op != "ref": x = mk("ref", mk("D", x), ())
        c = A.one_deref(st, x)
        out = []
        for s, y, *l in (R if kind == "R" else O)(A, st, c):
            if y.a[2]: r = agg(y.a[0], y.a[1], (mk("ref", x.a[0], x.a[1] + (("f", y.a[1], 0),)),))
            else: r = y
            out.append((s, r, *l))
        return out
    return f
for _n in ("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut"): M[_n] = as_ref("O")
for _n in ("Result::as_ref", "Result::as_mut"): M[_n] = as_ref("R")
@model("Box::new", "Arc::new", "Rc::new", "Box::pin", "Mutex::new", "Wrapping")
def box_new(A, st, fn, args, t, site): return [(st, agg(fn["n"].split("::")[0], "", (args[0],)))]

# ---------------------------------------------------------------- crc32fast
@model("Hasher::new", "<Hasher as Default>::default")
def h_new(A, st, fn, args, t, site): return [(st, agg("Hasher", "", (EMPTY,)))] if "crc32fast" in (fn["krate"], fn.get("rkrate")) else None
@model("Hasher::new_with_initial")
def h_newi(A, st, fn, args, t, site): return [(st, agg("Hasher", "", (mk("seq", (mk("crcinit", args[0]),)),)))]
@model("Hasher::update")
def h_upd(A, st, fn, args, t, site):
    h = args[0]
    if fn["krate"] != "crc32fast" or h.op != "ref": return None
    old = getf(A.content(st, h), None, 0)
    A.write(st, h.a[0], h.a[1], agg("Hasher", "", (seq([old, A.deep(st, args[1])]),)))
    return [(st, UNIT)]
@model("Hasher::finalize")
def h_fin(A, st, fn, args, t, site): return [(st, mk("crc32", getf(args[0], None, 0)))] if fn["krate"] == "crc32fast" else None
@model("crc32fast::hash", "lib::hash")
def crc_hash(A, st, fn, args, t, site): return [(st, mk("crc32", A.deep(st, args[0])))] if fn["krate"] == "crc32fast" else None

# ---------------------------------------------------------------- iterators
def it(kind, *a): return agg("It", kind, a)
@model("[T]::iter", "[T]::iter_mut", "Vec::iter", "VecDeque::iter", "Option::iter")
def sl_iter(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": v = mk("ref", mk("D", v), ())
    return [(st, it("refs", v))]
@model("IntoIterator::into_iter", "<I as IntoIterator>::into_iter", "<Vec as IntoIterator>::into_iter", "<&[T] as IntoIterator>::into_iter", "<&Vec as IntoIterator>::into_iter", "<[T;N] as IntoIterator>::into_iter", "<&[T;N] as IntoIterator>::into_iter")
def into_iter(A, st, fn, args, t, site):
    v = args[0]; ty = A.p.types[fn["targs"][0]]
    if v.op == "agg" and (v.a[0] == "It" or v.a[0].startswith("Range")): return [(st, v)]
    if ty["k"] == "ref":
        to = A.p.types[ty["to"]]
        if to["k"] == "param" or (to["k"] == "adt" and to["n"] not in ("Vec", "Option", "VecDeque", "Box")): return [(st, v)]   # &mut I
        if v.op != "ref": v = mk("ref", mk("D", v), ())
        return [(st, it("refs", v))]
    if ty["k"] == "adt" and ty["n"] in ("Vec", "Option", "Box", "VecDeque") or ty["k"] == "array": return [(st, it("vals", v))]
    return [(st, v)]
@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::take_while", "Iterator::skip_while", "Iterator::flat_map", "Iterator::inspect", "Iterator::map_while")
def it_clo(A, st, fn, args, t, site): return [(st, it(fn["n"].split("::")[1], args[0], args[1]))]
@model("Iterator::enumerate", "Iterator::rev", "Iterator::copied", "Iterator::cloned", "Iterator::peekable", "Iterator::fuse", "Iterator::by_ref")
def it_un(A, st, fn, args, t, site):
    n = fn["n"].split("::")[1]
    if n in ("fuse", "by_ref"): return [(st, args[0])]
    return [(st, it(n, args[0]))]
@model("Iterator::take", "Iterator::skip", "Iterator::zip", "Iterator::chain", "Iterator::step_by")
def it_bin(A, st, fn, args, t, site):
    return [(st, it(fn["n"].split("::")[1], args[0], args[1]))]
@model("[T]::chunks", "[T]::chunks_exact", "[T]::windows")
def it_chunks(A, st, fn, args, t, site): return [(st, it(fn["n"].split("::")[1], args[0], args[1]))]
def elem(A, st, i, site):
    """symbolic element of iterator value i: (elem, closure-or-None, post)"""
    if i.op == "ref": i = A.content(st, i)
    if i.op == "agg" and i.a[0] == "It":
        k = i.a[1]; a = i.a[2]
        if k == "refs" and a[0].op != "ref": return mk("elem", a[0], site), None, None
        if k == "refs": return mk("ref", a[0].a[0], a[0].a[1] + (("i", mk("idx", site)),)), None, None
        if k == "vals": return at(a[0], mk("idx", site)), None, None
        if k in ("map",):
            e, c, p = elem(A, st, a[0], site)
            if c is not None: return mk("mapped", e, A.deep(st, a[1])), None, None
            return e, a[1], None
        if k in ("filter", "inspect", "take_while", "skip_while"):
            e, c, p = elem(A, st, a[0], site)
            if c is not None: return mk("filtered", e), None, None
            return e, None, None
        if k == "enumerate":
            e, c, p = elem(A, st, a[0], site)
            if c is not None: return tup(mk("idx", site), mk("mapped", e, A.deep(st, c))), None, None
            return tup(mk("idx", site), e), None, None
        if k in ("rev", "take", "skip", "peekable", "step_by"): return elem(A, st, a[0], site)
        if k in ("copied", "cloned"):
            e, c, p = elem(A, st, a[0], site)
            return A.one_deref(st, e), c, p
        if k == "zip":
            e1, c1, _ = elem(A, st, a[0], site); e2, c2, _ = elem(A, st, a[1], site)
            return tup(e1, e2), None, None
        if k in ("chunks", "chunks_exact", "windows"):
            return mk("ref", a[0].a[0], a[0].a[1] + (("s", mul(mk("idx", site), a[1]), add(mul(mk("idx", site), a[1]), a[1])),)) if a[0].op == "ref" else mk("elem", i, site), None, None
        return mk("elem", A.deep(st, i), site), None, None
    if i.op == "agg" and i.a[0] in ("Range", "RangeInclusive"):
        return mk("rng", i.a[2][0], i.a[2][1], site), None, None
    return mk("elem", A.deep(st, i), site), None, None
def endless(i):
    """`a..`, also behind adaptors that keep every element"""
    while i.op == "agg" and i.a[0] == "It" and i.a[1] in ("map", "enumerate", "skip", "step_by", "inspect", "by_ref", "copied", "cloned"): i = i.a[2][0]
    return i.op == "agg" and i.a[0] == "RangeFrom"
def isknown(i): return i.op == "agg" and (i.a[0] == "It" or i.a[0].startswith("Range"))
@model("Iterator::next", "<Iter as Iterator>::next", "<IterMut as Iterator>::next", "<Range as Iterator>::next", "<Enumerate as Iterator>::next", "<Map as Iterator>::next", "<IntoIter as Iterator>::next", "<Filter as Iterator>::next", "<Rev as Iterator>::next", "<Take as Iterator>::next", "<Skip as Iterator>::next", "<Zip as Iterator>::next", "<RangeInclusive as Iterator>::next", "<Copied as Iterator>::next", "<Cloned as Iterator>::next", "<ChunksExact as Iterator>::next", "<Chunks as Iterator>::next", "<Drain as Iterator>::next", "<FilterMap as Iterator>::next", "<StepBy as Iterator>::next", "<Chain as Iterator>::next", "<Peekable as Iterator>::next", "<TakeWhile as Iterator>::next")
def it_next(A, st, fn, args, t, site):
    i = A.content(st, args[0])
    if not isknown(i):
        return None
    e, c, p = elem(A, st, i, site)
    s2 = st.copy()
    lab = mk("next", site)
    A.ev("next", src=strip_fn(A, st, i), elem=A.deep(st, e), site=site, st=st.copy())
    out = [] if endless(i) else [(st.copy(), NONE, (lab, "None"))]
    if i.op == "agg" and i.a[0] == "It" and i.a[1] in ("filter", "take_while") and c is None and e.op != "filtered":
        out.append((s2, ("invoke", i.a[2][1], [mk("ref", mk("K", e), ())], ("filter", e)), (lab, "Some")))
    elif i.op == "agg" and i.a[0] == "It" and i.a[1] in ("filter_map",):
        e2, c2, _ = elem(A, st, i.a[2][0], site)
        out.append((s2, ("invoke", i.a[2][1], [e2], None), (lab, "Some")))
    elif c is not None: out.append((s2, ("invoke", c, [e], ("Some",)), (lab, "Some")))
    else:
        if e.op == "rng": A.assume(s2, LT(e, e.a[1]), True)
        out.append((s2, Some(e), (lab, "Some")))
    return out
def src_key(A, st, i):
    return A.deep(st, i)
def it_consume(post):
    def f(A, st, fn, args, t, site):
        i = A.content(st, args[0]) if args[0].op == "ref" else args[0]
        if post == "collect" and i.op == "agg" and i.a[0] == "It" and i.a[1] == "flat_map":
            e, c, p = elem(A, st, i.a[2][0], site)
            if c is None: return [(st, ("invoke", i.a[2][1], [e], ("flat", mk("src", strip_fn(A, st, i.a[2][0])), mk("elem", i, site))))]
        if post == "count" and i.op == "agg" and i.a[0] == "It" and i.a[1] == "filter":
            e, c, p = elem(A, st, i.a[2][0], site)
            if c is None: return [(st, ("invoke", i.a[2][1], [mk("ref", mk("K", e), ())], ("countif", mk("src", strip_fn(A, st, i.a[2][0])))))]
        e, c, p = elem(A, st, i, site)
        if e.op in ("elem", "mapped", "filtered"): st = st.copy(); spoil(A, st, i, site)
        pt = (post, mk("src", strip_fn(A, st, i)), t["dt"])
        if c is not None: return [(st, ("invoke", c, [e], pt))]
        ff = type("F", (), {})(); ff.post = pt
        return post_list(A, st, apply_post(A, st, ff, e))
    return f
def post_list(A, st, r):
    if r is None: return []
    return r if isinstance(r, list) else [(st, r)]
def strip_fn(A, st, i):
    """what an iterator ranges over, without closures"""
    if i.op == "ref": i = A.content(st, i)
    if i.op == "agg" and i.a[0] == "It":
        if i.a[1] in ("refs", "vals"): return A.deep(st, i.a[2][0]) if i.a[1] == "refs" else i.a[2][0]
        if i.a[1] in ("map", "copied", "cloned", "enumerate", "inspect"): return strip_fn(A, st, i.a[2][0])
        return mk("itsrc", i.a[1], strip_fn(A, st, i.a[2][0]), *[A.deep(st, x) for x in i.a[2][1:] if not (x.op == "agg" and x.a[0].startswith("closure#"))])
    return A.deep(st, i)
M["Iterator::sum"] = it_consume("sum")
M["Iterator::collect"] = it_consume("collect")
M["Iterator::count"] = M["<Filter as Iterator>::count"] = it_consume("count")
M["Iterator::max"] = it_consume("max"); M["Iterator::min"] = it_consume("min"); M["Iterator::last"] = it_consume("last")
def it_pred(kind):
    def f(A, st, fn, args, t, site):
        i = A.content(st, args[0]) if args[0].op == "ref" else args[0]
        if not isknown(i) and kind not in ("any", "all", "find", "position", "find_map", "for_each", "try_for_each"): return None
        e, c, p = elem(A, st, i, site)
        if c is not None: e = mk("mapped", e, A.deep(st, c))
        arg = e
        if kind == "find": arg = mk("ref", mk("K", e), ())
        return [(st, ("invoke", args[1], [arg], ("it_" + kind, e, mk("src", strip_fn(A, st, i)), site)))]
    return f
for _k in ("any", "all", "find", "position", "find_map", "for_each", "try_for_each"):
    M["Iterator::" + _k] = M["<Iter as Iterator>::" + _k] = M["<IterMut as Iterator>::" + _k] = it_pred(_k)
@model("Iterator::fold", "<Iter as Iterator>::fold", "Iterator::try_fold")
def it_fold(A, st, fn, args, t, site):
    i = args[0]
    e, c, p = elem(A, st, i, site)
    if c is not None: e = mk("mapped", e, A.deep(st, c))
    L = mk("loop", site.a[0], site.a[1], mk("FOLD"), ())
    li = A.loopinfo.setdefault(L, {"init": {}, "next": {}})
    li["init"][args[1]] = 1
    return [(st, ("invoke", args[2], [L, e], ("fold", L)))]
@model("Vec::retain", "Vec::retain_mut")
def retain(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    old = A.read(st, v.a[0], v.a[1])
    A.ev("vecop", op="retain", base=v.a[0], path=v.a[1], old=old, clo=A.deep(st, args[1]), st=st.copy())
    A.write(st, v.a[0], v.a[1], mk("retained", old, site))
    e = mk("ref", mk("K", at(old, mk("idx", site))), ())
    return [(st, ("invoke", args[1], [e], ("retain", at(old, mk("idx", site)), site)))]
@model("Vec::extend", "Extend::extend", "<Vec as Extend>::extend")
def extend(A, st, fn, args, t, site):
    v = args[0]
    if v.op != "ref": return None
    i = args[1]
    if i.op in ("ref",) or (not isknown(i)):
        A.write(st, v.a[0], v.a[1], seq([A.read(st, v.a[0], v.a[1]), A.deep(st, i)])); return [(st, UNIT)]
    if i.a[0] == "It" and i.a[1] in ("copied", "cloned", "refs", "vals"):
        A.write(st, v.a[0], v.a[1], seq([A.read(st, v.a[0], v.a[1]), strip_fn(A, st, i)])); return [(st, UNIT)]
    e, c, p = elem(A, st, i, site)
    if c is not None: return [(st, ("invoke", c, [e], ("extend", v, mk("src", strip_fn(A, st, i)))))]
    A.write(st, v.a[0], v.a[1], seq([A.read(st, v.a[0], v.a[1]), mk("star", e, mk("src", strip_fn(A, st, i)))])); return [(st, UNIT)]
@model("RangeInclusive::new")
def ri_new(A, st, fn, args, t, site): return [(st, agg("RangeInclusive", "", (args[0], args[1], ZERO)))]
def rget(i):
    def f(A, st, fn, args, t, site):
        v = args[0]
        c = A.content(st, v)
        if c.op == "agg": return [(st, mk("ref", mk("K", c.a[2][i]), ()))]
        return [(st, mk("ref", mk("K", mk("fld", c, None, i)), ()))]
    return f
M["RangeInclusive::start"] = rget(0); M["RangeInclusive::end"] = rget(1)
@model("RangeInclusive::into_inner")
def ri_inner(A, st, fn, args, t, site): return [(st, tup(getf(args[0], None, 0), getf(args[0], None, 1)))]
@model("RangeInclusive::contains", "Range::contains")
def r_contains(A, st, fn, args, t, site):
    c = A.content(st, args[0]); x = A.deep(st, args[1])
    return [(st, mk("inrange", getf(c, None, 0), getf(c, None, 1), x))]

# ---------------------------------------------------------------- panics
for _n in ("panicking::panic", "panicking::panic_fmt", "panicking::panic_bounds_check", "panicking::unreachable_display", "rt::begin_panic", "panicking::panic_explicit", "panicking::panic_display", "panicking::assert_failed", "panicking::panic_nounwind"):
    def _p(A, st, fn, args, t, site):
        A.ev("panic", what=fn["n"], st=st.copy(), val=None)
        return []
    M[_n] = _p

# ---------------------------------------------------------------- closures' post-processing
def forget(st, site):
    """state without what is known about the element of the traversal at `site`"""
    s = st.copy(); ix = mk("idx", site)
    for a in [a for a in s.facts if contains(a, lambda t: t is ix)]: del s.facts[a]
    return s
REPEATED = {"sum", "count", "countif", "flat", "max", "min", "last", "collect", "fold", "retain", "extend"}
def mutable_captures(A, c, ty):
    return [(i, x) for i, x in enumerate(c.a[2]) if x.op == "ref" and i < len(ty.get("up", ())) and A.p.types[ty["up"][i]]["k"] == "ref" and A.p.types[ty["up"][i]]["mut"]]
def widen_captures(A, st, c, ty, post, site):
    """a closure run once per element: what it changes outside is, on entry, whatever earlier elements left"""
    k = post[0]
    if k not in REPEATED and not k.startswith("it_"): return st, post
    caps = mutable_captures(A, c, ty)
    if not caps: return st, post
    st = st.copy(); out = []
    for i, x in caps:
        old = A.read(st, x.a[0], x.a[1])
        L = mk("loop", site.a[0], site.a[1], mk("CAP", i), ())
        A.loopinfo.setdefault(L, {"init": {}, "next": {}})["init"][old] = 1
        A.write(st, x.a[0], x.a[1], L); out.append((x.a[0], x.a[1], L))
    src = post[2] if k in ("it_for_each", "extend") else post[1] if k in ("sum", "count", "collect") and A.p.types[post[2]].get("n") not in ("Result", "Option") else None
    if src is not None and src.op == "src": A.ev("next", src=src.a[0], elem=src.a[0], site=site, st=st.copy())
    return st, ("caps", tuple(out), post)
def spoil(A, st, i, site):
    """closures of an iterator chain that are not interpreted may change what they captured"""
    if i.op == "ref": i = A.content(st, i)
    if i.op != "agg" or i.a[0] != "It": return
    for x in i.a[2]:
        if x.op == "agg" and x.a[0].startswith("closure#"):
            for j, r in mutable_captures(A, x, A.p.types[int(x.a[0].split("#")[1])]):
                A.write(st, r.a[0], r.a[1], mk("havoc", "closure", site, j, A.read(st, r.a[0], r.a[1])))
        elif isinstance(x, Term): spoil(A, st, x, site)
def apply_post(A, st, f, v):
    p = f.post
    if p is None: return v
    k = p[0]
    if k == "caps":
        for base, path, L in p[1]:
            A.loopinfo[L]["next"][A.read(st, base, path)] = 1
            A.write(st, base, path, L)
        ff = type("F", (), {})(); ff.post = p[2]
        return apply_post(A, st, ff, v)
    if k == "Some": return Some(v)
    if k == "Ok": return Ok(v)
    if k == "Err": return Err(v)
    if k == "sum": return mk("sum", A.deep(st, v), p[1])
    if k == "count": return mk("count", p[1])
    if k == "countif": return mk("countif", A.deep(st, v), p[1])
    if k == "flat":
        x = A.deep(st, v)
        return mk("star", x if x.op in ("le", "bytes", "seq", "raw", "rd") else p[2], p[1])
    if k in ("max", "min", "last"): return mk("itm", k, A.deep(st, v), p[1])
    if k == "collect":
        dt = A.p.types[p[2]]
        x = A.deep(st, v)
        if dt.get("n") == "Result":
            out = []
            s2 = st.copy()
            for s, y, *l in R(A, st, x):
                out.append((s, Ok(mk("star", y.a[2][0], p[1])) if y.a[1] == "Ok" else y))
            return out
        if dt.get("n") == "Option":
            return [(s, Some(mk("star", y.a[2][0], p[1])) if y.a[1] == "Some" else y) for s, y, *l in O(A, st, x)]
        return mk("star", x, p[1])
    if k == "filter":
        tv = A.truth(st, v)
        if tv is False: return None
        s = st.copy(); A.assume(s, v, True)
        return [(s, Some(p[1]))]
    if k in ("it_any", "it_all"):
        tv = A.truth(st, v)     # the element looked at stands for: every one passed over, or the one that settled it
        if tv is False: return ZERO
        if tv is True:
            if k == "it_all": return ONE
            return [(st.copy(), ONE), (forget(st, p[3]), ZERO)]
        e = mk(k[3:], A.deep(st, v), p[2])
        return e
    if k == "it_position":
        c = mk("any", A.deep(st, v), p[2])
        s1 = st.copy(); A.assume(s1, c, True)
        if p[2].op == "src" and p[2].a[0].op != "itsrc": A.assume(s1, LT(mk("idx", p[3]), ln(p[2].a[0])), True)
        s2 = st.copy(); A.assume(s2, c, False)
        return [(s1, Some(mk("idx", p[3]))), (s2, NONE)]
    if k == "it_find":
        c = mk("any", A.deep(st, v), p[2])
        s1 = st.copy(); A.assume(s1, c, True); A.assume(s1, v, True)
        s2 = st.copy(); A.assume(s2, c, False)
        return [(s1, Some(p[1])), (s2, NONE)]
    if k == "it_find_map":
        out = [(s, y) for s, y, *l in O(A, st, v)]
        if not any(is_agg(y, "None") for _, y in out): out.append((forget(st, p[3]), NONE))
        return out
    if k == "it_for_each": return UNIT
    if k == "it_try_for_each": return v
    if k == "fold":
        A.loopinfo[p[1]]["next"][v] = 1
        return p[1]
    if k == "retain":
        A.ev("retain_pred", pred=A.deep(st, v), elem=p[1], st=st.copy())
        return UNIT
    if k == "extend":
        v0 = p[1]
        A.write(st, v0.a[0], v0.a[1], seq([A.read(st, v0.a[0], v0.a[1]), mk("star", A.deep(st, v), p[2])]))
        return UNIT
    return v
