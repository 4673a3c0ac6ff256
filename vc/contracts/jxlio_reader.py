"""P01: the bit reader's methods against the byte stream; P02: coded integers on top of it."""
from contract import *
import engine as en

BYTE = "stream_byte"


def byte(i):
    return tm.app(BYTE, (i,), 8)


class StreamBits(BitSrc):
    """bits of a byte stream, least significant bit of each byte first"""

    def __init__(self, length_bytes):
        BitSrc.__init__(self, "stream", tm.shl(length_bytes, bv(3, 64)))

    base = None     # (position, byte, bit): a position known in decomposed form (proved in relation())

    def window(self, pos):
        q = tm.lshr(pos, bv(3, 64))
        r = tm.trunc(pos, 3)
        if self.base is not None and pos is self.base[0]:
            q, r = self.base[1:]
        w = byte(q)
        for k in range(1, 9):
            w = tm.concat(byte(tm.add(q, bv(k, 64))), w)
        sh = tm.zext(r, 72)
        return tm.trunc(tm.lshr(w, sh), 64)


def stream_read(E, st, recv, args, ins):
    """io.Reader over a regular file / bytes.Reader: reads min(len(buf), rest) bytes, io.EOF at the end"""
    off = st.heap[recv.obj].f[0]
    buf = args[0]
    L = recv.data
    rest = tm.sub(L, off)
    n = tm.ite(tm.ult(E.vlen(buf), rest), E.vlen(buf), rest)
    if not (isinstance(buf, SliceV) and buf.obj is None):
        ln = E.vlen(buf)
        if tm.isc(ln) and ln.p == 1:
            b0 = E.elem(st, buf, Z64)
            E.store(st, Ptr(buf.obj, buf.path + (en.cstep(buf.off),)), tm.ite(tm.ult(off, L), byte(off), b0))
        else:
            E.write_range(st, buf, Z64, n, lambda i: byte(tm.add(off, i)))
    st.heap[recv.obj] = StructV([tm.add(off, n)])
    eof = tm.and_(tm.eq(off, L))
    return [n, tm.ite(eof, en.ERR_EOF, ERR_NIL)]


def read_full(E, st, args, ins):
    recv, buf = args
    off = st.heap[recv.obj].f[0]
    L = recv.data
    want = E.vlen(buf)
    rest = tm.sub(L, off)
    short = tm.ult(rest, want)
    n = tm.ite(short, rest, want)
    E.write_range(st, buf, Z64, n, lambda i: byte(tm.add(off, i)))
    st.heap[recv.obj] = StructV([tm.add(off, n)])
    return [n, tm.ite(short, tm.ite(tm.eq(rest, Z64), en.ERR_EOF, bv(3, 16)), ERR_NIL)]


def stream_seek(E, st, recv, args, ins):
    off = st.heap[recv.obj].f[0]
    o, wh = args
    base = tm.ite(tm.eq(wh, bv(0, 64)), Z64, tm.ite(tm.eq(wh, bv(1, 64)), off, recv.data))
    np = tm.add(base, o)
    bad = tm.or_(tm.slt(np, Z64), tm.ugt(wh, bv(2, 64)))
    st.heap[recv.obj] = StructV([tm.ite(bad, off, np)])
    return [tm.ite(bad, Z64, np), tm.ite(bad, ERR_SOME, ERR_NIL)]


REST = [0, 1, 2, 3, 4, 5, 6, 7, 8, (9, 1 << 40)]


class BSR(Contract):
    """base of the contracts on *jxlio.BitStreamReader: concrete representation coupled with
    an abstract position;  inv: index != 0 => currentByte is the byte before the stream offset"""
    prop = "P01"
    pkg = "jxlio"
    assumes = ("io.ReadSeeker behaves like bytes.Reader / a regular file: Read returns min(len(buf), rest) bytes, io.EOF at the end",)
    aligned = False

    def setup(self, E):
        E.absm[("Stream", "Read")] = stream_read
        E.absm[("Stream", "Seek")] = stream_seek
        E.summaries["io.ReadFull"] = read_full

    def bsr(self, x):
        if x.mode == "conc":
            r = x.reader("r", aligned=self.aligned)
            x.absr = r
            return r
        rest = x.int("rest", 64, 0, 1 << 40)      # unread bytes
        off = x.int("off", 64, 0, 1 << 40)
        L = tm.add(off, rest)
        index = x.int("index", 8, 0, 7)
        if self.aligned:
            index = bv(0, 8)
        br = x.int("bitsRead", 64)
        so = x.E.new_obj(x.s, StructV([off]), "stream")
        stream = AbsV("Stream", so, L)
        buf = x.list([x.scalar("buf0", x.tid("uint8"))], "buf")
        cur = x.scalar("cur", x.tid("uint8"))
        nz = tm.ne(index, bv(0, 8))
        x.require(tm.implies(nz, tm.and_(tm.ne(off, Z64), tm.eq(cur, byte(tm.sub(off, bv(1, 64)))))))
        p = x.alloc(x.mk("jxlio.BitStreamReader", buffer=buf, stream=stream, bitsRead=br, index=index, currentByte=cur), "bsr")
        pos = self.abspos(off, index)
        src = StreamBits(L)
        src.base = (pos, tm.ite(nz, tm.sub(off, bv(1, 64)), off), tm.trunc(index, 3))
        o = x.E.new_obj(x.s, StructV([pos]), "ghost")
        x.absr = AbsV("BitReader", o, src)
        x.bsr0 = (p, so, br, pos)
        self.ghost = x.absr
        self.rep = (p, so, br, pos, buf)
        return p

    def abspos(self, off, index):
        nz = tm.ne(index, bv(0, 8))
        return tm.sub(tm.shl(off, bv(3, 64)), tm.ite(nz, tm.sub(bv(8, 64), tm.zext(index, 64)), Z64))

    def R(self, x, r):
        """abstract reader in either mode"""
        return x.rd(r if isinstance(r, AbsV) else self.ghost)

    tracks = True    # bitsRead follows the position

    def relation(self, E, pre, args, out, res, xs, sres):
        """coupling after the call"""
        p, so, br0, pos0, buf = self.rep
        x = Ctx(E, "sym")
        x.s = out
        r = x.ref(p, "jxlio.BitStreamReader")
        off = out.heap[so].f[0]
        idx = r.index
        cur = r.currentByte
        pos1 = xs.s.heap[self.ghost.obj].f[0]
        b = self.ghost.data.base
        g = [("byte and bit of the position", tm.and_(tm.eq(tm.lshr(b[0], bv(3, 64)), b[1]), tm.eq(tm.trunc(b[0], 3), b[2]))),
             ("index < 8", tm.ult(idx, bv(8, 8))),
             ("bit position", tm.eq(self.abspos(off, idx), pos1)),
             ("cached byte", tm.or_(tm.eq(idx, bv(0, 8)), tm.eq(cur, byte(tm.sub(off, bv(1, 64)))))),
             ("offset within stream", tm.ule(off, tm.lshr(self.ghost.data.len, bv(3, 64))))]
        if self.tracks:
            g.append(("bits read", tm.eq(r.bitsRead, tm.add(br0, tm.sub(pos1, pos0)))))
        a = r._raws("buffer")
        g.append(("buffer kept", tm.boolc(isinstance(a, SliceV) and a.obj == buf.obj and a.len is buf.len)))
        a = r._raws("stream")
        g.append(("stream kept", tm.boolc(isinstance(a, AbsV) and a.obj == so)))
        return g

    def skip_objs(self):
        return {self.rep[0].obj, self.rep[1], self.ghost.obj, self.rep[4].obj}


def bsr(func, prop="P01"):
    return "(*jxlio.BitStreamReader)." + func


@contract
class ReadBit(BSR):
    func = bsr("readBit")
    samples = 100

    def inputs(self, x):
        return [self.bsr(x)]

    def spec(self, x, r):
        return [self.R(x, r).u(1, w=8)]


@contract
class ReadBits(BSR):
    func = bsr("ReadBits")
    split = {"bits": [0, (1, 31), (32, 63), 64, (65, (1 << 32) - 1)], "rest": REST}

    def inputs(self, x):
        return [self.bsr(x), x.u32("bits", sample=(0, 70))]

    def spec(self, x, r, n):
        return [self.R(x, r).u(n)]


@contract
class ShowBits(BSR):
    func = bsr("ShowBits")
    inline = (bsr("ReadBits"),)
    split = {"bits": [0, (1, 31), (32, 63), 64], "rest": REST}

    def inputs(self, x):
        return [self.bsr(x), x.i64("bits", 0, 64)]

    def spec(self, x, r, n):
        R = self.R(x, r)
        p = R.pos
        v = R.u(n)
        R.pos = p
        return [v]


@contract
class SkipBits(BSR):
    func = bsr("SkipBits")
    split = {"index": range(8)}
    inline = (bsr("readBit"),)

    def inputs(self, x):
        return [self.bsr(x), x.u32("bits", sample=(0, 500))]

    def spec(self, x, r, n):
        R = self.R(x, r)
        np = tm.add(R.pos, tm.zext(n, 64))
        x.fail(tm.ugt(np, R.src.len))
        R.pos = np
        return []


@contract
class Skip(BSR):
    func = bsr("Skip")

    def inputs(self, x):
        return [self.bsr(x), x.u32("bytes", sample=(0, 60))]

    def spec(self, x, r, n):
        R = self.R(x, r)
        np = tm.add(R.pos, tm.shl(tm.zext(n, 64), bv(3, 64)))
        x.fail(tm.ugt(np, R.src.len))
        R.pos = np
        return [tm.zext(n, 64)]


@contract
class ZeroPad(BSR):
    func = bsr("ZeroPadToByte")
    inline = (bsr("ReadBits"),)
    samples = 100
    no_error_cover = True

    def inputs(self, x):
        return [self.bsr(x)]

    def spec(self, x, r):
        R = self.R(x, r)
        R.u(tm.zext(tm.trunc(tm.neg(R.pos), 3), 64))
        return []


@contract
class BitsRead(BSR):
    func = bsr("BitsRead")
    samples = 50

    def inputs(self, x):
        return [self.bsr(x)]

    def spec(self, x, r):
        if isinstance(r, AbsV):
            return [self.R(x, r).pos]
        return [self.rep[2]]


@contract
class GetBitsCount(BitsRead):
    func = bsr("GetBitsCount")


@contract
class AtEnd(BSR):
    func = bsr("AtEnd")
    inline = (bsr("ReadBits"), bsr("ShowBits"))
    samples = 100

    def inputs(self, x):
        return [self.bsr(x)]

    def spec(self, x, r):
        R = self.R(x, r)
        return [tm.uge(R.pos, R.src.len)]


@contract
class ReadBytesToBuffer(BSR):
    """aligned: the next n bytes; unaligned: refused without consuming anything"""
    func = bsr("ReadBytesToBuffer")
    tracks = False
    no_rdcheck = True
    samples = 150

    def inputs(self, x):
        r = self.bsr(x)
        n = x.u32("n", sample=(0, 30))
        m = x.int("m", 64, 0, 1 << 34, sample=(0, 40))
        return [r, x.slice("dst", "uint8", m), n]

    def pre(self, x, r, buf, n):
        return [("the buffer holds numBytes", tm.and_(tm.ule(tm.zext(n, 64), x.E.vlen(buf)), tm.ugt(n, bv(0, 32))))]

    def spec(self, x, r, buf, n):
        R = self.R(x, r)
        p = R.pos
        n64 = tm.zext(n, 64)
        un = tm.ne(tm.trunc(p, 3), bv(0, 3))
        x.fail(un)
        np = tm.add(p, tm.shl(n64, bv(3, 64)))
        x.fail(tm.ugt(np, R.src.len), tm.not_(un))
        if x.err is not TRUE:
            x.E.write_range(x.s, buf, Z64, n64, lambda i: tm.trunc(R.src.window(tm.add(p, tm.shl(i, bv(3, 64)))), 8))
        R.pos = np
        return []


@contract
class ReadBytesUint64(BSR):
    func = bsr("ReadBytesUint64")
    tracks = False
    no_rdcheck = True
    inline = (bsr("ReadBytesToBuffer"),)

    def inputs(self, x):
        return [self.bsr(x), x.i64("n", sample=(-2, 10))]

    def spec(self, x, r, n):
        R = self.R(x, r)
        p = R.pos
        un = tm.ne(tm.trunc(p, 3), bv(0, 3))
        bad = tm.or_(tm.slt(n, bv(1, 64)), tm.sgt(n, bv(8, 64)))
        x.fail(bad)
        x.fail(un)
        ok = tm.not_(x.err)
        nb = tm.ite(ok, tm.shl(n, bv(3, 64)), Z64)
        return [R.u(nb)]

    def setup(self, E):
        BSR.setup(self, E)

        def le64(E_, st, args, ins):
            b = args[1]
            w = None
            E_.oblige(st, tm.ule(bv(8, 64), E_.vlen(b)), "Uint64 reads 8 bytes", "panic")
            for k in range(8):
                e = E_.elem(st, b, bv(k, 64))
                w = e if w is None else tm.concat(e, w)
            return [w]
        E.summaries["(encoding/binary.littleEndian).Uint64"] = le64


# ------------------------------------------------------------------ P02
class Coded(Contract):
    prop = "P02"
    pkg = "jxlio"
    opts = {"opaque": False}

    def setup(self, E):
        # the receiver is an abstract reader: calls of the kernel methods go to their contracts
        for m in ("ReadBits", "ReadBool", "readBit", "ReadU32", "ReadByte"):
            E.summaries[bsr(m)] = self.via(m)

    def via(self, m):
        def s(E, st, args, ins):
            k = m
            if m == "readBit":
                x = Ctx(E, "sym")
                x.s = st
                v = Rd(x, args[0]).u(1, w=8)
                return [v, tm.ite(x.err, ERR_SOME, ERR_NIL)]
            return E.absm[("BitReader", k)](E, st, args[0], args[1:], ins)
        return s

    def inputs(self, x):
        return [x.reader("r")]


@contract
class ReadBool(Coded):
    func = bsr("ReadBool")
    samples = 100

    def spec(self, x, r):
        return [x.rd(r).bool()]


@contract
class ReadByte(Coded):
    func = bsr("ReadByte")
    samples = 100

    def spec(self, x, r):
        return [x.rd(r).u(8, w=8)]


@contract
class ReadU32(Coded):
    func = bsr("ReadU32")

    def inputs(self, x):
        a = [x.reader("r")]
        for i in range(4):
            a.append(x.i64("c%d" % i, 0, (1 << 32) - 1))
            a.append(x.i64("u%d" % i, 0, 32))
        return a

    def spec(self, x, r, *a):
        return [x.rd(r).u32(*a)]


@contract
class ReadU64(Coded):
    func = bsr("ReadU64")

    def spec(self, x, r):
        return [x.rd(r).u64()]


@contract
class ReadU8(Coded):
    func = bsr("ReadU8")

    def spec(self, x, r):
        return [x.rd(r).u8()]


@contract
class ReadEnum(Coded):
    func = bsr("ReadEnum")

    def spec(self, x, r):
        return [x.rd(r).enum()]


@contract
class ReadF16(Coded):
    func = bsr("ReadF16")
    opts = {"fp": "ieee", "opaque": False}
    timeout = 60

    def spec(self, x, r):
        return [x.rd(r).f16()]


@contract
class ReadICCVarint(Coded):
    """values below 2^31 (the result type is a signed 32-bit integer)"""
    func = bsr("ReadICCVarint")

    def spec(self, x, r):
        R = x.rd(r)
        v = bv(0, 64)
        c = TRUE
        for i in range(9):
            b = R.u(8, c)
            v = tm.bor(v, tm.shl(tm.band(b, bv(127, 64)), bv(7 * i, 64)))
            c = tm.and_(c, tm.ugt(b, bv(127, 64)))
        return [tm.trunc(v, 32)]


@contract
class UnpackSigned(Contract):
    prop = "P02"
    func = "jxlio.UnpackSigned"

    def inputs(self, x):
        return [x.u32("u")]

    def spec(self, x, u):
        h = tm.lshr(u, bv(1, 32))
        return [tm.ite(tm.eq(tm.trunc(u, 1), bv(0, 1)), h, tm.sub(bv(-1, 32), h))]


@contract
class UnpackSigned64(Contract):
    prop = "P02"
    func = "jxlio.UnpackSigned64"

    def inputs(self, x):
        return [x.u64("u")]

    def spec(self, x, u):
        h = tm.lshr(u, bv(1, 64))
        return [tm.ite(tm.eq(tm.trunc(u, 1), bv(0, 1)), h, tm.sub(bv(-1, 64), h))]
