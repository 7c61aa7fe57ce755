"""Crypto++ as ideal functions.

A pipeline (source, filters, sink) applies functions about which nothing is known but this: the same arguments give the
same bytes; decrypting gives the text back for the key, the initial value and the cipher text it was encrypted with and
fails otherwise; uncompressing undoes compressing; what was neither compressed nor encrypted here fails (or, compressed,
gives anything)."""
import re
from . import bits as B, errmodel
from .absint import P, N, NS, Seq, Obj, Unk, Err, Undecided, bare, strip_targs

BROKEN = ("g", "#broken")
SIZES = {"SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64, "Tiger": 24}
BYTES = "std::vector<unsigned char>"
C = "CryptoPP::"
FAILED = C + "HashVerificationFilter::HashVerificationFailed"
errmodel.STD.update({FAILED: C + "Exception", C + "InvalidArgument": C + "Exception", C + "InvalidKeyLength": C + "InvalidArgument",
                     C + "Inflator::UnexpectedEndErr": C + "Inflator::Err", C + "Inflator::Err": C + "Exception",
                     C + "Exception": "std::exception"})


class Crypto:
    def __init__(self, claims):
        self.C, self.of, self.known = claims, None, {}
        self.models = {
            "probe::broken": self.broken, "probe::encrypted": self.p_encrypted, "probe::zipped": self.p_zipped,
            "probe::digest": self.p_digest, "probe::derived": self.p_derived,
            C + "GCM_Final::GCM_Final": self.cipher,
            C + "SimpleKeyingInterface::SetKeyWithIV": self.set_key,
            C + "StringSinkTemplate::StringSinkTemplate": self.sink,
            C + "AuthenticatedEncryptionFilter::AuthenticatedEncryptionFilter": self.filter("aenc", 2, 3),
            C + "AuthenticatedDecryptionFilter::AuthenticatedDecryptionFilter": self.filter("adec", 2, 3),
            C + "HashFilter::HashFilter": self.filter("hash", 2, 3),
            C + "Gzip::Gzip": self.gzip, C + "Gunzip::Gunzip": self.gunzip,
            C + "StringSource::StringSource": self.source, C + "Source::PumpAll": self.pump,
            C + "BufferedTransformation::Put": self.put, C + "BufferedTransformation::MessageEnd": self.end,
            C + "PKCS5_PBKDF2_HMAC::PKCS5_PBKDF2_HMAC": self.blank, C + "PKCS5_PBKDF2_HMAC::DeriveKey": self.derive,
            C + "SecBlock::SecBlock": self.block, C + "SecBlock::size": self.block_size, C + "SecBlock::SizeInBytes": self.block_size,
            C + "SecBlock::empty": self.block_empty, C + "SecBlock::operator[]": self.block_at}
        for f in ("begin", "data", "BytePtr", "operator unsigned char *", "operator const unsigned char *", "operator void *",
                  "operator const void *", "operator byte *", "operator const byte *"):
            self.models[C + "SecBlock::" + f] = self.block_ptr
        self.models[C + "SecBlock::end"] = self.block_end
        for c, kind in (("SecretSharing", "secret"), ("InformationDispersal", "info")):
            self.models[C + c + "::" + c] = self.sharing(kind)
        for c, kind in (("SecretRecovery", "secret"), ("InformationRecovery", "info")):
            self.models[C + c + "::" + c] = self.recovery(kind)
        T = "boost::thread_specific_ptr::"
        self.models.update({
            C + "AutoSeededX917RNG::AutoSeededX917RNG": lambda I, n, st, fr: [(st, Obj("rng", {}))],
            T + "get": self.tss, T + "operator->": self.tss, T + "operator*": self.tss, T + "reset": self.tss_set,
            C + "ChannelSwitch::ChannelSwitch": self.switch, C + "ChannelSwitch::AddRoute": self.route,
            C + "ChannelSwitch::AddDefaultRoute": self.default_route,
            C + "WordToString": self.word, C + "ArraySink::ArraySink": self.array_sink,
            C + "ArraySink::TotalPutLength": self.total, C + "ArraySink::AvailableSize": self.available,
            C + "vector_member_ptrs::vector_member_ptrs": self.ptrs, C + "vector_member_ptrs::size": self.ptrs_size,
            C + "vector_member_ptrs::operator[]": self.ptrs_at, C + "member_ptr::reset": self.ptr_set,
            C + "member_ptr::get": self.ptr_get, C + "member_ptr::operator->": self.ptr_get, C + "member_ptr::operator*": self.ptr_get,
            C + "Source::Pump": self.pump_some, C + "BufferedTransformation::Get": self.get, C + "Filter::Attach": self.attach,
            C + "BufferedTransformation::Attach": self.attach})
        for h in SIZES:
            self.models[C + h + "::" + h] = self.hash

    # ------------------------------------------------------------ the functions
    def memo(self):
        if self.of is not self.C.fail:
            self.of, self.known = self.C.fail, {}
        return self.known

    def bits(self, I, items):
        if any(isinstance(x, Unk) for x in items):
            raise Undecided("unknown bytes")
        return tuple(tuple(I.nbits(x, 8)[:8]) for x in items)

    def apply(self, I, f, size, *args):
        """The bytes of f(args)."""
        m = self.memo()
        key = (f,) + args
        if key not in m:
            if self.C.nseq > 7:
                raise Undecided("too many applications of unknown functions")
            slot = self.C.nseq
            self.C.nseq += 1
            m[key] = tuple(N(B.var((i * 8 + 7 - k) * 8 + slot) for k in range(8)) for i in range(size))
        return m[key]

    def same(self, I, a, b):
        if len(a) != len(b):
            return B.ZERO
        r = B.ONE
        for x, y in zip(a, b):
            r = B.band(r, B.eq(x, y))
            if r == B.ZERO:
                break
        return r

    def encrypt(self, I, alg, trunc, key, iv, items):
        n = 16 if trunc is None else trunc
        return self.apply(I, "aead", len(items) + n, alg, trunc, self.bits(I, key), self.bits(I, iv), self.bits(I, items))

    def undo(self, I, s, f, items, same):
        """[(state, arguments f was applied to to give these bytes, or None)]"""
        b = self.bits(I, items)
        out = []
        for key, got in list(self.memo().items()):
            if key[0] != f or s is None:
                continue
            c = B.band(same(key), self.same(I, b, self.bits(I, got)))
            if c == B.TOP:
                raise Undecided("whether bytes are those of %s" % f)
            if c == B.ZERO:
                continue
            yes = s.restrict(c)
            if yes is not None:
                out.append((yes, key))
            s = s.restrict(B.bnot(c))
        if s is not None:
            out.append((s, None))
        return out

    # ------------------------------------------------------------ the driver's words
    def broken(self, I, n, st, fr):
        st.mem[BROKEN] = 1
        return [(st, None)]

    def seqs(self, I, n, st, fr):
        from .stdmodel import seqof
        for s, vs in I.evs(n.args, st, fr):
            yield s, [v if isinstance(v, (int, N)) else seqof(I, s, v, n).items for v in vs]

    def string(self, I, n, items):
        return Seq([I.wrap(x, (8, True)) for x in items], bare(n.type))

    def p_encrypted(self, I, n, st, fr):
        return [(s, self.string(I, n, self.encrypt(I, "GCM Rijndael", None, k, iv, x))) for s, (k, iv, x) in self.seqs(I, n, st, fr)]

    def p_zipped(self, I, n, st, fr):
        return [(s, self.string(I, n, self.zip(I, lv, 15, x))) for s, (lv, x) in self.seqs(I, n, st, fr)]

    def p_digest(self, I, n, st, fr):
        return [(s, self.string(I, n, self.digest(I, C + "SHA%d" % k, x, None))) for s, (k, x) in self.seqs(I, n, st, fr)]

    def p_derived(self, I, n, st, fr):
        return [(s, self.string(I, n, self.apply(I, "pbkdf2", size, C + "SHA%d" % k, self.bits(I, pw), self.bits(I, salt),
                                                 tuple(I.nbits(it, 32)))))
                for s, (k, pw, salt, it, size) in self.seqs(I, n, st, fr)]

    def zip(self, I, level, window, items):
        return self.apply(I, "gzip", len(items) + 18, level, window, self.bits(I, items))

    def digest(self, I, kind, items, trunc):
        h = strip_targs(kind).split("::")[-1]
        return self.apply(I, "hash", SIZES[h], h, self.bits(I, items))[:trunc]

    # ------------------------------------------------------------ objects
    def blank(self, I, n, st, fr):
        if n.kids:
            raise Undecided("%s at %s" % (n.decl.q, n.loc))
        return [(st, Obj("pbkdf2", {"hash": re.sub(r".*<\s*([\w:]+)\s*>.*", r"\1", bare(n.type))}))]

    def cipher(self, I, n, st, fr):
        m = re.match(r"CryptoPP::GCM_Final<([\w:]+), .*?(true|false|1|0)>", bare(n.type))
        if n.kids or not m:
            raise Undecided("a cipher %s at %s" % (n.type, n.loc))
        return [(st, Obj("cipher", {"alg": "GCM " + m.group(1).split("::")[-1], "enc": int(m.group(2) in ("true", "1"))}))]

    def hash(self, I, n, st, fr):
        if n.kids:
            raise Undecided("%s at %s" % (n.decl.q, n.loc))
        return [(st, Obj("hashing", {"kind": n.decl.cls, "data": Seq((), BYTES)}))]

    def read(self, I, s, p, k, n):
        if not isinstance(k, int) or k > 100000 or k and not isinstance(p, P):
            raise Undecided("bytes read at %s" % n.loc)
        vs = [I.load(s, p.plus(i), n) for i in range(k)]
        if any(isinstance(v, Unk) and v.why == "uninitialised" for v in vs):
            I.note_oob(n, "an uninitialised value is read")
            vs = [0 if isinstance(v, Unk) and v.why == "uninitialised" else v for v in vs]
        return [I.wrap(v, (8, False)) for v in vs]

    def objs(self, I, n, st, fr):
        from .stdmodel import objplace, I_canon
        for s, p in objplace(I, n, st, fr):
            p = I_canon(I, s, p)
            yield s, p, I.load(s, p, n)

    def set_key(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            for s2, vs in I.evs(n.args, s, fr):
                ivlen = vs[3] if len(vs) > 3 else 16
                if vs[1] not in (16, 24, 32):
                    I.sink[-1].append((s2, Err("CryptoPP", C + "InvalidKeyLength")))
                    continue
                I.put(s2, p, Obj("cipher", dict(o.f, key=Seq(self.read(I, s2, vs[0], vs[1], n), BYTES),
                                                iv=Seq(self.read(I, s2, vs[2], ivlen, n), BYTES))), n)
                out.append((s2, None))
        return out

    def sink(self, I, n, st, fr):
        from .stdmodel import I_canon
        return [(s, Obj("sink", {"to": I_canon(I, s, p)})) for s, p in I.lv(n.kids[0], st, fr)]

    def whole(self, v, n):
        if not isinstance(v, int):
            raise Undecided("an argument at %s" % n.loc)
        return v

    def filter(self, kind, a, b):
        def make(I, n, st, fr):
            from .stdmodel import I_canon
            out = []
            for s, p in I.lv(n.kids[0], st, fr):
                for s2, vs in I.evs(n.kids[1:b + 1], s, fr):
                    t = self.whole(vs[2], n)
                    out.append((s2, Obj(kind, {"by": I_canon(I, s2, p), "to": vs[0], "flags": self.whole(vs[1], n),
                                               "trunc": None if t in (-1, 2 ** 32 - 1) else t, "buf": Seq((), BYTES)})))
            return out
        return make

    def gzip(self, I, n, st, fr):
        if len(n.kids) < 3:
            raise Undecided("%s at %s" % (n.decl.q, n.loc))
        out = []
        for s, vs in I.evs(n.kids[:3], st, fr):
            lv, w = self.whole(vs[1], n), self.whole(vs[2], n)
            if not 0 <= lv <= 9:
                I.sink[-1].append((s, Err("CryptoPP", C + "InvalidArgument")))
            else:
                out.append((s, Obj("gzip", {"to": vs[0], "level": lv, "window": w, "buf": Seq((), BYTES)})))
        return out

    def gunzip(self, I, n, st, fr):
        return [(s, Obj("gunzip", {"to": vs[0], "buf": Seq((), BYTES)})) for s, vs in I.evs(n.kids[:1], st, fr)]

    # ------------------------------------------------------------ data through the pipeline
    def source(self, I, n, st, fr):
        from .stdmodel import seqof
        pt = [bare(t) for t in n.decl.ptypes]
        if len(n.kids) < 3:
            raise Undecided("%s at %s" % (n.decl.q, n.loc))
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            if len(vs) == 4:
                items, rest = self.read(I, s, vs[0], vs[1], n), vs[2:]
            else:
                items, rest = seqof(I, s, vs[0], n).items, vs[1:]
            o = Obj("source", {"items": Seq(items, BYTES), "to": rest[1]})
            if not self.whole(rest[0], n):
                out.append((s, o))
                continue
            out += [(s2, o) for s2 in self.run(I, s, items, rest[1], n, True)]
        return out

    def pump(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            I.put(s, p, Obj("source", dict(o.f, items=Seq((), BYTES))), n)
            out += [(s2, None) for s2 in self.run(I, s, o.f["items"].items, o.f["to"], n, True)]
        return out

    def put(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            for s2, vs in I.evs(n.args, s, fr):
                items = (vs[0],) if bare(n.decl.ptypes[0]) == "unsigned char" else self.read(I, s2, vs[0], vs[1], n)
                out += [(s3, 0) for s3 in self.run(I, s2, items, p, n, False)]
        return out

    def end(self, I, n, st, fr):
        return [(s2, 0) for s, p, o in list(self.objs(I, n, st, fr)) for s2 in self.run(I, s, (), p, n, True)]

    def fail(self, I, s, ty):
        I.sink[-1].append((s, Err("CryptoPP", ty)))

    def run(self, I, s, items, to, n, end):
        """The states after the bytes went through the pipeline that starts at to."""
        if not isinstance(to, P):
            raise Undecided("where data go at %s" % n.loc)
        o = I.load(s, to, n)
        if not isinstance(o, Obj):
            raise Undecided("a transformation at %s" % n.loc)
        kind = o.cls
        if kind == "sink":
            cur = I.load(s, o.f["to"], n)
            sg = "char" in cur.ty and "unsigned" not in cur.ty
            I.put(s, o.f["to"], Seq(tuple(cur.items) + tuple(I.wrap(x, (8, sg)) for x in items), cur.ty), n)
            return [s]
        if kind == "array":
            k = min(len(items), max(0, o.f["size"] - o.f["total"]))
            for i in range(k):
                I.put(s, o.f["to"].plus(o.f["total"] + i), items[i], n)
            I.put(s, to, Obj("array", dict(o.f, total=o.f["total"] + len(items))), n)
            return [s]
        if kind == "switch":
            if o.f["one"] is None:
                raise Undecided("data on the default channel at %s" % n.loc)
            return self.channel(I, s, o.f["one"], o.f["ch"].items, items, n, end)
        if kind in ("secret", "info"):
            return self.share(I, s, o, to, items, n, end)
        if kind not in ("aenc", "adec", "gzip", "gunzip", "hash"):
            raise Undecided("a transformation at %s" % n.loc)
        items = tuple(o.f["buf"].items) + tuple(items)
        I.put(s, to, Obj(kind, dict(o.f, buf=Seq(() if end else items, BYTES))), n)
        if not end:
            return [s]
        if s.mem.get(BROKEN):
            self.fail(I, s, C + "Exception")
            return []
        out = []
        for s2, r in getattr(self, "do_" + kind)(I, s, o.f, items, n):
            out += self.run(I, s2, r, o.f["to"], n, True)
        return out

    def keyed(self, I, s, f, n, enc):
        c = I.load(s, f["by"], n)
        if not isinstance(c, Obj) or "key" not in c.f:
            raise Undecided("a cipher without a key at %s" % n.loc)
        if c.f["enc"] != enc:
            raise Undecided("a cipher used the other way round at %s" % n.loc)
        return c.f["alg"], c.f["key"].items, c.f["iv"].items

    def do_aenc(self, I, s, f, items, n):
        alg, key, iv = self.keyed(I, s, f, n, 1)
        if f["flags"]:
            raise Undecided("additional data in the output at %s" % n.loc)
        return [(s, self.encrypt(I, alg, f["trunc"], key, iv, items))]

    def do_adec(self, I, s, f, items, n):
        alg, key, iv = self.keyed(I, s, f, n, 0)
        k, v = self.bits(I, key), self.bits(I, iv)
        if f["flags"] & 1:
            raise Undecided("the code in front of the data at %s" % n.loc)
        out = []
        size = 16 if f["trunc"] is None else f["trunc"]
        for s2, got in self.undo(I, s, "aead", items, lambda q: B.ZERO if q[1] != alg or (q[2] or 16) != size else
                                 B.band(self.same(I, k, q[3]), self.same(I, v, q[4]))):
            if got is not None:
                out.append((s2, [N(x) for x in got[5]]))
            elif f["flags"] & 16:
                self.fail(I, s2, FAILED)
            else:
                out.append((s2, self.apply(I, "garbage", max(0, len(items) - size), alg, k, v, self.bits(I, items))))
        return out

    def do_gzip(self, I, s, f, items, n):
        return [(s, self.zip(I, f["level"], f["window"], items))]

    def do_gunzip(self, I, s, f, items, n):
        out = []
        for s2, got in self.undo(I, s, "gzip", items, lambda q: B.ONE):
            if got is not None:
                out.append((s2, [N(x) for x in got[3]]))
                continue
            s3 = s2.fork()
            self.fail(I, s3, C + "Inflator::UnexpectedEndErr")
            out.append((s2.fork(), ()))
            out.append((s2, self.apply(I, "unzipped", 1, self.bits(I, items))))
        return out

    def do_hash(self, I, s, f, items, n):
        h = I.load(s, f["by"], n)
        if not isinstance(h, Obj) or "kind" not in h.f or f["flags"]:
            raise Undecided("a hash at %s" % n.loc)
        return [(s, self.digest(I, h.f["kind"], tuple(h.f["data"].items) + items, f["trunc"]))]

    def derive(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            if len(n.args) < 8:
                raise Undecided("%s at %s" % (n.decl.q, n.loc))
            for s2, vs in I.evs(n.args[:8], s, fr):
                if s2.mem.get(BROKEN):
                    self.fail(I, s2, C + "InvalidArgument")
                    continue
                pw, salt = self.read(I, s2, vs[3], vs[4], n), self.read(I, s2, vs[5], vs[6], n)
                r = self.apply(I, "pbkdf2", self.whole(vs[1], n), o.f["hash"], self.bits(I, pw), self.bits(I, salt),
                               tuple(I.nbits(vs[7], 32)))
                for i, x in enumerate(r):
                    I.put(s2, vs[0].plus(i), x, n)
                out.append((s2, vs[7]))
        return out

    # ------------------------------------------------------------ pieces
    def sharing(self, kind):
        k = 1 if kind == "secret" else 0
        def make(I, n, st, fr):
            out = []
            for s, p in I.lv(n.kids[0], st, fr) if k else [(st, None)]:
                for s2, vs in I.evs(n.kids[k:k + 4], s, fr):
                    t, m = self.whole(vs[0], n), self.whole(vs[1], n)
                    if not vs[3]:
                        raise Undecided("pieces without padding at %s" % n.loc)
                    out.append((s2, Obj(kind, {"t": t, "n": m, "to": vs[2], "buf": Seq((), BYTES)})))
            return out
        return make

    def share(self, I, s, o, to, items, n, end):
        """All pieces of the text, each on its channel."""
        kind = I.load(s, to, n).cls
        items = tuple(o.f["buf"].items) + tuple(items)
        I.put(s, to, Obj(kind, dict(o.f, buf=Seq(() if end else items, BYTES))), n)
        if not end:
            return [s]
        t = o.f["t"]
        if t < 1:
            raise Undecided("the number of pieces needed at %s" % n.loc)
        size = 4 * (-(-(len(items) + 1) // (4 if kind == "secret" else 4 * t)))
        self.memo()
        self.shared = getattr(self, "shared", 0) + 1
        live = [s]
        sw = I.load(s, o.f["to"], n)
        if not isinstance(sw, Obj) or sw.cls != "switch":
            raise Undecided("where pieces go at %s" % n.loc)
        for i in range(o.f["n"]):
            ch = (0, 0, i >> 8 & 255, i & 255)
            key = self.shared if kind == "secret" else 0
            piece = self.apply(I, kind, size, t, key, i, self.bits(I, items))
            for r in sw.f["routes"].items:
                if tuple(x & 255 for x in r.f["from"].items) != ch:
                    continue
                nx = []
                for s1 in live:
                    nx += self.run(I, s1, piece, r.f["to"], n, True) if not r.f["as"].items else \
                        self.channel(I, s1, r.f["to"], r.f["as"].items, piece, n, True)
                live = nx
        return live

    def recovery(self, kind):
        def make(I, n, st, fr):
            out = []
            for s, vs in I.evs(n.kids[:3], st, fr):
                if not vs[2]:
                    raise Undecided("pieces without padding at %s" % n.loc)
                out.append((s, Obj("recovery", {"kind": kind, "t": self.whole(vs[0], n), "to": vs[1], "in": Seq((), "pieces"), "done": 0})))
            return out
        return make

    def channel(self, I, s, to, ch, items, n, end):
        o = I.load(s, to, n)
        if not isinstance(o, Obj) or o.cls != "recovery":
            raise Undecided("data on a channel at %s" % n.loc)
        if not end:
            raise Undecided("part of a piece at %s" % n.loc)
        if not all(isinstance(x, int) for x in ch) or len(ch) != 4:
            raise Undecided("an unknown channel at %s" % n.loc)
        ch = tuple(x & 255 for x in ch)
        got = [p for p in o.f["in"].items if tuple(p.f["ch"].items) != ch]
        again = len(got) != len(o.f["in"].items)
        if o.f["done"] or again:
            if again and not o.f["done"]:
                raise Undecided("a piece twice at %s" % n.loc)
            return [s]
        got.append(Obj("piece", {"ch": Seq(ch, BYTES), "data": Seq(tuple(items), BYTES)}))
        done = int(len(got) >= o.f["t"])
        I.put(s, to, Obj("recovery", dict(o.f, **{"in": Seq(tuple(got), "pieces"), "done": done})), n)
        if not done:
            return [s]
        text = self.recovered(I, o.f["kind"], got, o.f["t"], n)
        return self.run(I, s, text, o.f["to"], n, True)

    def recovered(self, I, kind, got, t, n):
        from_ = None
        for p in got:
            b = self.bits(I, p.f["data"].items)
            ch = p.f["ch"].items
            i = ch[0] << 24 | ch[1] << 16 | ch[2] << 8 | ch[3]
            found = None
            for key, r in self.memo().items():
                if key[0] == kind and key[3] == i and self.same(I, b, self.bits(I, r)) == B.ONE:
                    found = key
            if found is None or from_ is not None and (found[1], found[2], found[4]) != from_:
                from_ = ()
                break
            from_ = (found[1], found[2], found[4])
        if from_ and (t == from_[0] or kind == "secret" and t > from_[0]):
            return [N(x) for x in from_[2]]
        return self.apply(I, "garbage", len(got[0].f["data"].items) - 1, kind, t, tuple(self.bits(I, p.f["data"].items) for p in got))

    def word(self, I, n, st, fr):
        out = []
        for s, vs in I.evs(n.args[:1], st, fr):
            v = self.whole(vs[0], n)
            out.append((s, Seq([I.wrap(v >> k & 255, (8, True)) for k in (24, 16, 8, 0)], bare(n.type))))
        return out

    def switch(self, I, n, st, fr):
        from .stdmodel import I_canon, seqof
        none = {"routes": Seq((), "routes"), "one": None, "ch": Seq((), BYTES)}
        if not n.kids:
            return [(st, Obj("switch", none))]
        out = []
        for s, p in I.lv(n.kids[0], st, fr):
            if len(n.kids) == 1:
                raise Undecided("a channel without a name at %s" % n.loc)
            for s2, vs in I.evs(n.kids[1:], s, fr):
                out.append((s2, Obj("switch", dict(none, one=I_canon(I, s2, p), ch=Seq(seqof(I, s2, vs[0], n).items, BYTES)))))
        return out

    def route(self, I, n, st, fr):
        from .stdmodel import I_canon, seqof
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            for s2, vs in I.evs(n.args[:1], s, fr):
                ch = seqof(I, s2, vs[0], n).items
                for s3, to in I.lv(n.args[1], s2, fr):
                    a = n.args[2].strip()
                    as_ = ()
                    if not (a.decl is not None and a.decl.name == "DEFAULT_CHANNEL"):
                        raise Undecided("the name of a channel at %s" % n.loc)
                    o = I.load(s3, p, n)
                    r = Obj("route", {"from": Seq(ch, BYTES), "to": I_canon(I, s3, to), "as": Seq(as_, BYTES)})
                    I.put(s3, p, Obj("switch", dict(o.f, routes=Seq(tuple(o.f["routes"].items) + (r,), "routes"))), n)
                    out.append((s3, None))
        return out

    def default_route(self, I, n, st, fr):
        raise Undecided("a default route at %s" % n.loc)

    def array_sink(self, I, n, st, fr):
        if len(n.kids) != 2:
            raise Undecided("%s at %s" % (n.decl.q, n.loc))
        return [(s, Obj("array", {"to": vs[0], "size": self.whole(vs[1], n), "total": 0})) for s, vs in I.evs(n.kids, st, fr)]

    def total(self, I, n, st, fr):
        return [(s, o.f["total"]) for s, p, o in self.objs(I, n, st, fr)]

    def available(self, I, n, st, fr):
        return [(s, max(0, o.f["size"] - o.f["total"])) for s, p, o in self.objs(I, n, st, fr)]

    def ptrs(self, I, n, st, fr):
        out = []
        for s, vs in I.evs(n.kids[:1], st, fr):
            I.nt += 1
            s.mem[("t", I.nt)] = Seq([0] * self.whole(vs[0] if vs else 0, n), "void *[]")
            out.append((s, Obj("ptrs", {"p": P(("t", I.nt)).at(0)})))
        return out

    def ptrs_size(self, I, n, st, fr):
        return [(s, len(I.load(s, P(o.f["p"].root), n).items)) for s, p, o in self.objs(I, n, st, fr)]

    def ptrs_at(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            for s2, vs in I.evs(n.args, s, fr):
                k = self.whole(vs[0], n)
                size = len(I.load(s2, P(o.f["p"].root), n).items)
                if not 0 <= k < size:
                    I.note_oob(n, "index %d of %d elements" % (k, size))
                    continue
                out.append((s2, o.f["p"].plus(k)))
        return out

    def ptr_set(self, I, n, st, fr):
        from .stdmodel import objplace, I_canon
        out = []
        for s, p in list(objplace(I, n, st, fr)):
            for s2, vs in I.evs(n.args, s, fr):
                I.put(s2, I_canon(I, s2, p), vs[0] if vs else 0, n)
                out.append((s2, None))
        return out

    def ptr_get(self, I, n, st, fr):
        return [(s, o) for s, p, o in self.objs(I, n, st, fr)]

    def tss_at(self, I, s, p):
        from .stdmodel import I_canon
        p = I_canon(I, s, p)
        return ("g", "#tss", p.root, p.sels)

    def tss(self, I, n, st, fr):
        from .stdmodel import objplace
        return [(s, s.mem.get(self.tss_at(I, s, p), 0)) for s, p in objplace(I, n, st, fr)]

    def tss_set(self, I, n, st, fr):
        from .stdmodel import objplace
        out = []
        for s, p in list(objplace(I, n, st, fr)):
            k = self.tss_at(I, s, p)
            for s2, vs in I.evs(n.args, s, fr):
                s2.mem[k] = vs[0] if vs else 0
                out.append((s2, None))
        return out

    def pump_some(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            for s2, vs in I.evs(n.args, s, fr):
                k = self.whole(vs[0], n)
                items = o.f["items"].items
                if o.f["to"] != 0:
                    raise Undecided("part of the data pumped at %s" % n.loc)
                q = tuple(o.f["queue"].items) if "queue" in o.f else ()
                I.put(s2, p, Obj("source", dict(o.f, items=Seq(items[k:], BYTES), queue=Seq(q + tuple(items[:k]), BYTES))), n)
                out.append((s2, vs[0]))
        return out

    def get(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            if not isinstance(o, Obj) or o.cls != "source" or len(n.args) != 2:
                raise Undecided("%s at %s" % (n.decl.q, n.loc))
            for s2, vs in I.evs(n.args, s, fr):
                q = tuple(o.f["queue"].items) if "queue" in o.f else ()
                k = min(self.whole(vs[1], n), len(q))
                for i in range(k):
                    I.put(s2, vs[0].plus(i), q[i], n)
                I.put(s2, p, Obj("source", dict(o.f, queue=Seq(q[k:], BYTES))), n)
                out.append((s2, k))
        return out

    def attach(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            if not isinstance(o, Obj) or o.cls != "source" or o.f["to"] != 0 or "queue" in o.f and o.f["queue"].items:
                raise Undecided("%s at %s" % (n.decl.q, n.loc))
            for s2, vs in I.evs(n.args, s, fr):
                I.put(s2, p, Obj("source", dict(o.f, to=vs[0])), n)
                out.append((s2, None))
        return out

    # ------------------------------------------------------------ blocks of bytes
    def block(self, I, n, st, fr):
        pt = [bare(t) for t in n.decl.ptypes]
        out = []
        for s, vs in I.evs(n.kids, st, fr):
            if pt and strip_targs(pt[0]) == C + "SecBlock":
                src = I.load(s, vs[0], n) if isinstance(vs[0], P) else vs[0]
                q = I.load(s, P(src.f["p"].root, src.f["p"].sels[:-1]), n)
                items = q.items
            elif pt == ["unsigned long"] or not pt:
                items = [Unk("unsigned char", "uninitialised")] * self.whole(vs[0] if vs else 0, n)
            elif len(pt) == 2 and pt[0].endswith("*"):
                items = self.read(I, s, vs[0], vs[1], n) if isinstance(vs[0], P) else [0] * self.whole(vs[1], n)
            else:
                raise Undecided("%s at %s" % (n.decl.q, n.loc))
            I.nt += 1
            s.mem[("t", I.nt)] = Seq(items, "unsigned char[]")
            out.append((s, Obj("block", {"p": P(("t", I.nt)).at(0), "size": len(items)})))
        return out

    def block_size(self, I, n, st, fr):
        return [(s, o.f["size"]) for s, p, o in self.objs(I, n, st, fr)]

    def block_empty(self, I, n, st, fr):
        return [(s, int(not o.f["size"])) for s, p, o in self.objs(I, n, st, fr)]

    def block_ptr(self, I, n, st, fr):
        return [(s, o.f["p"]) for s, p, o in self.objs(I, n, st, fr)]

    def block_end(self, I, n, st, fr):
        return [(s, o.f["p"].plus(o.f["size"])) for s, p, o in self.objs(I, n, st, fr)]

    def block_at(self, I, n, st, fr):
        out = []
        for s, p, o in list(self.objs(I, n, st, fr)):
            for s2, vs in I.evs(n.args, s, fr):
                if not isinstance(vs[0], int):
                    raise Undecided("an index at %s" % n.loc)
                out.append((s2, o.f["p"].plus(vs[0])))
        return out
