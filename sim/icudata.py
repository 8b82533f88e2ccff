"""Encoders for synthetic ICU data: code point tries (UCPTrie, UTrie2), the
icudata.dat package container, unames.icu, ulayout.icu and *.nrm.

Everything is written from the ICU file format descriptions, not from the code
under test, and every encoder starts from a plain Python description (range
maps, dictionaries) which stays behind as the reference.
"""
import bisect
import struct

MAXCP = 0x110000


class RangeMap:
    """value per code point, as sorted (start, value) breakpoints from 0."""

    def __init__(self, breaks):
        out = []
        for s, v in breaks:
            if out and out[-1][0] == s:
                out[-1] = (s, v)
            else:
                out.append((s, v))
        canon = []
        for s, v in out:
            if canon and canon[-1][1] == v:
                continue
            canon.append((s, v))
        assert canon and canon[0][0] == 0
        self.starts = [s for s, _ in canon]
        self.values = [v for _, v in canon]

    def get(self, c):
        return self.values[bisect.bisect_right(self.starts, c) - 1]

    def ranges(self, start=0, limit=MAXCP):
        """maximal (start, limit, value) runs covering [start, limit)."""
        out = []
        if start >= limit:
            return out
        i = bisect.bisect_right(self.starts, start) - 1
        while i < len(self.starts) and self.starts[i] < limit:
            s = max(start, self.starts[i])
            e = min(limit, self.starts[i + 1] if i + 1 < len(self.starts) else MAXCP)
            out.append((s, e, self.values[i]))
            i += 1
        return out

    def block(self, start, length):
        out = []
        for s, e, v in self.ranges(start, min(start + length, MAXCP)):
            out.extend([v] * (e - s))
        return out

    def single(self, start, limit):
        """the single value of [start, limit), or None."""
        i = bisect.bisect_right(self.starts, start) - 1
        if i + 1 == len(self.starts) or self.starts[i + 1] >= limit:
            return self.values[i]
        return None


def random_range_map(rng, max_value, n=None, hot=None):
    """breakpoints biased to the places where trie layouts change."""
    edges = [0x40, 0x7F, 0x80, 0x3FF, 0x400, 0x7FF, 0x800, 0xFFF, 0x1000, 0x1010, 0x3FFF, 0x4000, 0xD7FF, 0xD800,
             0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10001, 0x11000, 0x14000, 0x20000, 0x2FA20,
             0xE0000, 0xE01F0, 0x10FE00, 0x10FFFE, 0x10FFFF]
    if n is None:
        n = rng.choice([0, 1, 2, 4, 8, 16, 40])
    null = rng.choice([0, 0, 0, rng.randint(0, max_value)])
    values = [rng.randint(0, max_value) for _ in range(rng.randint(1, 6))] + [null, null]
    top = rng.choice([MAXCP, MAXCP, 0x1000, 0x3000, 0x10000, 0x12000, 0x20000, 0xE0200])
    pts = set()
    for _ in range(n):
        k = rng.random()
        if k < 0.4:
            p = rng.choice(edges) + rng.choice([-1, 0, 0, 0, 1, 2, 16, 31, 32, 33, 64, 512])
        elif k < 0.7:
            p = rng.randrange(0, top) & ~rng.choice([0, 0, 15, 31, 63, 511, 2047])
        else:
            p = rng.randrange(0, min(top, 0x3000))
        if 0 < p < top:
            pts.add(p)
            if rng.random() < 0.5:
                pts.add(min(p + rng.choice([1, 2, 5, 16, 32, 48, 64, 80, 512, 2048, 0x4000]), MAXCP - 1))
    breaks = [(0, rng.choice(values))] + [(p, rng.choice(values)) for p in sorted(pts)]
    return RangeMap(breaks), null


# --------------------------------------------------------------------- UCPTrie

class CPTrieImage:
    def __init__(self, raw, fields):
        self.raw = raw
        self.fields = fields


def build_cptrie(ref, null, fast, width, error=0, opts=None):
    """Serialise ref (RangeMap) as a UCPTrie.

    width: 8, 16, 32. opts: share (fold equal blocks), overlap (find small
    blocks anywhere in existing data), long3 (18-bit index-3 entries), gap
    (entries of padding between fast and small data), nonull, late (the null
    block comes after the gap), alias (n: it lies 65536 beyond the nth block
    of the fast data).
    """
    o = dict(share=True, overlap=False, long3=False, gap=0, nonull=False, late=False, alias=None)
    o.update(opts or {})
    last = ref.starts[-1]
    high_value = ref.values[-1]
    high_start = (last + 511) & ~511
    if high_start > MAXCP:
        high_start = MAXCP
    fast_limit = 0x10000 if fast else 0x1000
    if fast and high_start < 0x10000:
        high_start = max(high_start, 0)
    data = []
    find = {}

    def add_block(vals, overlap=False):
        key = tuple(vals)
        if key in find and (o["share"] or len(set(key)) == 1):
            return find[key]
        if overlap and o["overlap"]:
            n = len(vals)
            first = vals[0]
            for off in range(0, min(len(data), 4096) - n):
                if data[off] == first and data[off:off + n] == vals:
                    find[key] = off
                    return off
        off = len(data)
        data.extend(vals)
        find[key] = off
        return off

    index = []
    data_null = None
    # ASCII is linear at the start of the data
    for c in range(0, 0x80, 64):
        off = len(data)
        blk = ref.block(c, 64)
        data.extend(blk)
        index.append(off)
        find.setdefault(tuple(blk), off)
    # (the null block can also lie beyond the part that the linear index reaches)
    if not o["nonull"] and not o["late"] and o["alias"] is None:
        data_null = add_block([null] * 64)
    for c in range(0x80, fast_limit, 64):
        v = ref.single(c, c + 64)
        if v is not None and v == null and data_null is not None:
            index.append(data_null)
        else:
            index.append(add_block([v] * 64 if v is not None else ref.block(c, 64)))
    assert len(data) < 0x10000
    while len(data) & 3:
        data.append(null)
    if o["alias"] is not None:
        # (only the two low halves of the offsets are the same)
        o["gap"] = 65536 + index[o["alias"] % len(index)] - len(data)
        o["late"], o["nonull"] = True, False
    if o["gap"]:
        filler = (high_value + 1) & ((1 << width) - 1)
        data.extend([filler] * o["gap"])
    find.clear()
    if o["late"] and not o["nonull"]:
        data_null = add_block([null] * 64)
    index3_null = 0x7FFF
    if high_start > fast_limit:
        i1_base = len(index)
        i1_first = 4 if fast else 0
        i1_count = ((high_start + 0x3FFF) >> 14) - i1_first
        index.extend([0] * i1_count)
        i3_cache = {}
        i2_cache = {}
        null3 = None

        def put_i3(blocks):
            long3 = o["long3"] or max(blocks) > 0xFFFF
            key = (long3, tuple(blocks))
            if key in i3_cache and (o["share"] or len(set(blocks)) == 1):
                return i3_cache[key]
            off = len(index)
            if not long3:
                index.extend(blocks)
            else:
                for g in range(0, 32, 8):
                    grp = blocks[g:g + 8]
                    up = 0
                    for k, b in enumerate(grp):
                        up |= (b >> 16) << (14 - 2 * k)
                    index.append(up)
                    index.extend(b & 0xFFFF for b in grp)
                off |= 0x8000
            i3_cache[key] = off
            return off

        if data_null is not None:
            null3 = put_i3([data_null] * 32)
            index3_null = null3
        for k in range(i1_count):
            base1 = (k + i1_first) << 14
            i2 = []
            for j in range(32):
                c2 = base1 + (j << 9)
                v2 = ref.single(c2, min(c2 + 512, MAXCP)) if c2 < MAXCP else null
                if v2 is not None and v2 == null and null3 is not None:
                    i2.append(null3)
                    continue
                blocks = []
                for b in range(32):
                    c3 = c2 + (b << 4)
                    v3 = ref.single(c3, c3 + 16) if c3 < MAXCP else null
                    if v3 is not None and v3 == null and data_null is not None:
                        blocks.append(data_null)
                    else:
                        blocks.append(add_block([v3] * 16 if v3 is not None else ref.block(c3, 16), True))
                i2.append(put_i3(blocks))
            key = tuple(i2)
            if key in i2_cache and (o["share"] or len(set(i2)) == 1):
                off = i2_cache[key]
            else:
                off = len(index)
                index.extend(i2)
                i2_cache[key] = off
            index[i1_base + k] = off
    assert len(index) < 0x8000, len(index)
    while len(data) & 1:
        data.append(null)
    data.append(high_value)
    data.append(error)
    assert len(data) < 0x40000
    dn = 0xFFFFF if data_null is None else data_null
    vw = {16: 0, 32: 1, 8: 2}[width]
    options = ((len(data) >> 4) & 0xF000) | ((dn >> 8) & 0xF00) | ((0 if fast else 1) << 6) | vw
    head = struct.pack("=IHHHHHH", 0x54726933, options, len(index), len(data) & 0xFFFF, index3_null, dn & 0xFFFF,
                       high_start >> 9)
    raw = head + struct.pack("=%dH" % len(index), *index) + struct.pack("=%d%s" % (len(data), {16: "H", 32: "I", 8: "B"}[width]), *data)
    return CPTrieImage(raw, dict(index=index, data=data, high_start=high_start, index3_null=index3_null, data_null=dn,
                                 fast=fast, vw=vw))


# --------------------------------------------------------------------- UTrie2

def build_utrie2(ref, null, lead_ref=None, opts=None):
    """UTrie2 with 16-bit values as the (index, indexLength, index2NullOffset,
    dataNullOffset, highStart, highValueIndex, initialValue) constructor
    arguments. Code points D800..DBFF take their value from ref, the lead
    surrogate code *units* from lead_ref (default: null)."""
    o = dict(share=True)
    o.update(opts or {})
    last = ref.starts[-1]
    high_value = ref.values[-1]
    high_start = max((last + 0x7FF) & ~0x7FF, 0x10000)
    i1_count = (high_start - 0x10000) >> 11
    index2_supp = 0x840 + i1_count
    # first lay out index-2 with symbolic data offsets
    data = []
    find = {}

    def add(vals):
        key = tuple(vals)
        if key in find and (o["share"] or len(set(key)) == 1):
            return find[key]
        off = len(data)
        data.extend(vals)
        find[key] = off
        return off

    for c in range(0, 0x80, 32):
        off = len(data)
        data.extend(ref.block(c, 32))
        find.setdefault(tuple(data[off:]), off)
    data.extend([0xFFFD & 0xFFFF] * 64)   # bad UTF-8 data
    assert len(data) == 0xC0
    null_block = add([null] * 32)

    def block(r, c):
        v = r.single(c, c + 32)
        if v is not None:
            return null_block if v == null else add([v] * 32)
        return add(r.block(c, 32))

    i2 = []
    lead_ref = lead_ref or RangeMap([(0, null)])
    for c in range(0, 0x10000, 32):
        if c < 0x80:
            i2.append(c)
        elif 0xD800 <= c < 0xDC00:
            i2.append(block(lead_ref, c))
        else:
            i2.append(block(ref, c))
    for c in range(0xD800, 0xDC00, 32):
        i2.append(block(ref, c))
    # UTF-8 two-byte index-2, not used by code point lookups
    i2.extend([null_block] * 32)
    assert len(i2) == 0x840
    supp = []
    i1 = []
    null_i2 = None
    cache = {}
    for k in range(i1_count):
        base = 0x10000 + (k << 11)
        blk = [block(ref, base + (j << 5)) for j in range(64)]
        key = tuple(blk)
        allnull = all(b == null_block for b in blk)
        if key in cache and (o["share"] or len(set(blk)) == 1):
            i1.append(cache[key])
            continue
        off = index2_supp + len(supp)
        cache[key] = off
        supp.extend(blk)
        if allnull:
            null_i2 = off
        i1.append(off)
    index = i2 + i1 + supp
    while len(index) & 3:
        index.append(0)
    ilen = len(index)
    high_index = len(data)
    data.extend([high_value, high_value, high_value, high_value])
    out = [0] * ilen
    for n, v in enumerate(index):
        if 0x840 <= n < 0x840 + i1_count:
            out[n] = v
        else:
            assert (v + ilen) & 3 == 0
            out[n] = (v + ilen) >> 2
            assert out[n] <= 0xFFFF
    return dict(index=out + data, indexLength=ilen, index2NullOffset=0xFFFF if null_i2 is None else null_i2,
                dataNullOffset=null_block + ilen, highStart=high_start, highValueIndex=high_index + ilen,
                initialValue=null)


# --------------------------------------------------------------------- package

def udata_header(data_format, length=32, version=(13, 0, 0, 0)):
    h = struct.pack("=HBBHHBBBB4sBBBBBBBB", length, 0xDA, 0x27, 20, 0, 0, 0, 2, 0, data_format, 1, 0, 0, 0, *version)
    assert len(h) == 24 and length >= 24
    return h + b"\0" * (length - 24)


def build_package(items, header_length=32, prefix="icudt69l", pad=16):
    """items: list of (name, payload bytes incl. own header), sorted by name."""
    n = len(items)
    toc_len = 4 + 8 * n
    names = b""
    name_off = []
    for name, _ in items:
        name_off.append(toc_len + len(names))
        names += (prefix + "/" + name).encode("latin-1") + b"\0"
    pos = toc_len + len(names)
    pos = (pos + pad - 1) // pad * pad
    body = b"\0" * (pos - toc_len - len(names))
    offs = []
    for _, payload in items:
        offs.append(pos)
        chunk = payload + b"\0" * (-len(payload) % pad)
        body += chunk
        pos += len(chunk)
    toc = struct.pack("=I", n) + b"".join(struct.pack("=II", a, b) for a, b in zip(name_off, offs))
    blob = udata_header(b"CmnD", header_length) + toc + names + body
    return blob, {name: header_length + off for (name, _), off in zip(items, offs)}


# --------------------------------------------------------------------- unames

WORDS = ["LATIN", "GREEK", "LETTER", "SMALL", "CAPITAL", "SIGN", "WITH", "DIGIT", "SYLLABLE", "MARK", "TONE", "VOWEL",
         "A", "B", "KA", "GHA", "ACUTE", "ABOVE", "OF", "SYMBOL"]


class NameModel:
    """names: cp -> (unicode name, alias or ''); algs: list of dicts."""

    def __init__(self, names, algs):
        self.names = names
        self.algs = algs

    def alg_name(self, a, c):
        if a["type"] == 0:
            return a["prefix"] + (("%%0%dX" % a["digits"]) % c)
        code = c - a["start"]
        idx = []
        for f in reversed(a["factors"][1:]):
            idx.insert(0, code % f)
            code //= f
        idx.insert(0, code)
        return a["prefix"] + "".join(e[i] for e, i in zip(a["elements"], idx))

    def name(self, c, choice=0):
        for a in self.algs:
            if a["start"] <= c <= a["end"]:
                return self.alg_name(a, c) if choice == 0 else ""
        n = self.names.get(c)
        if n is None:
            return ""
        return n[0] if choice == 0 else n[1] if choice == 3 else ""

    def codes(self):
        s = set(self.names)
        for a in self.algs:
            s.update(range(a["start"], a["end"] + 1))
        return sorted(s)

    def items(self, choice=0):
        return [(c, n) for c in self.codes() for n in [self.name(c, choice)] if n]


def random_names(rng, big=False):
    names = {}
    used = set()
    n_groups = rng.choice([1, 2, 3, 5, 8]) if not big else rng.choice([40, 40, 160])
    msbs = set()
    for _ in range(n_groups):
        msbs.add(rng.choice([0, 1, 2, 3, rng.randrange(0x1A0), rng.randrange(0x800), 0x800 + rng.randrange(0x200)]))
    algs = []
    # ranges start and end anywhere in a block, can be shorter than one and follow each other closely
    starts = sorted(rng.sample([0x3400, 0x4E00, 0xAC00, 0x17000, 0x18D00, 0x20000, 0x2A700, 0x30000], rng.randint(1, 3)))
    if rng.random() < 0.6:
        starts = sorted({st + rng.choice([0, 0, 0, 8, 16, 0x30, 7, rng.randrange(64)]) for st in starts})
    for st in list(starts):
        if rng.random() < 0.35:
            starts.append(None)
    todo = [st for st in starts if st is not None]
    close = len(starts) - len(todo)
    pos = 0
    while todo:
        st = max(todo.pop(0), pos)
        low = rng.choice([1, 2, 9, 17, 31, 32, 33, 64, 64])
        if rng.random() < 0.5:
            digits = 4 if st < 0x10000 else 5
            algs.append(dict(type=0, start=st, end=st + low - 1 + rng.choice([0, 0, rng.randint(0, 100)]), prefix=rng.choice(["CJK UNIFIED IDEOGRAPH-", "TANGUT IDEOGRAPH-", "X-"]), digits=digits))
        else:
            k = rng.randint(2, 3)
            factors = [rng.randint(2, 6) for _ in range(k)]
            while factors[0] * (factors[1] if k > 1 else 1) * (factors[2] if k > 2 else 1) < low:
                factors[rng.randrange(k)] += 1
            total = 1
            for f in factors:
                total *= f
            elements = []
            for fi, f in enumerate(factors):
                elements.append([(chr(65 + fi * 8 + 1) + chr(65 + x)) if (x or fi == 0) else "" for x in range(f)])
            algs.append(dict(type=1, start=st, end=st + total - 1, prefix=rng.choice(["HANGUL SYLLABLE ", "SYL "]), factors=factors, elements=elements))
        pos = algs[-1]["end"] + 1
        if close and rng.random() < 0.7:
            close -= 1
            todo.insert(0, pos + rng.choice([0, 1, 5, 10, 20, 32, 42]))
    # sometimes a group shares its block of 32 with the end of an algorithmic range
    for a in algs:
        if rng.random() < 0.4:
            msbs.add(a["end"] >> 5)
        if rng.random() < 0.3:
            msbs.add(a["start"] >> 5)
    model_in_alg = lambda c: any(a["start"] <= c <= a["end"] for a in algs)
    for m in sorted(msbs):
        cand = [c for c in range(m << 5, (m + 1) << 5) if not model_in_alg(c)]
        if any(a["start"] <= (m << 5) and ((m << 5) | 31) <= a["end"] for a in algs) or not cand:
            continue
        dens = rng.choice([0.1, 0.5, 0.9, 1.0])
        got = False
        for c in cand:
            if rng.random() < dens or (not got and c == cand[-1]):
                while True:
                    w = [rng.choice(WORDS) for _ in range(rng.choice([1, 2, 3, 4, 5]))]
                    nm = " ".join(w)
                    if nm not in used:
                        break
                    nm += " " + ("%X" % c)
                    if nm not in used:
                        break
                if used and rng.random() < 0.03:
                    nm = rng.choice(sorted(used))       # a name two characters share
                used.add(nm)
                al = ""
                if rng.random() < 0.2:
                    al = "ALIAS " + rng.choice(WORDS) + " %X" % c
                names[c] = (nm, al)
                got = True
    if not names:
        c = 0x41
        names[c] = ("LATIN CAPITAL LETTER A", "")
    return NameModel(names, algs)


def odd_lengths(model, rng):
    """names of the lengths at which the packing of the lengths changes, next to each other."""
    taken = {n for n, _ in model.names.values()}
    for c in sorted(model.names):
        if rng.random() < 0.5:
            length = rng.choice([11, 11, 11, 12, 27, 28, 59, 60, 61, 74, 75] if c & 1 else [10, 11, 11, 11, 11, 12, 60, 75])
            nm = "XQZ %07X" % c
            nm = nm[-length:] + "Q" * (length - len(nm))
            if nm not in taken:
                taken.add(nm)
                model.names[c] = (nm, "")


def encode_unames(model, rng, header_length=32, extra=None):
    # token table: tokenise frequent words; leave letters, space, digits, '-' and ';' literal
    words = list(WORDS)
    rng.shuffle(words)
    words = [w for w in words if len(w) > 1][:rng.randint(0, 18)]
    double = rng.random() < 0.5 and len(words) > 4
    small_table = rng.random() < 0.2 and not words
    tokens = []
    strings = b""
    code = {}
    if small_table:
        tokens = [0xFFFF] * rng.choice([0x20, 0x30])
    else:
        first = rng.choice([1, 1, 2, 5])
        count = 0x60 if not double else (first + 1) << 8
        tokens = [0xFFFF] * count
        singles = list(range(1, 0x20))
        rng.shuffle(singles)
        lead = None
        if double:
            lead = first
            singles.remove(lead)
            tokens[lead] = 0xFFFE
        # the second byte can have any value, that of a semicolon too
        trail = rng.choice([0x41, 0x3A, 0x3B, 0, 0xF8])
        for k, w in enumerate(words):
            o = len(strings)
            strings += w.encode() + b"\0"
            if lead is not None and k % 2:
                tokens[(lead << 8) | trail] = o
                code[w] = bytes([lead, trail])
                trail = (trail + 1) & 0xFF
            else:
                t = singles.pop()
                tokens[t] = o
                code[w] = bytes([t])
    if not strings:
        strings = b"\0"

    def enc(name, fields=False):
        out = b""
        parts = name.split(" ")
        for k, p in enumerate(parts):
            if k:
                out += b" "
            t = code.get(p, p.encode())
            # (where other fields follow, ICU finds them by their semicolons alone)
            if b";" in t and (fields or b";" in out):
                t = p.encode()
            out += t
        return out

    lines = {}
    for c, (nm, al) in model.names.items():
        s = enc(nm, bool(al))
        if al:
            s += b";;;" + enc(al, True)
        elif extra and extra.random() < 0.1:
            # the older name, or that and a comment, of which nobody asks
            t = enc(nm, True) + extra.choice([b";OLD", b";;NOTE", b";OLD;NOTE", b";", b";;"])
            if len(t) <= 75:
                s = t
        while len(s) > 75:
            raise ValueError("name too long")
        lines[c] = s
    msbs = sorted({c >> 5 for c in lines})
    gstr = b""
    groups = b""
    far = extra.choice(msbs) if extra and extra.random() < 0.12 else None
    for m in msbs:
        if m == far:        # beyond what 16 bits reach
            gstr += bytes(extra.choice([65536 - len(gstr), 65536, 131072 + 5, 200000]))
        off = len(gstr)
        groups += struct.pack("=HHH", m, off >> 16, off & 0xFFFF)
        strs = [lines.get((m << 5) | k, b"") for k in range(32)]
        nibs = []
        for s in strs:
            L = len(s)
            if L < 12:
                nibs.append(L)
            else:
                v = L - 12
                nibs.append(12 + (v >> 4))
                nibs.append(v & 15)
        if len(nibs) & 1:
            nibs.append(0)
        gstr += bytes((nibs[k] << 4) | nibs[k + 1] for k in range(0, len(nibs), 2)) + b"".join(strs)
    alg = struct.pack("=I", len(model.algs))
    for a in model.algs:
        if a["type"] == 0:
            body = a["prefix"].encode() + b"\0"
            var = a["digits"]
        else:
            body = struct.pack("=%dH" % len(a["factors"]), *a["factors"]) + a["prefix"].encode() + b"\0"
            for es in a["elements"]:
                for e in es:
                    body += e.encode() + b"\0"
            var = len(a["factors"])
            # the element list must end exactly at the end of the entry
        size = 12 + len(body)
        alg += struct.pack("=IIBBH", a["start"], a["end"], a["type"], var, size) + body
    tok = struct.pack("=H", len(tokens)) + struct.pack("=%dH" % len(tokens), *tokens)
    t_str = 16 + len(tok)
    g_off = t_str + len(strings)
    gblock = struct.pack("=H", len(msbs)) + groups
    gs_off = g_off + len(gblock)
    a_off = gs_off + len(gstr)
    head = struct.pack("=IIII", t_str, g_off, gs_off, a_off)
    return udata_header(b"unam", header_length) + head + tok + strings + gblock + gstr + alg


# --------------------------------------------------------------------- ulayout

def encode_ulayout(tries, header_length=32, count=12):
    """tries: three raw UCPTrie images."""
    pos = count * 4
    ix = [0] * count
    ix[0] = count
    body = b""
    for k, t in enumerate(tries):
        t = t + b"\0" * (-len(t) % 16)
        body += t
        pos += len(t)
        ix[1 + k] = pos
    for k in range(4, 8):
        ix[k] = pos
    return udata_header(b"Layo", header_length) + struct.pack("=%dI" % count, *ix) + body


# --------------------------------------------------------------------- nrm

class NormModel:
    """decomp: cp -> (kind, full, raw); kinds: map, delta, cc. Hangul ranges on/off."""

    def __init__(self):
        self.full = {}
        self.raw = {}
        self.other = {}
        self.hangul = False
        self.min_decomp = 0

    def _hangul(self, c):
        return self.hangul and 0xAC00 <= c <= 0xD7A3

    def decomposition(self, c):
        if self._hangul(c):
            c -= 0xAC00
            s = chr(0x1100 + c // 588) + chr(0x1161 + c % 588 // 28)
            return s + (chr(0x11A7 + c % 28) if c % 28 else "")
        return self.full.get(c)

    def raw_decomposition(self, c):
        if self._hangul(c):
            t = (c - 0xAC00) % 28
            if t:
                return chr(c - t) + chr(0x11A7 + t)
            return self.decomposition(c)
        return self.raw.get(c)


def utf16(s):
    out = []
    for ch in s:
        c = ord(ch)
        if c > 0xFFFF:
            out += [0xD7C0 + (c >> 10), 0xDC00 | (c & 0x3FF)]
        else:
            out.append(c)
    return out


def random_norm(rng, header_length=32, fast=None):
    m = NormModel()
    m.hangul = rng.random() < 0.6
    lo = rng.choice([0xA0, 0xC0, 0x100])
    m.min_decomp = lo
    n16 = {}
    comps = [rng.randrange(0x10000) for _ in range(rng.choice([0, 4, 10, 24]))]
    comps = comps[:len(comps) // 4 * 4]
    extra = [0] * rng.randint(8, 16)
    cps = set()
    while len(cps) < rng.choice([3, 8, 20]):
        c = rng.choice([rng.randrange(lo, 0x400), rng.randrange(0x1E00, 0x2000), rng.randrange(0x3300, 0x3400), rng.randrange(0xF900, 0xFB00), rng.randrange(0x1D100, 0x1D200), rng.randrange(0x2F800, 0x2FA00)])
        cps.add(c)
    targets = [0x41, 0x42, 0x61, 0x7A, 0x300, 0x301, 0x4E00, 0x242EE, 0x1D157]
    for c in sorted(cps):
        # some characters map to nothing; their raw mapping is reported as none
        full = "".join(chr(rng.choice(targets)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 17])))[:15]
        u = utf16(full)
        form = rng.randrange(4)
        has_cc = rng.random() < 0.3
        first = len(u)
        raw = full or None
        if form == 1:       # explicit raw mapping stored before
            raw = "".join(chr(rng.choice(targets)) for _ in range(rng.randint(1, 3)))
            ru = utf16(raw)
            extra += ru + [len(ru)]
            first |= 0x40
        elif form == 2 and len(u) > 2 and not (0xD800 <= u[1] < 0xDC00):
            rm0 = rng.choice([0x41, 0xC0, 0x3071])
            raw = chr(rm0) + u16str(u[2:])
            extra += [rm0]
            first |= 0x40
        if has_cc:
            extra += [rng.randrange(0x10000) & rng.choice([0xFFFF, 0xFF00, 0x00FF])]      # lccc, ccc
            first |= 0x80
        n16[c] = (len(extra) << 1) | rng.randrange(2)
        extra += [first] + u
        m.full[c] = full
        m.raw[c] = raw
    limit_no_no = (len(extra) << 1) + 2
    extra += [0] * 2
    min_maybe = 0xFC00 - 2 * len(comps)
    assert min_maybe % 8 == 0
    center = (min_maybe >> 3) - 64 - 1
    base = [c for c in cps]
    for _ in range(rng.choice([0, 2, 6])):
        c = rng.choice([rng.randrange(lo + 80, 0x400), rng.randrange(0x2000, 0x2100), rng.randrange(0x10400, 0x10480)])
        if c in n16:
            continue
        t = c + rng.randint(-60, 60)
        how = rng.random()
        if how < 0.4:           # to a character that has a mapping itself
            t = rng.choice(base)
            c = t + rng.randint(-60, 60)
        elif how < 0.5 and m.hangul:
            t = 0xAC00 + rng.randrange(30)
            c = t - rng.randint(31, 60)
        if t == c or c < lo or c in n16:
            continue
        if t in m.full and t not in base:
            continue
        n16[c] = ((t - c + center) << 3) | rng.choice([0, 1, 2, 4])
        if not limit_no_no <= n16[c] < min_maybe:
            del n16[c]
            continue
        m.raw[c] = chr(t)
        m.full[c] = chr(t)
        m.other[c] = t
    # a delta target may itself have a stored mapping, and must not be another delta
    for c, t in list(m.other.items()):
        if t in m.other:
            del n16[c], m.raw[c], m.full[c], m.other[c]
    for c, t in m.other.items():
        if m._hangul(t) or t in m.full and t not in m.other:
            m.full[c] = m.decomposition(t)
    for _ in range(rng.choice([0, 3, 8])):
        c = rng.randrange(0x300, 0x370)
        if c not in n16 and c not in m.other.values():
            n16[c] = rng.choice([0xFE02 + 2 * rng.randrange(1, 200), min_maybe + 2 * rng.randrange(0, max(1, len(comps)))])
    # data for UTF-16 code units, which is not that of the code points
    for _ in range(rng.choice([0, 2])):
        n16[rng.choice([0xD800, 0xDBFF, 0xD800 + rng.randrange(0x400)])] = rng.choice([8, limit_no_no + 64, 0xFE80, min_maybe] + [v for c, v in n16.items() if c in m.full])
    min_yes_no = 4
    map_only = 6
    vals = dict(n16)
    breaks = {0: 1}

    def put(s, e, v):
        breaks[s] = v
        breaks.setdefault(e, None)
    for c, v in vals.items():
        breaks[c] = v
    cur = sorted(vals)
    br = [(0, 1)]
    spans = [(c, c + 1, v) for c, v in vals.items()]
    if m.hangul:
        for s in range(0xAC00, 0xD7A4, 28):
            spans.append((s, s + 1, min_yes_no))
            spans.append((s + 1, s + 28, map_only | 1))
        spans.append((0x1100, 0x1113, 2))
    spans.sort()
    out = [(0, 1)]
    pos = 0
    for s, e, v in spans:
        if s > pos or not out:
            out.append((pos, 1)) if pos else None
        out.append((s, v))
        pos = e
        out.append((e, 1))
    ref = RangeMap(_merge(out))
    fast = rng.random() < 0.7 if fast is None else fast
    image = build_cptrie(ref, 1, fast, 16, 1, dict(overlap=rng.random() < 0.3))
    trie = image.raw
    trie += b"\0" * (-len(trie) % 4)
    ix = [0] * 20
    ix[0] = 80
    ix[1] = 80 + len(trie)
    ed = comps + extra
    eb = struct.pack("=%dH" % len(ed), *ed)
    ix[2] = ix[1] + len(eb)
    for k in range(3, 8):
        ix[k] = ix[2] + 256
    ix[8] = lo
    ix[9] = 0x300
    ix[10] = min_yes_no
    ix[11] = 8
    ix[12] = limit_no_no
    ix[13] = min_maybe
    ix[14] = map_only
    ix[15] = ix[16] = ix[17] = limit_no_no
    ix[18] = 0x300
    blob = udata_header(b"Nrm2", header_length) + struct.pack("=20I", *ix) + trie + eb + b"\0" * 256
    m.n16 = ref
    m.tables = dict(indexes=ix, extra=ed, trie=image.fields)
    return m, blob


def _merge(lst):
    d = {}
    order = []
    for s, v in lst:
        d[s] = v
    return sorted(d.items())


def u16str(units):
    s = ""
    lead = 0
    for u in units:
        if lead:
            s += chr(0x10000 + ((lead - 0xD800) << 10) + (u - 0xDC00))
            lead = 0
        elif 0xD800 <= u < 0xDC00:
            lead = u
        else:
            s += chr(u)
    return s
