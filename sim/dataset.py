"""A synthetic icudata.dat and the reference answers that belong to it."""
import random

from . import icudata as I

SLICE_EDGE = 64


class Dataset:
    def __init__(self, seed):
        rng = self.rng = random.Random("dataset/%s" % seed)
        self.seed = seed
        hl = lambda: rng.choice([24, 32, 32, 48])
        # layout properties
        self.layout = []
        self.errors = []
        raws = []
        for _ in range(3):
            width = rng.choice([8, 8, 16, 32])
            ref, null = I.random_range_map(rng, {8: 0xFF, 16: 0xFFFF, 32: 0xFFFFFFFF}[width])
            opts = dict(share=rng.random() < 0.9, overlap=rng.random() < 0.3, long3=rng.random() < 0.2, gap=rng.choice([0] * 12 + [16] * 4 + [64] * 4 + [65536, 66000, 140000]), late=rng.random() < 0.1, nonull=rng.random() < 0.2)
            if opts["gap"] == 65536:
                opts["alias"] = len(ref.starts) * 7
            raws.append(I.build_cptrie(ref, null, rng.random() < 0.5, width, rng.choice([0, 1, 7]), opts).raw)
            self.layout.append(ref)
        self.names = I.random_names(rng, big=rng.random() < 0.1)
        extra = random.Random("dataset/extra/%s" % seed)
        for k in range(3):
            if extra.random() < 0.05:       # "No trie is stored if the difference ... is less than 16": every value is 0
                raws[k], self.layout[k] = b"", I.RangeMap([(0, 0)])
        if extra.random() < 0.05:
            self.names.algs[:] = []
        for a in self.names.algs:
            if a["type"] == 0 and extra.random() < 0.1:
                a["digits"] = 6
        if extra.random() < 0.3:
            I.odd_lengths(self.names, extra)
        self.raws = raws
        self.norm = {}
        items = {}
        items["unames.icu"] = I.encode_unames(self.names, rng, hl(), extra)
        items["ulayout.icu"] = I.encode_ulayout(raws, hl())
        for n in ("nfkc", "nfkc_cf"):
            self.norm[n], items[n + ".nrm"] = I.random_norm(rng, hl())
        for k in range(rng.choice([0, 1, 3, 6])):
            items[rng.choice(["brkitr/", "coll/", "", "zone/"]) + "x%d_%d.res" % (rng.randrange(50), k)] = (
                I.udata_header(b"ResB", 32) + bytes(rng.randrange(256) for _ in range(rng.randrange(0, 200))))
        order = sorted(items)
        if rng.random() < 0.3:
            rng.shuffle(order)
        self.blob, self.offsets = I.build_package([(n, items[n]) for n in order], rng.choice([24, 32, 64]), pad=rng.choice([16, 16, 4]))
        self.items = items
        # where the table of contents ends, names included
        head = self.blob[0] | self.blob[1] << 8
        self.toc_start = head
        n = int.from_bytes(self.blob[head:head + 4], "little")
        last = max(int.from_bytes(self.blob[head + 4 + 8 * k:head + 8 + 8 * k], "little") for k in range(n))
        self.toc_end = self.blob.index(0, head + last) + 1
        # where the structures inside the items begin and end
        self.edges = []
        for n in ("unames.icu", "ulayout.icu", "nfkc.nrm", "nfkc_cf.nrm"):
            o = self.offsets[n]
            b = o + (self.blob[o] | self.blob[o + 1] << 8)
            ix = [int.from_bytes(self.blob[b + 4 * k:b + 4 * k + 4], "little") for k in range(4)]
            if n == "unames.icu":
                rel = ix
            elif n == "ulayout.icu":
                rel = [48] + ix[1:4]
            else:
                rel = [80] + ix[1:3]
            self.edges += [(n, e) for e in [b] + [b + r for r in rel] + [o + len(items[n])]]
        self.reverse = {}
        for choice in (0, 3):
            r = {}
            for c, nm in self.names.items(choice):
                r.setdefault(nm, c)
            self.reverse[choice] = r
        self.listing = {ch: self.names.items(ch) for ch in (0, 3)}
        self.named = self.names.codes()

    # interesting code points of each service
    def cp(self, rng, what):
        if what == "name":
            r = rng.random()
            if r < 0.6:
                return rng.choice(self.named)
            if r < 0.8:
                return min(max(rng.choice(self.named) + rng.choice([-33, -1, 1, 31, 32]), 0), 0x10FFFF)
            return rng.choice([0, 0x41, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0xFFFF, 0x1FFFE, 0x10FFFF,
                               rng.randrange(0x110000), rng.randrange(0x3000)])
        if what in ("inpc", "insc", "vo"):
            m = self.layout[("inpc", "insc", "vo").index(what)]
            r = rng.random()
            if r < 0.6:
                return min(max(rng.choice(m.starts) + rng.choice([-1, 0, 0, 1, 15, 16, 63, 64]), 0), 0x10FFFF)
            return rng.choice([0, 0x7F, 0x80, 0xFFF, 0x1000, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFF, 0x10000, 0x10FFFF, rng.randrange(0x110000), rng.randrange(0x3000)])
        m = self.norm[what]
        r = rng.random()
        if r < 0.55 and m.full:
            return min(max(rng.choice(list(m.full)) + rng.choice([0, 0, 0, 0, 1, -1]), 0), 0x10FFFF)
        return rng.choice([0, 0x41, m.min_decomp - 1, m.min_decomp, 0x300, 0xABFF, 0xAC00, 0xAC01, 0xAC1C, 0xD7A3, 0xD7A4, 0xD800, 0xDBFF, 0xDFFF,
                           0xFFFF, 0x10FFFF, 0xAC00 + rng.randrange(11172), rng.randrange(0x110000), rng.choice(list(m.other.values()) or [0x41])])


_cache = {}


def get(seed):
    d = _cache.get(seed)
    if d is None:
        d = _cache[seed] = Dataset(seed)
    return d
