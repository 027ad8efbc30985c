#!/usr/bin/python3
"""Drives the Python classes of py-gaoya (C22, C23, C24) against models. Run by check.py with the
freshly built package on PYTHONPATH. Cases are split over forked workers; each is deterministic."""
import json, math, os, random, re, sys, time, traceback

ARGS = sys.argv[1:]


def arg(n, d=None):
    return ARGS[ARGS.index(n) + 1] if n in ARGS else d


PROP = ARGS[0]
SEED = int(arg("--seed", "1"))
THOROUGH = arg("--tier") == "thorough"
OUT = arg("--outdir", ".")
SCRATCH = arg("--scratch", OUT)
ONLY = arg("--case")
CAP = float(arg("--cap", "1e9"))
SCALE = float(arg("--scale", "1"))
WORKERS = int(arg("--workers", "8"))
GROUP = os.environ.get("VH_GROUP") or None
START = time.time()
DICT = {"ints": [], "new_ints": [], "strs": [], "new_strs": []}
if arg("--dict"):
    DICT.update(json.load(open(arg("--dict"))))


class Violation(Exception):
    pass


def need(c, msg, *a):
    if not c:
        raise Violation(msg % a if a else msg)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Case:
    def __init__(self, group, i):
        self.group, self.i = group, i
        self.rng = random.Random("%s/%s/%s/%s" % (SEED, PROP, group, i))
        self.trace, self.stats, self.nontrivial, self.fp, self.desc = [], {}, False, [], ""

    def log(self, s):
        self.trace.append(s if len(s) < 500 else s[:500] + "...")
        if len(self.trace) > 300:
            del self.trace[:100]

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


# ---------------------------------------------------------------- texts
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
WS = " \t\n\r\x0c"
SEP = re.compile("[" + re.escape(PUNCT + WS) + "]+")


def words(doc):
    return [w for w in SEP.split(doc) if w]


def char_ngrams(doc, a, b):
    return [doc[i:i + n] for i in range(len(doc)) for n in range(a, b + 1) if i + n <= len(doc)]


def word_ngrams(doc, a, b):
    w = words(doc)
    return [tuple(w[i:i + n]) for i in range(len(w)) for n in range(a, b + 1) if i + n <= len(w)]


ALPHA = ["a", "b", "c", "d", "e", "A", "B", "é", "É", "ß", "日", "本", "😀", "0", "7", "Ж", "ж", "x\u0301"]
# letters whose lower case depends on the word around them, takes several code points, or has several sources
RARE = ["Σ", "ΑΣ", "σ", "ς", "İ", "I", "ı", "ẞ", "ß", "Ǆ", "ǅ", "K", "Å", "Ω", "ﬁ", "Ŀ", "Ⅷ", "Ⓐ", "𐐀", "Ა", "Ꭰ", "\u0345", "ΐ", "Ὀ", "ᾈ"]


class Texts:
    """Documents over a small vocabulary, many of them near duplicates of earlier ones."""

    def __init__(self, c, lo=0, hi=12):
        r = c.rng
        self.c, self.r = c, r
        self.lo, self.hi = lo, hi
        n = r.choice([3, 8, 20, 60])
        self.vocab = []
        al = ALPHA + RARE if r.random() < 0.3 else ALPHA
        while len(self.vocab) < n:
            w = "".join(r.choice(al) for _ in range(r.choice([1, 1, 2, 3, 5, 9])))
            self.vocab.append(w)
        for s in DICT["new_strs"][:20] + r.sample(DICT["strs"], min(2, len(DICT["strs"]))):
            if r.random() < 0.5:
                self.vocab.append(s)
        self.seen = []

    def sep(self):
        return self.r.choice([" ", " ", " ", " ", "  ", "\n", "\t", ", ", ". ", "-", "\r\n", "'"])

    def fresh(self):
        r = self.r
        k = r.randint(self.lo, self.hi)
        if DICT["new_ints"] and r.random() < 0.1:
            v = r.choice(DICT["new_ints"])
            if v <= 300:
                k = v + r.randint(-1, 1)
        s = ""
        for i in range(max(0, k)):
            s += r.choice(self.vocab)
            if i + 1 < k or r.random() < 0.2:
                s += self.sep()
        if r.random() < 0.05:
            s = r.choice(["", " ", "...", "\n"]) + s
        return s

    def vary(self, d):
        r = self.r
        k = r.randrange(6)
        if k == 0 or not d:
            return d
        if k == 1:
            return d.swapcase() if d.swapcase().lower() == d.lower() else d
        if k == 2:
            return d + " " + r.choice(self.vocab)
        w = d.split(" ")
        j = r.randrange(len(w))
        if k == 3:
            w[j] = r.choice(self.vocab)
        elif k == 4:
            del w[j]
        else:
            r.shuffle(w)
        return " ".join(w)

    def doc(self):
        r = self.r
        d = self.vary(r.choice(self.seen)) if self.seen and r.random() < 0.6 else self.fresh()
        self.seen.append(d)
        if len(self.seen) > 60:
            self.seen.pop(0)
        return d


def an_id(c, space):
    r = c.rng
    k = r.randrange(12)
    if k == 0:
        return r.choice([-1, -2, 2**63 - 1, -2**63, 2**63 - 2, 1 - 2**63, 2**53 + 1, 2**53, -2**53 - 1, 2**32, 2**32 + 1, 2**31, 2**24 + 1, 10**12])
    if k == 1 and DICT["ints"]:
        v = r.choice(DICT["new_ints"] or DICT["ints"])
        return v if v < 2**63 else v - 2**64
    return r.randrange(space)


def inner(ix, method):
    """The extension object behind a Python index: whatever attribute has the method."""
    for v in vars(ix).values():
        if hasattr(v, method):
            return v
    return ix


def batch_size(c):
    r = c.rng
    if c.group == "scale":
        return r.choice([0, r.randint(1, 100), r.randint(500, 1500), r.randint(1500, 6000), 2 ** r.randint(9, 12) + r.randint(-1, 1)])
    k = r.randrange(10)
    if k < 4:
        return r.randint(0, 12)
    if k < 6:
        return r.choice([98, 99, 100, 101, 102])
    if k == 6:
        return r.randint(90, 330)
    if k == 7 and DICT["new_ints"]:
        v = r.choice(DICT["new_ints"])
        if v <= 2500:
            return max(0, v + r.randint(-1, 1))
    return r.randint(10, 60)


# ---------------------------------------------------------------- MinHash
def bands_for(thr, n, p=0.99):
    """The documented choice of bands and width, with slack for rounding: a set of answers."""
    def pr(b, r):
        return 1.0 - (1.0 - thr ** r) ** b
    outs, b, r = set(), n, 1
    while b > 1:
        b1 = n // (r + 1)
        q = pr(b1, r + 1)
        if abs(q - p) < 1e-9:
            outs.add((b, r))
        if q > p or abs(q - p) < 1e-9:
            b, r = b1, r + 1
        else:
            break
    outs.add((b, r))
    return outs


def callables(c):
    def upper(doc):
        return words(doc.upper())

    def plain(doc):
        return words(doc)

    def tup(doc):
        return tuple(words(doc))

    def pairs(doc):
        w = words(doc)
        return [a + "x" + b for a, b in zip(w, w[1:])] or ["none"]

    def grams(doc):
        s = "".join(words(doc))
        # never an empty token: the reference joins tokens into a text, where it would vanish
        return [s[i:i + 3] for i in range(len(s) - 2)] or ["none"]

    return c.rng.choice([upper, plain, tup, pairs, grams])


class Boom(Exception):
    pass


class MH:
    """One Python MinHash index and its model."""

    def __init__(self, c, m):
        r = c.rng
        self.c, self.m = c, m
        self.hash_size = r.choice([8, 16, 32, 64])
        self.container = r.choice(["set", "vec", "smallvec"])
        self.lower = r.random() < 0.4
        self.boom = False
        self.fail_at = None
        kind = r.randrange(3)
        self.ng = None
        if kind == 0:
            self.an = "word"
            self.ng = r.choice([None, None, (1, 1), (1, 2), (2, 2), (1, 3), (2, 4)])
        elif kind == 1:
            self.an = "char"
            self.ng = r.choice([None, (1, 1), (2, 2), (3, 3), (1, 3), (2, 5)])
        else:
            f = callables(c)

            def an(doc, f=f):
                if self.fail_at is not None:
                    self.fail_at -= 1
                    if self.fail_at < 0:
                        raise Boom("analyzer failed")
                return f(doc)
            self.an, self.f = an, f
        if r.random() < 0.3 and c.group != "scale":
            n = r.choice([1, 2, 7, 16, 40, 64, 100, 128, 200])
            self.thr = r.choice([0.1, 0.3, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0])
            nb, bs = r.choice([(None, None), (None, 5), (10, None)])
            args = dict(num_bands=nb, band_size=bs, num_hashes=n)
            want = bands_for(self.thr, n)
        else:
            b, w = r.choice([(1, 1), (4, 1), (3, 2), (5, 2)] if c.group == "scale" else [(1, 1), (4, 1), (3, 2), (6, 2), (20, 5), (1, 8), (25, 3), (42, 3), (10, 1), (33, 1)])
            n = b * w
            self.thr = r.choice([0.0, 1.0, 0.5, r.randint(0, n) / n, r.randint(0, n) / n, round(r.random(), 2)])
            args = dict(num_bands=b, band_size=w, num_hashes=r.choice([None, None, 126, 7]))
            want = {(b, w)}
        kw = dict(hash_size=self.hash_size, jaccard_threshold=self.thr, analyzer=self.an, lowercase=self.lower,
                  ngram_range=self.ng, id_container=self.container, **args)
        c.desc = "MinHashStringIndex(%s)" % ", ".join("%s=%s" % (k, v if not callable(v) else self.f.__name__) for k, v in kw.items())
        c.log(c.desc)
        self.ix = m.MinHashStringIndex(**kw)
        s = str(self.ix)
        mm = re.search(r"bands = (\d+), rows_per_band = (\d+)", s)
        need(mm, "str(index) does not state the bands: %s", s)
        self.b, self.r = int(mm.group(1)), int(mm.group(2))
        need((self.b, self.r) in want, "%s has %d bands of %d, expected %s", c.desc, self.b, self.r, sorted(want))
        hm = re.search(r"num_hashes = (\d+)", s)
        need(hm and int(hm.group(1)) == self.b * self.r, "num_hashes in %s", s)
        # the same hasher with the plain word analyzer gives the signature of a token list
        self.ref = m.MinHashStringIndex(hash_size=self.hash_size, jaccard_threshold=0.5, num_bands=self.b, band_size=self.r)
        self.n = self.b * self.r
        self.live = {}
        self.docs = {}
        self.cache = {}

    def sig(self, doc):
        s = self.cache.get(doc)
        if s is None:
            if callable(self.an):
                s = inner(self.ref, "tokenize_and_minhash").tokenize_and_minhash(" ".join(self.f(doc)))
            else:
                s = inner(self.ix, "tokenize_and_minhash").tokenize_and_minhash(doc.lower() if self.lower else doc)
            s = tuple(s)
            need(len(s) == self.n, "a signature has %d hashes, expected %d", len(s), self.n)
            self.cache[doc] = s
        return s

    def expect(self, doc):
        q = self.sig(doc)
        out = {}
        n, b, r, thr = self.n, self.b, self.r, self.thr
        memo = {}
        for i, s in self.live.items():
            v = memo.get(s)
            if v is None:
                v = -1.0
                if any(s[k * r:(k + 1) * r] == q[k * r:(k + 1) * r] for k in range(b)):
                    x = sum(1 for u, w in zip(s, q) if u == w) / n
                    if x >= thr:
                        v = x
                memo[s] = v
            if v >= 0:
                out[i] = v
        return out

    def check_plain(self, got, want, what):
        need(isinstance(got, list), "%s returned %s", what, type(got))
        g = set(got)
        if len(g) != len(got):
            need(False, "%s lists an id twice: %s", what, short(got))
        if g != want.keys():
            need(False, "%s: missing %s, extra %s", what, short(sorted(want.keys() - g)), short(sorted(g - want.keys())))

    def check_sim(self, got, want, what):
        self.check_plain([x[0] for x in got], want, what + " (with similarity)")
        for k, (i, s) in enumerate(got):
            need(abs(s - want[i]) < 1e-9, "%s: similarity of %d is %r, exactly %r", what, i, s, want[i])
            if k and not got[k - 1][1] >= s:
                need(False, "%s is not sorted from highest to lowest: %s", what, short([x[1] for x in got]))

    def audit(self, t):
        c, r = self.c, self.c.rng
        need(self.ix.size() == len(self.live), "size() is %s, %d documents are stored", self.ix.size(), len(self.live))
        if getattr(self, "stand", None) and r.random() < 0.4:
            # the questions of the last audit again, so that an answer kept from then is seen
            self.ask_batch(self.stand, [self.expect(q) for q in self.stand])
        qs = [t.doc() for _ in range(r.randint(1, 4))]
        if self.docs:
            ids = list(self.docs)
            qs += [self.docs[r.choice(ids)] for _ in range(3)]
        if getattr(self, "stand", None):
            qs.insert(0, self.stand[-1])
        self.stand = qs[-3:]
        wants = [self.expect(q) for q in qs]
        for q, w in zip(qs, wants):
            self.check_plain(self.ix.query(q), w, "query(%s)" % short(q))
            self.check_sim(self.ix.query(q, return_similarity=True), w, "query(%s)" % short(q))
            c.count("queries checked", 2)
            c.count("matches", len(w))
            if w and len(w) < len(self.live):
                c.nontrivial = True
            c.fp.append(len(w))
        if r.random() < 0.15 and len(qs) > 1:
            k = r.choice([50, 99, 100, 101, 150] if c.group != "scale" else [500, 1000, 2049, 5000])
            k = max(len(qs), min(k, 400000 * len(qs) // (1 + sum(len(w) for w in wants))))
            idx = [r.randrange(len(qs)) for _ in range(k)]
            qs, wants = [qs[j] for j in idx], [wants[j] for j in idx]
        self.ask_batch(qs, wants)
        self.ask_batch(self.stand, [self.expect(q) for q in self.stand])

    def ask_batch(self, qs, wants):
        c = self.c
        a = self.ix.par_bulk_query(qs)
        need(len(a) == len(qs), "par_bulk_query of %d documents returned %d answers", len(qs), len(a))
        for k, (g, w) in enumerate(zip(a, wants)):
            self.check_plain(g, w, "par_bulk_query answer %d" % k)
        a = self.ix.par_bulk_query(qs, return_similarity=True)
        need(len(a) == len(qs), "par_bulk_query of %d documents returned %d answers", len(qs), len(a))
        for k, (g, w) in enumerate(zip(a, wants)):
            self.check_sim(g, w, "par_bulk_query answer %d" % k)
        c.count("batch queries checked", 2)


def c22_case(c):
    import gaoya.minhash as m
    x = MH(c, m)
    r = c.rng
    t = Texts(c, 0, r.choice([3, 8, 14]))
    space = r.choice([4, 15, 60, 400] if c.group != "scale" else [400, 5000])
    past = []
    for step in range(r.choice([4, 8, 14] if c.group != "scale" else [3, 6])):
        k = r.randrange(10)
        if k < 3:
            for _ in range(r.randint(1, 5)):
                i, d = r.choice(past) if past and r.random() < 0.25 else (an_id(c, space), t.doc())
                past.append((i, d))
                c.log("insert_document(%d, %r)" % (i, d))
                x.ix.insert_document(i, d)
                x.live[i] = x.sig(d)
                x.docs[i] = d
                c.count("op:insert_document")
        elif k < 6:
            n = batch_size(c)
            ids = [an_id(c, space if r.random() < 0.5 else 10**6) for _ in range(n)]
            if r.random() < 0.3:
                # in order, some ids several times in a row
                ids.sort()
                for k in range(1, n):
                    if r.random() < 0.1:
                        ids[k] = ids[k - 1]
                if r.random() < 0.2:
                    ids.reverse()
            docs = [t.doc() for _ in range(n)]
            for k in range(n):
                if past and r.random() < 0.1:
                    # an earlier pair again, or its id with another document
                    ids[k], d = past[-1] if r.random() < 0.5 else r.choice(past)
                    if r.random() < 0.5:
                        docs[k] = d
            past = past[-20:] + list(zip(ids, docs))[-3:]
            c.log("par_bulk_insert_docs(%d documents, ids %s)" % (n, short(ids, 120)))
            e = inner(x.ix, "par_bulk_insert_tokens")
            if callable(x.an) and r.random() < 0.5 and hasattr(e, "par_bulk_insert_tokens"):
                # a bulk method of the extension class which the Python class does not use
                e.par_bulk_insert_tokens(ids, [list(x.an(d)) for d in docs])
            else:
                x.ix.par_bulk_insert_docs(ids, docs)
            for i, d in zip(ids, docs):
                x.live[i] = x.sig(d)
                x.docs[i] = d
            c.count("op:par_bulk_insert_docs")
            c.count("batches of 100 or more", int(n >= 100))
        elif k < 8:
            for _ in range(r.randint(1, 6)):
                i = r.choice(list(x.live)) if x.live and r.random() < 0.7 else an_id(c, space)
                c.log("remove(%d)" % i)
                x.ix.remove(i)
                x.live.pop(i, None)
                x.docs.pop(i, None)
                c.count("op:remove")
        elif k == 8 and callable(x.an):
            n = r.choice([1, 3, 120])
            ids, docs = [an_id(c, space) for _ in range(n)], [t.doc() for _ in range(n)]
            x.fail_at = r.randrange(n)
            c.log("insertion of %d documents with the analyzer failing at %d" % (n, x.fail_at))
            try:
                if n == 1:
                    x.ix.insert_document(ids[0], docs[0])
                else:
                    x.ix.par_bulk_insert_docs(ids, docs)
                need(False, "the analyzer's exception was swallowed")
            except Boom:
                pass
            x.fail_at = 0
            try:
                x.ix.query(docs[0])
                need(False, "the analyzer's exception was swallowed by query")
            except Boom:
                pass
            x.fail_at = None
            c.count("analyzer failures")
        else:
            # arguments of the wrong type are refused without effect
            for f in (lambda: x.ix.insert_document("id", t.doc()), lambda: x.ix.insert_document(2**64, t.doc()), lambda: x.ix.insert_document(1, 5),
                      lambda: x.ix.par_bulk_insert_docs([1, "x"], ["a", "b"]), lambda: x.ix.remove("id")):
                try:
                    f()
                    ok = True
                except Exception:
                    ok = False
                need(not ok, "a call with arguments of the wrong type was accepted")
            c.count("ill-typed calls refused", 5)
        x.audit(t)
    for i in list(x.live):
        x.ix.remove(i)
    need(x.ix.size() == 0, "size() is %d after removing everything", x.ix.size())
    x.live, x.docs = {}, {}
    x.audit(t)


def c22_args(c):
    import gaoya.minhash as m
    r = c.rng
    good = dict(hash_size=32, jaccard_threshold=0.5, num_bands=4, band_size=2)
    bad = dict(good)
    k = c.i % 5
    if k == 0:
        bad["hash_size"] = r.choice([0, 1, 4, 7, 9, 12, 15, 17, 24, 31, 33, 48, 63, 65, 96, 128, 256, -8, 512, 32.5, 8.9, 16.25, 64.0001, "32", "64", None, r.randint(-5, 2000)])
        if bad["hash_size"] in (8, 16, 32, 64):
            return
    elif k == 1:
        bad["jaccard_threshold"] = r.choice([-0.0001, 1.0001, -1, 2, 75, 1e9, -1e-12, 1 + 1e-9, float("inf"), -float("inf"), -r.random() - 1e-9, 1.0000001 + r.random()])
    elif k == 2:
        bad["id_container"] = r.choice(["", "Set", "hashset", "list", "vector", "small", "SMALLVEC", "set ", None, 5, "smallvec2", "ve"])
    else:
        bad.update(num_bands=r.choice([None, 4]), band_size=None, num_hashes=None)
        if k == 4:
            bad.update(num_bands=None, band_size=r.choice([None, 2]))
    c.desc = c_desc = "MinHashStringIndex(%s)" % bad
    c.log(c_desc)
    try:
        m.MinHashStringIndex(**bad)
    except ValueError:
        c.nontrivial = True
        c.fp.append(c_desc)
        c.count("invalid constructions refused")
        return
    need(False, "%s did not raise ValueError", c_desc)


# ---------------------------------------------------------------- SimHash
class SH:
    def __init__(self, c, m):
        r = c.rng
        self.c, self.m = c, m
        self.hash_size = r.choice([64, 128])
        self.blocks, self.dist = r.choice([(6, 5), (6, 4), (3, 0), (3, 1), (3, 2), (4, 3), (5, 2), (8, 6), (8, 3), (10, 8), (7, 6), (12, 2), (32, 1), (32, 0), (9, 8), (13, 12), (17, 16), (31, 30), (32, 31)]
                                          if c.group != "scale" else [(6, 5), (3, 2), (4, 3), (8, 7)])
        self.lower = r.random() < 0.4
        kind = r.randrange(3)
        self.ng = None
        if kind == 0:
            self.an = "word"
            self.ng = r.choice([None, None, (1, 1), (1, 2), (2, 2), (1, 3)])
        elif kind == 1:
            self.an = "char"
            self.ng = r.choice([None, (1, 1), (2, 2), (3, 3), (1, 3)])
        else:
            self.an = callables(c)
        kw = dict(hash_size=self.hash_size, num_blocks=self.blocks, hamming_distance=self.dist, analyzer=self.an, lowercase=self.lower, ngram_range=self.ng)
        c.desc = "SimHashStringIndex(%s)" % ", ".join("%s=%s" % (k, v if not callable(v) else v.__name__) for k, v in kw.items())
        c.log(c.desc)
        self.ix = m.SimHashStringIndex(**kw)
        self.ref = m.SimHashStringIndex(hash_size=self.hash_size)
        self.live, self.docs, self.cache = {}, {}, {}

    def sig(self, doc):
        s = self.cache.get(doc)
        if s is None:
            if callable(self.an):
                s = inner(self.ref, "tokenize_and_simhash").tokenize_and_simhash(" ".join(self.an(doc)))
            else:
                s = inner(self.ix, "tokenize_and_simhash").tokenize_and_simhash(doc.lower() if self.lower else doc)
            self.cache[doc] = s
        return s

    def expect(self, doc):
        q = self.sig(doc)
        out = {}
        for i, s in self.live.items():
            d = bin(q ^ s).count("1")
            if d <= self.dist:
                out[i] = d
        return out

    def plain(self, got, want, what):
        need(isinstance(got, list), "%s returned %s", what, type(got))
        g = set(got)
        if len(g) != len(got):
            need(False, "%s lists an id twice: %s", what, short(got))
        if g != want.keys():
            need(False, "%s: missing %s, extra %s", what, short(sorted(want.keys() - g)), short(sorted(g - want.keys())))

    def withd(self, got, want, what):
        self.plain([x[0] for x in got], want, what + " (with distance)")
        for k, (i, d) in enumerate(got):
            need(d == want[i], "%s: distance of %d is %r, exactly %r", what, i, d, want[i])
            if k and not got[k - 1][1] <= d:
                need(False, "%s is not sorted from lowest to highest: %s", what, short([x[1] for x in got]))

    def audit(self, t):
        c, r = self.c, self.c.rng
        if getattr(self, "stand", None) and r.random() < 0.4:
            self.ask_batch(self.stand, [self.expect(q) for q in self.stand])
        qs = [t.doc() for _ in range(r.randint(1, 4))]
        if self.docs:
            ids = list(self.docs)
            qs += [self.docs[r.choice(ids)] for _ in range(3)]
        if getattr(self, "stand", None):
            qs.insert(0, self.stand[-1])
        self.stand = qs[-3:]
        wants = [self.expect(q) for q in qs]
        for q, w in zip(qs, wants):
            self.plain(self.ix.query(q), w, "query(%s)" % short(q))
            self.withd(self.ix.query(q, True), w, "query(%s)" % short(q))
            self.withd(self.ix.query(q, return_hamming_distance=True), w, "query(%s)" % short(q))
            c.count("queries checked", 3)
            c.count("matches", len(w))
            c.count("matches exactly at the distance", sum(1 for d in w.values() if d == self.dist))
            if w and len(w) < len(self.live):
                c.nontrivial = True
            c.fp.append(len(w))
        if r.random() < 0.2:
            k = r.choice([50, 99, 100, 101, 150] if c.group != "scale" else [500, 1000, 2049, 5000])
            k = max(len(qs), min(k, 400000 * len(qs) // (1 + sum(len(w) for w in wants))))
            idx = [r.randrange(len(qs)) for _ in range(k)]
            qs, wants = [qs[j] for j in idx], [wants[j] for j in idx]
        self.ask_batch(qs, wants)
        self.ask_batch(self.stand, [self.expect(q) for q in self.stand])

    def ask_batch(self, qs, wants):
        c = self.c
        a = self.ix.par_bulk_query(qs)
        need(len(a) == len(qs), "par_bulk_query of %d documents returned %d answers", len(qs), len(a))
        for k, (g, w) in enumerate(zip(a, wants)):
            self.plain(g, w, "par_bulk_query answer %d" % k)
        a = self.ix.par_bulk_query(qs, return_similarity=True)
        need(len(a) == len(qs), "par_bulk_query of %d documents returned %d answers", len(qs), len(a))
        for k, (g, w) in enumerate(zip(a, wants)):
            self.withd(g, w, "par_bulk_query answer %d" % k)
        c.count("batch queries checked", 2)


def c23_case(c):
    import gaoya.simhash as m
    x = SH(c, m)
    r = c.rng
    big = r.random() < 0.7
    t = Texts(c, 15 if big else 0, 60 if big else 8)
    space = r.choice([4, 15, 60] if c.group != "scale" else [60, 5000])
    past = []
    for step in range(r.choice([3, 6, 10] if c.group != "scale" else [2, 4])):
        if r.random() < (0.25 if c.group != "scale" else 0.7):
            # the bulk methods of the extension class
            n = batch_size(c)
            ids, docs = [an_id(c, space if r.random() < 0.5 else 10**6) for _ in range(n)], [t.doc() for _ in range(n)]
            if r.random() < 0.3:
                ids.sort()
            c.log("bulk insertion of %d documents" % n)
            if callable(x.an):
                inner(x.ix, "par_bulk_insert_tokens").par_bulk_insert_tokens(ids, [list(x.an(d)) for d in docs])
            else:
                inner(x.ix, "par_bulk_insert_docs").par_bulk_insert_docs(ids, docs)
            for i, d in zip(ids, docs):
                x.live[i], x.docs[i] = x.sig(d), d
            c.count("op:bulk insert")
        else:
            for _ in range(r.randint(1, 8)):
                i, d = r.choice(past) if past and r.random() < 0.25 else (an_id(c, space), t.doc())
                past = past[-20:] + [(i, d)]
                c.log("insert_document(%d, %r)" % (i, d))
                x.ix.insert_document(i, d)
                x.live[i], x.docs[i] = x.sig(d), d
                c.count("op:insert_document")
        x.audit(t)


def c23_args(c):
    import gaoya.simhash as m
    r = c.rng
    bad = dict(hash_size=64, num_blocks=6, hamming_distance=5)
    k = c.i % 4
    if k == 0:
        bad["hash_size"] = r.choice([0, 8, 16, 32, 63, 65, 127, 129, 256, -64, 96, 64.5, 128.25, "64", "128", None, r.randint(-10, 1000)])
        if bad["hash_size"] in (64, 128):
            return
    elif k == 1:
        bad["num_blocks"] = r.choice([-1, 0, 1, 2, 33, 34, 64, 100, 1000, r.randint(33, 5000), r.randint(-50, 2)])
        bad["hamming_distance"] = r.choice([0, 1, 5])
        if bad["num_blocks"] > 32:
            bad["hamming_distance"] = r.choice([0, 1, 2])
    elif k == 2:
        b = r.randint(3, 32)
        bad.update(num_blocks=b, hamming_distance=b + r.choice([0, 0, 1, 5]))
    else:
        bad["analyzer"] = r.choice(["", "Word", "words", "token", "char ", "WORD", "chars", "wor", "ngram"])
    c.desc = "SimHashStringIndex(%s)" % bad
    c.log(c.desc)
    try:
        m.SimHashStringIndex(**bad)
    except ValueError:
        c.nontrivial = True
        c.fp.append(c.desc)
        c.count("invalid constructions refused")
        return
    need(False, "%s did not raise ValueError", c.desc)


# ---------------------------------------------------------------- analyzers
def features(an, ng, lower, doc):
    """What the documentation says the features are."""
    if lower:
        doc = doc.lower()
    if an == "char":
        a, b = ng or (3, 4)
        return char_ngrams(doc, a, b)
    a, b = ng or (1, 1)
    return word_ngrams(doc, a, b)


def norm_sim(a):
    return sorted((i, round(s, 9)) for i, s in a)


def c24_mh(c):
    """Built-in analyzers against a callable that computes the same features in Python."""
    import gaoya.minhash as m
    r = c.rng
    an = r.choice(["word", "char", "char"])
    ng = None if an == "word" else r.choice([None, (1, 1), (2, 2), (3, 3), (4, 4), (1, 2), (1, 3), (2, 5), (3, 4), (1, 6), (5, 9)])
    if an == "char" and DICT["new_ints"] and r.random() < 0.3:
        v = [x for x in DICT["new_ints"] if 1 <= x <= 12]
        if v:
            a = r.choice(v)
            ng = (a, a + r.randint(0, 3))
    lower = r.random() < 0.5
    n = r.choice([8, 24, 64])
    kw = dict(hash_size=r.choice([8, 16, 32, 64]), jaccard_threshold=r.choice([0.0, 0.2, 0.5]), num_bands=n, band_size=1, id_container=r.choice(["set", "vec", "smallvec"]))
    c.desc = "MinHash analyzer=%s ngram_range=%s lowercase=%s %s" % (an, ng, lower, kw)
    c.log(c.desc)

    def call(doc):
        f = features(an, ng, lower, doc)
        return [x[0] for x in f] if an == "word" else f
    A = m.MinHashStringIndex(analyzer=an, ngram_range=ng, lowercase=lower, **kw)
    # a callable gets the raw document, whatever lowercase says
    B = m.MinHashStringIndex(analyzer=call, lowercase=r.random() < 0.3, **kw)
    t = Texts(c, 0, r.choice([2, 6, 12]))
    docs = {}
    for step in range(r.choice([1, 2, 3])):
        ids = list(range(len(docs), len(docs) + batch_size(c)))
        new = [t.doc() for _ in ids]
        if r.random() < 0.5:
            for i, d in zip(ids, new):
                c.log("insert %r" % d) if len(ids) < 30 else None
                A.insert_document(i, d)
                B.insert_document(i, d)
        else:
            c.log("bulk insert of %d" % len(ids))
            A.par_bulk_insert_docs(ids, new)
            B.par_bulk_insert_docs(ids, new)
        docs.update(zip(ids, new))
        if not docs:
            continue
        qs = [t.doc() for _ in range(3)] + [docs[r.choice(list(docs))] for _ in range(4)]
        for q in qs:
            a, b = norm_sim(A.query(q, return_similarity=True)), norm_sim(B.query(q, return_similarity=True))
            need(a == b, "%s: query(%s) gives %s with the built-in analyzer and %s with a callable yielding the same features %s", c.desc, short(q), short(a), short(b), short(call(q), 100))
            need(sorted(A.query(q)) == sorted(B.query(q)) == [x[0] for x in a], "%s: query(%s) differs from the query with similarities", c.desc, short(q))
            c.count("built-in and callable answers compared")
            c.fp.append(len(a))
        pa, pb = A.par_bulk_query(qs, return_similarity=True), B.par_bulk_query(qs, return_similarity=True)
        for q, a, b in zip(qs, pa, pb):
            need(norm_sim(a) == norm_sim(b) == norm_sim(A.query(q, return_similarity=True)), "%s: par_bulk_query(%s) differs between analyzers or from query", c.desc, short(q))
        self_find_mh(c, A, docs, lambda d: features(an, ng, lower, d), lower)
        if lower:
            fold(c, A, docs, True)


def self_find_mh(c, ix, docs, feats, lower):
    sel = c.rng.sample(sorted(docs), min(12, len(docs)))
    out = ix.par_bulk_query([docs[i] for i in sel], return_similarity=True)
    for i, o in zip(sel, out):
        if not feats(docs[i]):
            continue
        c.nontrivial = True
        got = dict(ix.query(docs[i], return_similarity=True))
        need(got.get(i) == 1.0, "%s: the stored document %s does not find itself with similarity 1: %s", c.desc, short(docs[i]), got.get(i))
        need(dict(o).get(i) == 1.0, "%s: the stored document %s does not find itself in a batch query", c.desc, short(docs[i]))
        c.count("self queries", 2)


def fold(c, ix, docs, sim):
    """With lowercase, spellings that differ only in case get the same answers."""
    for i in c.rng.sample(sorted(docs), min(6, len(docs))):
        d = docs[i]
        for e in (d.swapcase(), d.upper(), d.lower()):
            if e.lower() != d.lower():
                continue
            a, b = ix.query(d, True), ix.query(e, True)
            need(norm_sim(a) == norm_sim(b), "%s: %s and %s differ only in case but get different answers", c.desc, short(d), short(e))
            pa = ix.par_bulk_query([e], True)[0]
            need(norm_sim(a) == norm_sim(pa), "%s: %s in a batch gets another answer than %s", c.desc, short(e), short(d))
            c.count("case variants compared", 2)


def c24_sh(c):
    import gaoya.simhash as m
    r = c.rng
    an = r.choice(["word", "char"])
    ng = None if an == "word" else r.choice([None, (1, 1), (2, 2), (3, 3), (1, 2), (1, 3), (2, 5), (3, 4)])
    lower = r.random() < 0.5
    blocks, dist = r.choice([(6, 5), (8, 6), (10, 9), (20, 19)])
    hs = r.choice([64, 128])
    kw = dict(hash_size=hs, num_blocks=blocks, hamming_distance=dist)
    c.desc = "SimHash analyzer=%s ngram_range=%s lowercase=%s %s" % (an, ng, lower, kw)
    c.log(c.desc)

    def call(doc):
        f = features(an, ng, lower, doc)
        return [x[0] for x in f] if an == "word" else f
    A = m.SimHashStringIndex(analyzer=an, ngram_range=ng, lowercase=lower, **kw)
    B = m.SimHashStringIndex(analyzer=call, lowercase=r.random() < 0.3, **kw)
    big = r.random() < 0.7
    t = Texts(c, 10 if big else 0, 50 if big else 6)
    docs = {}
    for i in range(r.choice([5, 20, 60])):
        d = t.doc()
        c.log("insert %r" % d)
        A.insert_document(i, d)
        B.insert_document(i, d)
        docs[i] = d
    qs = [t.doc() for _ in range(3)] + [docs[r.choice(list(docs))] for _ in range(4)]
    for q in qs:
        a, b = sorted(A.query(q, True)), sorted(B.query(q, True))
        need(a == b, "%s: query(%s) gives %s with the built-in analyzer and %s with a callable yielding the same features", c.desc, short(q), short(a), short(b))
        need(sorted(A.query(q)) == sorted(B.query(q)) == [x[0] for x in a], "%s: query(%s) differs from the query with distances", c.desc, short(q))
        c.count("built-in and callable answers compared")
        c.fp.append(len(a))
    pa, pb = A.par_bulk_query(qs, True), B.par_bulk_query(qs, True)
    for q, a, b in zip(qs, pa, pb):
        need(sorted(a) == sorted(b) == sorted(A.query(q, True)), "%s: par_bulk_query(%s) differs between analyzers or from query", c.desc, short(q))
    for i in r.sample(sorted(docs), min(12, len(docs))):
        if features(an, ng, lower, docs[i]):
            c.nontrivial = True
            need(dict(A.query(docs[i], True)).get(i) == 0, "%s: the stored document %s does not find itself at distance 0", c.desc, short(docs[i]))
            need(dict(A.par_bulk_query([docs[i]], True)[0]).get(i) == 0, "%s: the stored document %s does not find itself in a batch query", c.desc, short(docs[i]))
            c.count("self queries", 2)
    if lower:
        fold(c, A, docs, False)


def c24_long(c):
    """Documents of thousands to tens of thousands of characters."""
    import gaoya.minhash as m
    import gaoya.simhash as s
    r = c.rng
    an = r.choice(["word", "char"])
    ng = None if an == "word" else r.choice([None, (1, 1), (2, 3), (3, 3), (5, 5)])
    lower = r.random() < 0.5
    hs = r.choice([16, 32, 64])
    c.desc = "long documents, analyzer=%s ngram_range=%s lowercase=%s hash_size=%d" % (an, ng, lower, hs)

    def call(doc):
        f = features(an, ng, lower, doc)
        return [x[0] for x in f] if an == "word" else f
    kw = dict(hash_size=hs, jaccard_threshold=0.0, num_bands=16, band_size=1)
    kw2 = dict(hash_size=r.choice([64, 128]), num_blocks=6, hamming_distance=5)
    A = m.MinHashStringIndex(analyzer=an, ngram_range=ng, lowercase=lower, **kw)
    B = m.MinHashStringIndex(analyzer=call, **kw)
    C = s.SimHashStringIndex(analyzer=an, ngram_range=ng, lowercase=lower, **kw2)
    D = s.SimHashStringIndex(analyzer=call, **kw2)
    docs = []
    for _ in range(3):
        n = r.choice([1000, 4000, 9000, 2 ** r.randint(9, 13)]) + r.randint(0, 40)
        vocab = ["%s%d" % (r.choice(ALPHA), k) for k in range(r.choice([5, 300, 20000]))]
        if r.random() < 0.5:
            vocab += [w + r.choice(RARE) for w in r.sample(vocab, min(len(vocab), 40))] + RARE
        docs.append(r.choice([" ", ", ", "\n"]).join(r.choice(vocab) for _ in range(n)))
    docs.append(docs[0] + " tail")
    docs.append("head " + docs[1])
    c.fp.append(tuple(len(d) for d in docs))
    for ix in (A, B, C, D):
        if ix in (A, B) and r.random() < 0.5:
            ix.par_bulk_insert_docs(list(range(len(docs))), docs)
        else:
            for i, d in enumerate(docs):
                ix.insert_document(i, d)
    for i, d in enumerate(docs):
        for x, y, one in ((A, B, 1.0), (C, D, 0)):
            a, b = norm_sim(x.query(d, True)), norm_sim(y.query(d, True))
            need(a == b, "%s: document %d of %d characters gets %s with the built-in analyzer and %s with a callable yielding the same features", c.desc, i, len(d), short(a), short(b))
            need(dict(a).get(i) == one, "%s: the stored document %d of %d characters does not find itself", c.desc, i, len(d))
            c.count("long documents compared")
    for x, y in ((A, B), (C, D)):
        need([norm_sim(a) for a in x.par_bulk_query(docs, True)] == [norm_sim(a) for a in y.par_bulk_query(docs, True)] == [norm_sim(x.query(d, True)) for d in docs], "%s: batch answers differ", c.desc)
    c.nontrivial = True


def pair_for(r, t, k):
    """A pair of word lists over fresh words with some shared structure."""
    w = ["w%x" % r.getrandbits(40) for _ in range(k)]
    v = list(w)
    m = r.randrange(8)
    if m >= 5 and k > 1:
        # repeated words: in a row, here and there, the whole text over again
        if m == 5:
            w = [x for x in w for _ in range(r.choice([1, 1, 2, 3]))][:k]
            v = [x for x in w for _ in range(r.choice([1, 1, 2]))]
        elif m == 6:
            w = [r.choice(w[: max(1, k // 2)]) for _ in w]
            v = list(w)
            v[r.randrange(k)] = v[r.randrange(k)]
        else:
            w, v = v * 2, v * 3
    elif m == 0:
        r.shuffle(v)
    elif m == 1:
        for _ in range(max(1, k // 5)):
            v[r.randrange(k)] = "v%x" % r.getrandbits(40)
    elif m == 2:
        v = v[k // 2:] + v[:k // 2]
    elif m == 3:
        v = v[: max(1, k * 2 // 3)]
    else:
        v = v[::-1]
    return w, v


def c24_words(c):
    """Word n-grams: exact set laws and the similarity estimate against the true n-gram sets."""
    import gaoya.minhash as m
    import gaoya.simhash as s
    r = c.rng
    ng = r.choice([(1, 1), (2, 2), (3, 3), (1, 2), (1, 3), (2, 3), (2, 4), (1, 5), (4, 4), (5, 5), (5, 7), (6, 8), (3, 9), (7, 7), (10, 12)])
    if DICT["new_ints"] and r.random() < 0.3:
        v = [x for x in DICT["new_ints"] if 1 <= x <= 12]
        if v:
            a = r.choice(v)
            ng = (a, a + r.randint(0, 2))
    lower = r.random() < 0.5
    n = 400
    hs = r.choice([8, 16, 32, 32, 64, 64])
    cont = r.choice(["set", "vec", "smallvec"])
    A = m.MinHashStringIndex(hash_size=hs, jaccard_threshold=0.0, num_bands=n, band_size=1, analyzer="word", ngram_range=ng, lowercase=lower, id_container=cont)
    c.desc = "word n-grams %s lowercase=%s hash_size=%d" % (ng, lower, hs)
    c.log(c.desc)
    pairs = []
    for _ in range(24):
        k = r.choice([ng[0], ng[0] + 1, ng[1], ng[1] + 1, 5, 8, 15, 30])
        w, v = pair_for(r, None, k)
        pairs.append((w, v))
    ids, docs = [], []
    for i, (w, v) in enumerate(pairs):
        ids.append(i)
        docs.append(" ".join(w))
    rep = r.choice([1, 5])
    if rep == 1:
        for i, d in zip(ids, docs):
            A.insert_document(i, d)
    else:
        # the same documents several times over, so that the batch takes the parallel path
        A.par_bulk_insert_docs([i + 1000 * k for k in range(rep) for i in ids], docs * rep)
    devs = []
    for i, (w, v) in enumerate(pairs):
        q = r.choice([" ", ", ", "\n", " - ", ",", "-", " ... ", "_"]).join(v)
        if lower and r.random() < 0.5:
            q = q.upper()
        fw = set(word_ngrams(" ".join(w), *ng))
        fv = set(word_ngrams(" ".join(v), *ng))
        if not fw or not fv:
            continue
        c.nontrivial = True
        j = len(fw & fv) / len(fw | fv)
        got = dict(A.query(q, return_similarity=True)).get(i, 0.0)
        if fw == fv:
            need(got == 1.0, "%s: documents with the same n-grams have similarity %s: %s / %s", c.desc, got, short(w), short(v))
        bound = 6.5 * math.sqrt(max(j * (1 - j), 0.002) / n) + 0.01
        need(got - j >= -bound, "%s: similarity %.3f, but the n-gram sets have Jaccard similarity %.3f: %s / %s", c.desc, got, j, short(w), short(v))
        devs.append(got - j)
        # at 8 and 16 bits single pairs may legitimately coincide more often: see the median below
        need(hs < 32 or got - j <= bound, "%s: similarity %.3f, but the n-gram sets have Jaccard similarity %.3f: %s / %s", c.desc, got, j, short(w), short(v))
        b = dict(A.par_bulk_query([q], return_similarity=True)[0]).get(i, 0.0)
        need(b == got, "%s: batch similarity %s, single %s", c.desc, b, got)
        c.count("n-gram set estimates compared")
        c.fp.append(round(j, 2))
    if len(devs) >= 8:
        med = sorted(devs)[len(devs) // 2]
        need(med <= 0.05, "%s: similarities exceed the Jaccard similarity of the n-gram sets by %.3f (median of %d)", c.desc, med, len(devs))
    # SimHash: same n-gram multisets at distance 0, mean distance follows the angle
    S = s.SimHashStringIndex(hash_size=128, num_blocks=4, hamming_distance=3, analyzer="word", ngram_range=ng, lowercase=lower)
    tot, cnt = 0.0, 0
    for _ in range(40):
        w, v = pair_for(r, None, r.choice([20, 30, 45]))
        if ng[1] >= 4 and r.random() < 0.5:
            v = list(w)
            v[0] = "x"
        from collections import Counter
        a, b = Counter(word_ngrams(" ".join(w), *ng)), Counter(word_ngrams(" ".join(v), *ng))
        d1, d2 = r.choice([" ", ",", " - ", "\t"]).join(w), r.choice([" ", "-", ", "]).join(v)
        if lower:
            d1, d2 = d1.lower(), d2.lower()
        x, y = inner(S, "tokenize_and_simhash").tokenize_and_simhash(d1), inner(S, "tokenize_and_simhash").tokenize_and_simhash(d2)
        d = bin(x ^ y).count("1")
        if a == b:
            need(d == 0, "%s: SimHash distance %d between documents with the same n-grams", c.desc, d)
            continue
        dot = sum(a[k] * b[k] for k in a)
        cs = dot / math.sqrt(sum(q * q for q in a.values()) * sum(q * q for q in b.values()))
        tot += d - 128 * math.acos(max(-1.0, min(1.0, cs))) / math.pi
        cnt += 1
    if cnt >= 15:
        need(abs(tot / cnt) <= 6.5 * 5.66 / math.sqrt(cnt) + 3.0, "%s: SimHash distances are off the angle between n-gram counts by %.2f bits on average over %d pairs", c.desc, tot / cnt, cnt)
        c.count("n-gram angle estimates", cnt)
    # each bit of a document's SimHash is the vote of its n-grams, repeated ones counted each time
    one = {k: s.SimHashStringIndex(hash_size=128, num_blocks=4, hamming_distance=3, analyzer="word", ngram_range=(k, k)) for k in range(ng[0], ng[1] + 1)}
    single = lambda g: inner(one[len(g)], "tokenize_and_simhash").tokenize_and_simhash(" ".join(g))
    for _ in range(6):
        w, _v = pair_for(r, None, r.choice([ng[0], ng[0] + 1, ng[1] + 1, 9, 14]))
        w = r.choice([w, _v])
        if len(w) > 40:
            w = w[:40]
        grams = [tuple(w[i:i + k]) for k in range(ng[0], ng[1] + 1) for i in range(len(w) - k + 1)]
        if not grams:
            continue
        memo = {}
        votes = [0] * 128
        for g in grams:
            x = memo.get(g)
            if x is None:
                x = memo[g] = single(g)
            for b in range(128):
                votes[b] += 1 if x >> b & 1 else -1
        x = inner(S, "tokenize_and_simhash").tokenize_and_simhash(" ".join(w))
        for b in range(128):
            need(votes[b] == 0 or (x >> b & 1) == (votes[b] > 0), "%s: bit %d of the SimHash of %s goes against the vote (%d) of its n-grams", c.desc, b, short(w), votes[b])
        c.count("n-gram votes compared", 128)
    # a document with too few words has no n-grams at all, like the empty one
    if ng[0] > 1:
        A.insert_document(4999, "")
        nothing = inner(S, "tokenize_and_simhash").tokenize_and_simhash("")
        for k in range(1, ng[0]):
            d = " ".join("u%x" % r.getrandbits(40) for _ in range(k))
            x = inner(S, "tokenize_and_simhash").tokenize_and_simhash(d)
            need(x == nothing, "%s: %d words have SimHash %#x, the empty document %#x", c.desc, k, x, nothing)
            got = dict(A.query(d, return_similarity=True)).get(4999)
            need(got == 1.0, "%s: similarity %s between %d words, which have no n-grams, and the empty document", c.desc, got, k)
            c.count("documents without n-grams compared")
        A.remove(4999)
    # what stands between the words does not matter
    T = Texts(c, 0, 2 * ng[1] + 6)
    for k in range(20):
        d = T.doc()
        if lower:
            d = d.lower()
        w = words(d)
        if len(w) < ng[0]:
            continue
        e = " ".join(w)
        x, y = inner(S, "tokenize_and_simhash").tokenize_and_simhash(d), inner(S, "tokenize_and_simhash").tokenize_and_simhash(e)
        need(x == y, "%s: SimHash of %s differs from that of the same words one space apart", c.desc, short(repr(d)))
        A.insert_document(5000 + k, e)
        got = dict(A.query(d, return_similarity=True)).get(5000 + k)
        need(got == 1.0, "%s: similarity %s between %s and the same words one space apart", c.desc, got, short(repr(d)))
        c.count("separators compared")


def in_threads(fn):
    """Several Python threads at once, each with an index of its own (an index stays in its thread)."""
    def case(c):
        import threading
        r = c.rng
        T = r.choice([2, 3, 4])
        subs = [Case("threads", "%d.%d" % (c.i, k)) for k in range(T)]
        errs = []

        def run(s):
            try:
                fn(s)
            except Violation as e:
                errs.append("in one of %d threads, %s: %s" % (T, s.desc, e))
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                errs.append("a call in one of %d threads failed, %s: %s: %s (%s)" % (T, s.desc, type(e).__name__, e, tb[-1].line if tb else ""))
        old = sys.getswitchinterval()
        sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
        try:
            ts = [threading.Thread(target=run, args=(s,), daemon=True) for s in subs]
            for th in ts:
                th.start()
            for th in ts:
                th.join()
        finally:
            sys.setswitchinterval(old)
        c.desc = "threads: " + "; ".join(s.desc for s in subs)
        need(not errs, "%s", errs[0] if errs else "")
        for s in subs:
            for k, v in s.stats.items():
                c.count(k, v)
            c.nontrivial |= s.nontrivial
            c.fp += s.fp
        c.count("histories in concurrent threads", T)
    return case


GROUPS = {
    "C22": [("histories", c22_case, 1600, 40000), ("arguments", c22_args, 200, 4000), ("scale", c22_case, 32, 800), ("threads", in_threads(c22_case), 60, 1500)],
    "C23": [("histories", c23_case, 1600, 40000), ("arguments", c23_args, 200, 4000), ("scale", c23_case, 32, 800), ("threads", in_threads(c23_case), 60, 1500)],
    "C24": [("minhash", c24_mh, 900, 25000), ("simhash", c24_sh, 700, 20000), ("word-ngrams", c24_words, 240, 6000), ("long", c24_long, 16, 400)],
}


def one(group, fn, i, viol, res):
    c = Case(group, i)
    msg = None
    try:
        fn(c)
    except Violation as e:
        msg = str(e)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        name = type(e).__name__
        inner = tb[-1].filename if tb else ""
        # raised by the extension (its frames are invisible) or inside the package: the code under
        # test failed; raised by a statement of this file itself: our mistake
        native = name == "PanicException" or "/gaoya/" in inner
        line = (tb[-1].line or "") if tb else ""
        if not native and re.search(r"\b(A|B|S|ix|x\.ix|self\.ix|m|s)\.\w+\(|inner\(", line) and not isinstance(e, (NameError, UnboundLocalError)):
            native = "tokenize_and" not in line or name != "AttributeError"
        if native:
            msg = "the call failed: %s: %s (%s)" % (name, e, line)
        else:
            res["harness_errors"].append("%s case %d: %s" % (group, i, traceback.format_exc()[-1500:]))
            return
    res["evaluations"] += 1
    if msg is not None:
        viol.append({"property": PROP, "seed": SEED, "tier": "thorough" if THOROUGH else "quick", "group": group, "case": i,
                     "message": msg, "case_description": c.desc, "trace_tail": c.trace})
        return
    for k, v in c.stats.items():
        res["stats"][k] = res["stats"].get(k, 0) + v
    if c.nontrivial:
        res["fps"].append(hash((group, tuple(c.fp))) & (2**62 - 1))
        if len(res["samples"]) < 2:
            res["samples"].append({"group": group, "case": i, "what": c.desc, "trace_head": c.trace[:8]})


def worker(w):
    viol, res = [], {"evaluations": 0, "stats": {}, "samples": [], "harness_errors": [], "fps": [], "capped": False}
    cur = {"v": None, "t": 0.0}

    import threading

    def dog():
        while True:
            time.sleep(1)
            if cur["v"] and time.time() - cur["t"] > 150:
                g, i = cur["v"]
                viol.append({"property": PROP, "seed": SEED, "group": g, "case": i, "tier": "thorough" if THOROUGH else "quick", "message": "a call has not returned after 150 s", "trace_tail": []})
                res["violations"] = viol
                json.dump(res, open("%s/part-%d.json" % (OUT, w), "w"))
                os._exit(1)
    threading.Thread(target=dog, daemon=True).start()
    for group, fn, q, t in GROUPS[PROP]:
        if GROUP and GROUP != group:
            continue
        n = t if THOROUGH else int(q * SCALE)
        for i in ([int(ONLY)] if ONLY is not None and w == 0 else [] if ONLY is not None else range(w, n, WORKERS)):
            if time.time() - START > CAP:
                res["capped"] = True
                break
            if len(viol) >= 2:
                break
            j = "%s/journal-%s-%d" % (SCRATCH, group, w)
            with open(j, "w") as f:
                f.write("%s %d\n" % (group, i))
            cur["t"], cur["v"] = time.time(), (group, i)
            one(group, fn, i, viol, res)
            cur["v"] = None
    for f in os.listdir(SCRATCH):
        if f.startswith("journal-") and f.endswith("-%d" % w):
            os.remove(os.path.join(SCRATCH, f))
    res["violations"] = viol
    json.dump(res, open("%s/part-%d.json" % (OUT, w), "w"))


def main():
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["RAYON_NUM_THREADS"] = "3"
    sys.stdout.flush()
    pids = {}
    for w in range(WORKERS):
        p = os.fork()
        if p == 0:
            try:
                worker(w)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
        pids[p] = w
    dead, hung, seen = [], [], {}
    while pids:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            time.sleep(0.2)
            # a call that never returns and holds the interpreter lock stops the worker's own
            # watchdog too: watch from here that every worker gets on to its next case
            for q, w in list(pids.items()):
                cur = []
                for g in GROUPS[PROP]:
                    try:
                        cur.append(open("%s/journal-%s-%d" % (SCRATCH, g[0], w)).read())
                    except OSError:
                        pass
                if cur and cur == seen.get(w, (None,))[0]:
                    if time.time() - seen[w][1] > 200:
                        os.kill(q, 9)
                        g, i = cur[-1].split()[:2]
                        hung.append((w, {"property": PROP, "seed": SEED, "group": g, "case": int(i), "tier": "thorough" if THOROUGH else "quick",
                                         "message": "a call has not returned after 200 s", "trace_tail": []}))
                        seen[w] = (cur, time.time())
                else:
                    seen[w] = (cur, time.time())
            continue
        w = pids.pop(p)
        if w in [h[0] for h in hung]:
            continue
        if os.WIFSIGNALED(st):
            dead.append((w, os.WTERMSIG(st)))
    tot = {"property": PROP, "evaluations": 0, "stats": {}, "samples": [], "violations": [], "harness_errors": [], "capped": False}
    fps = set()
    for w in range(WORKERS):
        try:
            r = json.load(open("%s/part-%d.json" % (OUT, w)))
        except (OSError, ValueError):
            if w not in [d[0] for d in dead] and w not in [h[0] for h in hung]:
                tot["harness_errors"].append("worker %d left no result" % w)
            continue
        tot["evaluations"] += r["evaluations"]
        tot["capped"] |= r["capped"]
        tot["samples"] += r["samples"][:1]
        tot["violations"] += r["violations"]
        tot["harness_errors"] += r["harness_errors"][:3]
        fps.update(r["fps"])
        for k, v in r["stats"].items():
            tot["stats"][k] = tot["stats"].get(k, 0) + v
    tot["distinct_nontrivial"] = len(fps)
    tot["wall_s"] = time.time() - START
    tot["violations"] += [h[1] for h in hung]
    tot["violations"] = tot["violations"][:5]
    for k, v in enumerate(tot["violations"]):
        p = "%s/replay-%s-%d.json" % (OUT, PROP, k)
        v["how_to_replay"] = "cd /verif && ./check.py %s --replay %s" % (PROP, p)
        json.dump(v, open(p, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (PROP, p))
        print("  %s case %s: %s" % (v["group"], v["case"], v["message"][:1500]))
    json.dump(tot, open("%s/result-%s.json" % (OUT, PROP), "w"))
    sys.stdout.flush()
    if dead and not tot["violations"]:
        s = dead[0][1]
        if s == 9:
            sys.exit(2)
        import signal
        signal.signal(s, signal.SIG_DFL)
        os.kill(os.getpid(), s)
    for h in tot["harness_errors"][:3]:
        print("HARNESS ERROR", h)
    sys.exit(1 if tot["violations"] else 2 if tot["harness_errors"] else 0)


if __name__ == "__main__":
    main()
