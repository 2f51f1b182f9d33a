"""C12: the Hamming database returns the nearest stored codes, with their own data.

A code is an opaque byte string, its 64-bit words a function of it; an entry of the database is an opaque key whose code
and data are functions of the key. Invariant of the memory of a handle: it holds distinct stored entries, each with the
words of its own code. An append keeps it, catching up makes it hold every stored entry (loop contract, any number of
entries), a search ranks what the memory then holds."""
import z3
from engine.spec import *
from engine import core, bi

hd = load('zounds.index.hammingdb')
HammingDb = hd.HammingDb
stateful('HammingDb', 'Growable')
assumption('lmdb: a transaction reads what committed transactions have put; a cursor visits every entry once; entries counts them')
assumption('keys drawn at random (128 bits) are new')
assumption('finite sets: distinct entries of the database, as many as the database has, are all of them')
assumption('Growable over records: the contract of C14 (its elements are opaque there)')
assumption('a thread pool maps in order')
concrete = lambda x: not core.is_sym(x)
I = z3.IntSort()
KEYS = 2 ** 200
bi.SSet.always = True


class Code(object):
    """a byte string, given by its words"""

    def __init__(self, world, n, length):
        self.world, self.n, self.length = world, n, length

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return self.length

    def word(self, j):
        z = self.world.W(zint(self.n), zint(j))
        core.ctx().add(z3.And(z >= 0, z < 2 ** 64))
        return SInt(z)

    def __add__(self, o):
        if isinstance(o, Data):
            return Value(self, o)
        return NotImplemented

    def __getattr__(self, k):
        if k in dir(bytes):
            raise Unsupported('bytes.' + k)
        raise AttributeError(k)


class Data(object):
    def __init__(self, n):
        self.n = n

    @property
    def __class__(self):
        return bytes

    def __getattr__(self, k):
        if k in dir(bytes):
            raise Unsupported('bytes.' + k)
        raise AttributeError(k)


class Text(object):
    """text, measured in characters; encoded, a byte string of some length"""

    def __init__(self, encoded, length=None):
        self.encoded, self.length = encoded, length

    @property
    def __class__(self):
        return str

    def __len__(self):
        if self.length is None:
            raise Unsupported('the length of the text')
        return self.length

    def encode(self, *a):
        return self.encoded


class Value(object):
    """a code followed by data"""

    def __init__(self, code, data):
        self.code, self.data = code, data

    @property
    def __class__(self):
        return bytes

    def __getitem__(self, i):
        c = self.code
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Unsupported('other parts of a stored value')
        at_code = lambda x: x is not None and mnumpy.entails(zbool(Eq(x, c.length)))
        if (i.start is None or Eq(i.start, 0) is True) and at_code(i.stop):
            return c
        if at_code(i.start) and i.stop is None:
            return self.data
        return Code(c.world, fresh_int('part'), fresh_int('length', 0)) if i.stop is not None else Data(fresh_int('rest'))


class CodeBuffer(object):
    """a bytearray holding one code"""

    def __init__(self, b):
        self.length, self.code = getattr(b, 'length', None) or len(b), None

    def __len__(self):
        return self.length

    def __setitem__(self, i, v):
        if i != slice(None) or not isinstance(v, Code):
            raise Unsupported('assignment to part of a bytearray')
        if not mnumpy.entails(zbool(Eq(v.length, self.length))):
            raise Unsupported('a bytearray that changes its size')
        self.code = v

    def __frombuffer__(self, dtype):
        if dtype.name != 'uint64':
            raise Unsupported('words of another type')

        def word(ix):
            if self.code is None:
                raise Unsupported('the initial content of the buffer')
            return self.code.word(ix[0])
        return mnumpy.lazy((self.length // 8,), dtype, word)


class Np(object):
    """numpy, where it meets the opaque codes, and chunks of distances"""

    def __init__(self, world):
        self.world = world

    def __getattr__(self, k):
        return getattr(np, k)

    def frombuffer(self, b, dtype=float, **k):
        if isinstance(b, CodeBuffer):
            return b.__frombuffer__(mnumpy.dtype(dtype))
        return np.frombuffer(b, dtype=dtype, **k)

    def concatenate(self, xs, *a, **k):
        w = self.world
        s = bi.as_sseq(xs)
        if s is None or concrete(s.length) or w.query is None:
            return np.concatenate(xs, *a, **k)
        if core.fork(zint(s.length) <= 0):
            raise ValueError('need at least one array to concatenate')

        def piece(c):
            x = s.get(c)
            for y, start, n in w.dealt:
                if x is y:
                    return start, n
            raise Unsupported('concatenation of other than distances')
        m = w.memory
        c = fresh_int('chunk', 0, s.length)
        start, n = piece(c)
        prove(Eq(piece(0)[0], 0), 'the first chunk starts at the first code')
        last = Eq(c + 1, s.length)
        if fork(last):
            prove(Eq(start + n, m.size), 'the last chunk ends at the last code')
        else:
            prove(Eq(start + n, piece(c + 1)[0]), 'each chunk starts where the one before ends')
        return w.distances()


class Pool(object):
    def __init__(self, processes=None, *a):
        pass

    def map(self, f, xs, chunksize=None):
        s = bi.as_sseq(xs)
        return [f(x) for x in xs] if s is None else bi.SSeq(s.length, lambda k: f(s.get(k)), 'list')


class Transaction(object):
    def __init__(self, env, write=False, **k):
        if k:
            raise Unsupported('options of a transaction')
        self.env, self.write, self.done = env, write, []

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.env.put.extend(self.done)

    def get(self, key, default=None, db=None):
        return self.env.get(key, default, db)

    def put(self, key, value, dupdata=True, overwrite=True, append=False, db=None):
        if not self.write:
            raise RuntimeError('a read only transaction')
        if not overwrite or append:
            raise Unsupported('options of put')
        self.done.append((db, key, value))
        return True

    def stat(self, db):
        return {'entries': self.env.size(db)}

    def cursor(self, db=None):
        return Cursor(self.env, db)


class Cursor(object):
    def __init__(self, env, db):
        self.env, self.db = env, db

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return iter(self.iternext())

    def iternext(self, keys=True, values=True):
        e = self.env
        if self.db is not e.index or e.put_into(e.index) or not keys and not values:
            raise Unsupported('cursor')

        def one(i):
            k = e.key(i)
            return (k, e.value(k)) if keys and values else k if keys else e.value(k)
        return bi.SSeq(e.count, one, 'gen')


class Env(object):
    """what is stored: metadata, and count entries, the i-th (in the order of the cursor) of which has key(i)"""

    def __init__(self, world, count=0, meta=None):
        self.world, self.count, self.put, self.meta = world, count, [], meta or {}
        self.metadata, self.index = 'metadata', 'index'
        self.opened = None
        c = core.ctx()
        f = lambda n: z3.Function(c.fresh(n), I, I)
        self.K, self.at, self.C, self.D = f('key'), f('place'), f('code of'), f('data of')
        if not (concrete(count) and count == 0):
            forall_assume(count, lambda i: And(SInt(self.at(self.K(zint(i)))) == i, self.key(i) >= 0, self.key(i) < KEYS))

    def open_db(self, name, **k):
        if k:
            raise Unsupported('options of a database')
        return {b'metadata': self.metadata, b'index': self.index}[name]

    def reader_check(self): return 0
    def close(self): pass

    def begin(self, db=None, write=False, **k):
        if db is not None:
            raise Unsupported('the default database of a transaction')
        return Transaction(self, write, **k)

    def put_into(self, db):
        return [(k, v) for d, k, v in self.put if d == db]

    def key(self, i):
        return SInt(self.K(zint(i)))

    def has(self, k):
        p = SInt(self.at(zint(k)))
        return And(p >= 0, p < self.count, Eq(self.key(p), k))

    def code(self, k):
        return Code(self.world, SInt(self.C(zint(k))), self.world.size)

    def value(self, k):
        d = Data(SInt(self.D(zint(k))))
        d.key = k
        return Value(self.code(k), d)

    def get(self, key, default, db):
        if db == self.metadata:
            for k, v in reversed(self.put_into(db)):
                if k == key:
                    return v
            return self.meta.get(key, default)
        if db != self.index or not isinstance(key, SInt):
            raise Unsupported('reading another database')
        if self.put_into(db):
            raise Unsupported('reading after putting')
        # the results of a search are judged one by one (they are shown to be entries)
        return self.value(key) if self.world.judging or fork(self.has(key)) else default

    def size(self, db):
        if db != self.index:
            raise Unsupported('the size of another database')
        return self.count + len(self.put_into(db))


class Memory(object):
    """a table of records (contract of C14): size of them, the j-th with key m(j)"""

    def __init__(self, world, size, base=True):
        self.world, self.added, self.base = world, [], base
        c = core.ctx()
        self.m = z3.Function(c.fresh('kept'), I, I)
        self.where = z3.Function(c.fresh('where'), I, I)
        self.start = size

    @property
    def size(self):
        return self.start + len(self.added)

    def key0(self, j):
        return SInt(self.m(zint(j)))

    def has0(self, k):
        p = SInt(self.where(zint(k)))
        return And(p >= 0, p < self.start, Eq(self.key0(p), k))

    def holds_entries(self):
        """the invariant"""
        e = self.world.env
        forall_assume(self.start, lambda j: And(Eq(SInt(self.where(self.m(zint(j)))), j), e.has(self.key0(j)), self.key0(j) >= 0, self.key0(j) < KEYS))

    def holds_all(self, upto=None):
        e = self.world.env
        forall_assume(e.count if upto is None else upto, lambda i: self.has0(e.key(i)))

    def field(self, name, j, w=None):
        """of the j-th record"""
        r = self.world.env.code(self.key0(j)).word(w) if name == 'code' else self.key0(j)
        for k, one in enumerate(self.added):
            r = ite(Eq(j, self.start + k), one[name](w), r)
        return r

    # -- what Growable offers
    @property
    def logical_size(self):
        return self.size

    @property
    def logical_data(self):
        n, words = self.size, self.world.words
        one = concrete(words) and words == 1
        snap = list(self.added)
        frozen = Memory.__new__(Memory)
        frozen.__dict__.update(self.__dict__, added=snap)
        f = {'id': mnumpy.lazy((n,), mnumpy.dtype('S32'), lambda ix: frozen.field('id', ix[0])),
             'code': mnumpy.lazy((n,) if one else (n, words), mnumpy.dtype('uint64'), lambda ix: frozen.field('code', ix[0], 0 if one else ix[1]))}
        self.world.tables.append((f['code'], self))
        return np.recarray._from(f, (n,), ['id', 'code'])

    def append(self, item_):
        if isinstance(item_, mnumpy.record):
            ids, code, at = item_._ra._fields['id'], item_._ra._fields['code'], item_._i
        elif isinstance(item_, np.recarray) and mnumpy.entails(zbool(Eq(item_.shape[0], 1))):
            ids, code, at = item_._fields['id'], item_._fields['code'], 0
        else:
            raise Unsupported('appending other than one record')
        ids, code, n = ids._snapshot(), code._snapshot(), code.ndim
        self.added.append({'id': lambda w: ids((at,)), 'code': lambda w: code((at, w)[:n])})
        return self


class World(object):
    def __init__(self, words, count=0, meta=None):
        self.words = 1 if words == 'one word' else Int('words', 2)
        self.size = 8 * self.words
        c = core.ctx()
        self.W = z3.Function(c.fresh('word'), I, I, I)
        self.dist_ = z3.Function(c.fresh('distance'), I, I, I)
        self.env = Env(self, count, meta)
        self.dealt, self.tables, self.fresh, self.caught_up, self.queries = [], [], [], 0, []
        self.memory = self.query = None
        self.judging = False
        self.install()

    def install(self):
        w = self

        class Lmdb(object):
            @staticmethod
            def open(path, **k):
                w.env.opened = path
                return w.env
        hd.lmdb = Lmdb

        class Os(object):
            class path(object):
                exists = staticmethod(lambda p: True)
            makedirs = staticmethod(lambda p, **k: None)
            urandom = staticmethod(lambda n: ('random', n))
        hd.os = Os

        class Binascii(object):
            @staticmethod
            def hexlify(b):
                return w.new_key(b)
        hd.binascii = Binascii
        hd.bytearray = CodeBuffer
        hd.np = Np(w)
        hd.cpu_count = lambda: Int('cpus', 1)
        hd.ThreadPool = Pool
        hd.Growable = lambda data, position=0, growth_rate=1: w.table(position)

    def new_key(self, b):
        if b[0] != 'random' or b[1] < 16:
            raise Unsupported('keys with less entropy')
        k = fresh_int('new key', 0, KEYS)
        assume(Not(self.env.has(k)))
        if self.memory is not None:
            assume(Not(self.memory.has0(k)))
        self.fresh.append(k)
        return k

    def table(self, position):
        if position != 0:
            raise Unsupported('a table that is not empty')
        self.memory = Memory(self, 0)
        return self.memory

    def code(self, name, length=None):
        return Code(self, Int(name), self.size if length is None else length)

    def handle(self, writeonly=False, memory=True):
        """a handle in an arbitrary state"""
        count, self.env.count = self.env.count, 0
        put, meta = self.env.put, self.env.meta
        h = ok(HammingDb, 'path', code_size=self.size, writeonly=writeonly)
        self.env.put, self.env.meta, self.env.count = [], {b'codesize': None}, count
        state_is(h, '_codes', '_ids', 'code_size', 'env', 'index', 'writeonly')
        if not writeonly and memory:
            self.memory = Memory(self, Int('in memory', 0))
            self.memory.holds_entries()
            assume(self.memory.start <= self.env.count)
            h._codes = self.memory
            h._ids = bi.SSet(0, KEYS, self.memory.has0)
        return h

    def synced(self, h):
        """contract of catching up: the memory holds every entry (once)"""
        self.caught_up += 1
        self.memory = Memory(self, self.env.count)
        self.memory.holds_entries()
        self.memory.holds_all()
        h._codes = self.memory
        h._ids = bi.SSet(0, KEYS, self.memory.has0)

    def packed(self, a, b):
        """contract of the distance: of each row of b from a"""
        m = self.memory
        if not isinstance(a, mnumpy.ndarray) or not isinstance(b, mnumpy.ndarray) or a.ndim != 1 or b.ndim != 2:
            return Ellipsis
        if not self.caught_up:
            prove(Eq(m.size, self.env.count), 'what is searched is up to date')
            m.holds_all()
            self.caught_up = 1
        j = fresh_int('word', 0, self.words)
        prove(And(Eq(a.shape[0], self.words), Eq(b.shape[1], self.words)), 'codes of the same size are compared')
        prove(Eq(a._get((j,)), self.query.word(j)), 'the distance is from the query')
        n, start = b.shape[0], None
        for t, mem in self.tables:
            if t._buf is b._buf:
                start = 0 if b._map is None else b._map((0,) * 2)[0]
        if start is None:
            start = 0
        r = fresh_int('row', 0)
        if not mnumpy.entails(zbool(Implies(And(r < n, start >= 0, start + r < m.size), Eq(b._get((r, j)), m.field('code', start + r, j))))):
            raise Unsupported('which codes are compared')
        out = mnumpy.lazy((n,), mnumpy.dtype('uint64'), lambda ix: self.dist(m.key0(start + ix[0])))
        self.dealt.append((out, start, n))
        return out

    def distances(self):
        m = self.memory
        return mnumpy.lazy((m.size,), mnumpy.dtype('uint64'), lambda ix: self.dist(m.key0(ix[0])))

    def dist(self, key):
        d = SInt(self.dist_(zint(self.query.n), self.env.C(zint(key))))
        core.ctx().add(zint(d) >= 0)
        return d


WORDS = ['one word', 'several words']


# ------------------------------------------------------------------ appending

@spec('appending', each=[(w, k, mode) for w in WORDS for k in ('bytes', 'text') for mode in ('in memory', 'write only')])
def append(words, kind, mode):
    w = World(words, Int('stored', 0))
    h = w.handle(mode == 'write only')
    code, data = w.code('code'), Data(Int('data'))
    was = w.memory
    before = len_(h)
    if kind == 'bytes':
        ok(h.append, code, data)
    else:
        ok(h.append, Text(code, Int('characters', 0)), Text(data))
    e = w.env
    prove(Eq(len_(h), before + 1), 'one more entry')
    got = e.put_into(e.index)
    prove(len(got) == 1 and len(e.put) == 1, 'one entry is stored')
    if len(got) != 1:
        return
    key, value = got[0]
    prove(len(w.fresh) == 1 and key is w.fresh[0], 'under a new key')
    stored = isinstance(value, Value)
    prove(stored and value.code is code and value.data is data, 'the code, then the data')
    if mode == 'write only':
        prove(h._codes is None, 'nothing is kept in memory')
        return
    m = h._codes
    prove(m is was and len(m.added) == 1, 'one record is added to the memory')
    if m is not was or len(m.added) != 1:
        return
    j = fresh_int('word', 0, w.words)
    prove(Eq(m.added[0]['id'](None), key), 'with the key of the entry')
    prove(Eq(m.added[0]['code'](j), code.word(j)), 'and its code')
    k = fresh_int('a key', 0, KEYS)
    prove(Iff(bi.truth(SBool(zbool(And(k >= h._ids.lo, k < h._ids.hi, h._ids.has(k))))), Or(was.has0(k), Eq(k, key))), 'the keys in memory are known')


@spec('codes of another size', each=[(w, k, mode) for w in WORDS for k in ('bytes', 'text') for mode in ('in memory', 'write only')])
def sizes(words, kind, mode):
    w = World(words, Int('stored', 0))
    h = w.handle(mode == 'write only')
    n = Int('length', 0)
    assume(Not(Eq(n, w.size)))
    code = w.code('code', n)
    rejects(lambda: h.append(code if kind == 'bytes' else Text(code, Int('characters', 0)), Data(Int('data'))), ValueError)
    prove(not w.env.put, 'nothing is stored')
    if mode == 'in memory':
        prove(not w.memory.added, 'nor kept in memory')
        if kind == 'bytes':
            w.query = code
            rejects(lambda: len_(bi.as_sseq(h.search(code, Int('n', 0)))), ValueError)


# ---------------------------------------------------------------- catching up

def catching_up(w, h):
    e = w.env

    def state():
        m, ids = h._codes, h._ids
        if not isinstance(m, Memory) or not isinstance(ids, bi.SSet):
            raise Unsupported('the representation of the memory')
        return m, (lambda k: And(k >= ids.lo, k < ids.hi, ids.has(k)))

    def inv(st):
        m, has = state()
        j, i, k, o = fresh_int('record', 0), fresh_int('entry', 0), fresh_int('known', 0, KEYS), fresh_int('other', 0)
        word = fresh_int('word', 0, w.words)
        key = m.field('id', j)
        places = [m.size - 1 - t for t in range(len(m.added))] + [SInt(m.where(zint(k)))]
        return [Implies(j < m.size, And(e.has(key), has(key), key >= 0, key < KEYS)),
                Implies(j < m.size, Eq(m.field('code', j, word), e.code(key).word(word))),
                Implies(And(j < m.size, o < m.size, Eq(m.field('id', o), key)), Eq(o, j)),
                Implies(has(k), Or(*[And(p >= 0, p < m.size, Eq(m.field('id', p), k)) for p in places])),
                Implies(And(i < st._i, i < e.count), has(e.key(i)))]

    def objs(st):
        m = w.memory = Memory(w, Int('in memory now', 0))
        m.holds_entries()
        m.holds_all(st._i)
        h._codes = m
        h._ids = bi.SSet(0, KEYS, m.has0)
    core.R.contracts[('zounds.index.hammingdb.HammingDb._catch_up_on_in_memory_store', 0)] = bi.LoopContract(inv, objs=objs)
    return inv


@spec('catching up', each=[(w, s) for w in WORDS for s in ('some in memory', 'nothing in memory')], seconds=100)
def catch_up(words, state):
    w = World(words, Int('stored', 0))
    h = w.handle()
    if state == 'nothing in memory':
        h._codes, w.memory = None, None
        h._ids = bi.SSet(0, 0, lambda k: False)
    inv = catching_up(w, h)
    ok(h._catch_up_on_in_memory_store)
    class St(object):
        _i = w.env.count
    for c, what in zip(inv(St), ('the memory holds stored entries', 'with their own codes', 'each once', 'and knows them', 'every stored entry is held')):
        prove(c, what)


# -------------------------------------------------------------------- opening

@spec('a new database', each=WORDS)
def new(words):
    w = World(words)
    h = ok(HammingDb, 'path', code_size=w.size)
    prove(Eq(h.code_size, w.size), 'the code size is the one asked for')
    prove(w.env.opened == 'path', 'at the path given')
    prove(Eq(len_(h), 0), 'empty')
    again = ok(HammingDb, 'path', code_size=None)
    prove(Eq(again.code_size, w.size), 'a reopened database keeps its code size')
    same_ = ok(HammingDb, 'path', code_size=w.size)
    prove(Eq(same_.code_size, w.size), 'asking for the same size')
    n = Int('another size', 1)
    assume(Not(Eq(n, w.size)))
    rejects(lambda: HammingDb('path', code_size=n), ValueError)


@spec('a code size is whole words')
def whole_words():
    w = World('one word')
    n = Int('size', 1)
    assume(Not(Eq(n % 8, 0)))
    rejects(lambda: HammingDb('path', code_size=n), ValueError)
    rejects(lambda: HammingDb('path', code_size=None), ValueError)
    prove(not w.env.put, 'and nothing is stored')


@spec('a reopened database', each=[(w, mode) for w in WORDS for mode in ('in memory', 'write only')])
def reopened(words, mode):
    w = World(words)
    ok(HammingDb, 'path', code_size=w.size)
    e = w.env
    w.env = Env(w, Int('stored', 0))
    w.env.put = e.put
    w.memory = None

    def catch(self):
        prove(self._codes is None and not isinstance(self._ids, bi.SSet) or self._codes is None and Eq(self._ids.lo, self._ids.hi), 'a new handle starts with nothing in memory')
        if mode == 'in memory':
            w.synced(self)
        else:
            w.caught_up += 1
    by_contract(HammingDb, '_catch_up_on_in_memory_store', catch, 'catching up')
    h = ok(HammingDb, 'path', code_size=None, writeonly=mode == 'write only')
    prove(Eq(len_(h), w.env.count), 'its entries are counted')
    prove(w.caught_up == 1 or mode == 'write only', 'the entries are read')


# ------------------------------------------------------------------ searching

@spec('a write only handle refuses to search')
def refuses():
    w = World('several words', Int('stored', 0))
    h = w.handle(True)
    rejects(lambda: len_(bi.as_sseq(h.search(w.code('query'), Int('n', 0)))), RuntimeError)


def searching(words, multi, sort):
    w = World(words, Int('stored', 0))
    h = w.handle()
    by_contract(HammingDb, '_catch_up_on_in_memory_store', lambda self: w.synced(self) if self is h else Ellipsis, 'catching up')
    by_contract(hd, 'packed_hamming_distance', w.packed, 'C13')
    w.query = w.code('query')
    n = Int('n', 0)
    rs = bi.as_sseq(ok(h.search, w.query, n, multi, sort=sort))
    prove(rs is not None, 'results')
    return w, n, rs


ASPECTS = ['distinct', 'nearest', 'sorted']


@spec('search', each=[(w, multi, sort, a) for w in WORDS for multi in (False, True) for sort in (False, True) for a in ASPECTS if sort or a != 'sorted'], seconds=90)
def search(words, multi, sort, aspect):
    w, n, rs = searching(words, multi, sort)
    e, m, got = w.env, w.memory, len_(rs)
    w.judging = True
    prove(Eq(got, ite(n < e.count, n, e.count)), 'as many as asked for, or all')
    r, q = fresh_int('r', 0), fresh_int('q', 0)
    assume(And(r < got, q < got))

    def result(t):
        d = rs.get(t)
        if not isinstance(d, Data) or not hasattr(d, 'key'):
            prove(False, 'a result is the data of an entry')
            raise core.PathDone('no entry')
        return d.key
    a, b = result(r), result(q)
    if aspect == 'distinct':
        prove(e.has(a), 'each result is the data of an entry')
        prove(Implies(Eq(a, b), Eq(r, q)), 'no entry twice')
    elif aspect == 'sorted':
        prove(Implies(r <= q, w.dist(a) <= w.dist(b)), 'nearest first')
    else:
        i = fresh_int('entry', 0)
        assume(i < e.count)
        p = SInt(m.where(zint(e.key(i))))
        found = False
        for t in reversed(positions(p, back=True)):
            found = Or(found, And(t >= 0, t < got, Eq(result(t), e.key(i))))
            if mnumpy.entails(zbool(Or(w.dist(a) <= w.dist(e.key(i)), found))):
                break
        prove(Or(w.dist(a) <= w.dist(e.key(i)), found), 'no entry left out is nearer')
    cover('found')
