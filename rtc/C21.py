from util import *
from zounds.soundfile.audiostream import MemoryBuffer


def check_histories(t):
    for _ in t.times(1500, 12000):
        limit = t.rng.choice([0, 1, 3, 10, 64, 4096, None])
        total = t.rng.randint(0, 1000)
        mb = MemoryBuffer(total) if limit is None else MemoryBuffer(total, limit)
        written, r, ops, counter = b'', 0, [], 0
        for _ in range(t.rng.randint(1, 25)):
            op = t.rng.choice(['write', 'write', 'read', 'read', 'readinto', 'all', 'seek'])
            case = t.current = dict(limit=limit, ops=list(ops))
            if op == 'write':
                k = t.rng.choice([0, 1, 2, 7, 40, 40, 5000])
                data = bytes((counter + i) % 251 for i in range(k))
                counter += k
                ops.append('write %d' % k)
                n = mb.write(data)
                t.expect(n == k, 'write-count', case, n)
                written += data
                continue
            k = t.rng.choice([0, 1, 3, 8, 50, 50, 3000, 20000])
            if op == 'seek':
                ops.append('seek to where it is')
                t.equal(mb.tell(), r, 'stream-position', dict(limit=limit, ops=list(ops)))
                mb.seek(r, 0)
                continue
            if op == 'read':
                ops.append('read %d' % k)
                got = mb.read(k)
                want = written[r:r + k]
            elif op == 'all':
                ops.append('read -1')
                got = mb.read(-1)
                want = written[r:]
            else:
                ops.append('readinto %d' % k)
                buf = bytearray(b'\xff' * k)
                n = mb.readinto(memoryview(buf) if t.rng.random() < .5 else buf)
                got = bytes(buf[:n])
                want = written[r:r + k]
                t.expect(bytes(buf[n:]) == b'\xff' * (k - n), 'rest-of-buffer', case)
            r += len(want)
            t.equal(got, want, 'bytes', dict(limit=limit, ops=list(ops)))
            if t.rng.random() < .2:
                t.equal(mb.read(0), b'', 'empty-read', case)


def check_tell(t):
    for _ in t.times(300):
        total = t.rng.choice([0, 5, 100, 12345])
        mb = MemoryBuffer(total)
        k = t.rng.randint(0, 50)
        mb.write(bytes(k))
        c = t.rng.randint(0, k)
        mb.read(c)
        case = t.current = dict(total=total, written=k, read=c)
        t.expect(mb.tell() == c, 'position', case, mb.tell())
        mb.seek(0, 2)
        t.expect(mb.tell() == total, 'declared-length', case)
        t.expect(mb.tell() == k, 'true-position', case)
        mb.seek(c, 0)
        t.expect(mb.tell() == c and mb.tell() == c, 'position-after-seek', case)


def check_decoding(t):
    """the buffer under its real user: audio decoded from a stream cut anywhere equals audio decoded at once"""
    import io
    import numpy as np
    import soundfile
    for _ in t.times(4, 30):
        n = t.rng.randint(1000, 30000)
        raw = io.BytesIO()
        x = t.np_rng.uniform(-1, 1, n)
        soundfile.write(raw, x, 11025, format='WAV', subtype='PCM_16')
        data = raw.getvalue()
        mb = MemoryBuffer(len(data), t.rng.choice([1000, 10 ** 7]))
        parts = [len(data) // 3, len(data) // 3, len(data) - 2 * (len(data) // 3)]
        got, sf, i = [], None, 0
        case = t.current = dict(n=n)
        for p in parts:
            mb.write(data[i:i + p])
            i += p
            if sf is None:
                sf = soundfile.SoundFile(mb)
            got.append(sf.read(p // 4))
        got.append(sf.read(4096))
        while len(got[-1]):
            got.append(sf.read(4096))
        want = soundfile.read(io.BytesIO(data))[0]
        t.equal(np.concatenate(got), want, 'decoded', case)
