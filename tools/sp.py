"""Minimal SPOC file reader and writer for demonstrations (independent of the library)."""
import os, re, shutil, struct, subprocess, sys, tempfile, zlib

V = [int(re.search(r'M%sOR_VERSION\s*=?\s*(\d+)' % s, open('/repo/spoc/version.h').read()).group(1)) for s in ('AJ', 'IN')]
BIN = '/repo/_build/release/'


def rec(x=0., y=0., z=0., c=0, p=0, i=0, r=0, g=0, b=0, e=()):
    return (float(x), float(y), float(z), c, p, i, r, g, b, tuple(e))


def pack(recs, wkt='', compressed=False):
    ne = len(recs[0][9]) if recs else 0
    s = b'SPOC' + bytes(V) + struct.pack('<H', len(wkt)) + wkt.encode() + struct.pack('<BQB', ne, len(recs), compressed)
    if not compressed:
        return s + b''.join(struct.pack('<dddIIHHHH', *q[:9]) + struct.pack('<%dQ' % ne, *q[9]) for q in recs)
    for k, t in list(enumerate('dddIIHHHH')) + [(9 + j, 'Q') for j in range(ne)]:
        raw = struct.pack('<%d%s' % (len(recs), t), *[(q[k] if k < 9 else q[9][k - 9]) for q in recs])
        d = zlib.compress(raw) if any(raw) else b''
        s += struct.pack('<Q', len(d)) + d
    return s


def unpack(s):
    assert s[:4] == b'SPOC', s[:20]
    n = struct.unpack_from('<H', s, 6)[0]
    wkt = s[8:8 + n].decode()
    ne, tot, comp = struct.unpack_from('<BQB', s, 8 + n)
    o = 18 + n
    out = []
    if not comp:
        for k in range(tot):
            q = struct.unpack_from('<dddIIHHHH%dQ' % ne, s, o)
            o += 40 + 8 * ne
            out.append(q[:9] + (q[9:],))
    else:
        cols = []
        for t in 'dddIIHHHH' + 'Q' * ne:
            n = struct.unpack_from('<Q', s, o)[0]
            o += 8
            cols.append(struct.unpack('<%d%s' % (tot, t), zlib.decompress(s[o:o + n])) if n else (0,) * tot)
            o += n
        out = [tuple(c[k] for c in cols[:9]) + (tuple(c[k] for c in cols[9:]),) for k in range(tot)]
    assert o == len(s), 'trailing or missing bytes'
    return wkt, bool(comp), out


def run(app, *args, stdin=b'', ok=True):
    p = subprocess.run([BIN + 'spoc_' + app, *map(str, args)], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if ok and p.returncode:
        sys.exit('spoc_%s failed: %s' % (app, p.stderr.decode()))
    return p.stdout if ok else p


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)
