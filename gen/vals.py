"""Argument records of the specification (see Convert.tla) and format building blocks."""
import struct, random

def limbs(n):
    assert n >= 0
    r = []
    while n:
        n, d = divmod(n, 10000)
        r.append(d)
    return r

def U(s):                      # text as UTF-16 code units
    b = s.encode('utf-16-le', 'surrogatepass')
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]

def _int(t, v, **k):
    return dict(t=t, neg=v < 0, m=limbs(abs(v)), **k)
def Byte(v, **k): return _int('byte', v, **k)
def Short(v, **k): return _int('short', v, **k)
def Int(v, **k): return _int('int', v, **k)
def Long(v, **k): return _int('long', v, **k)
def BigInt(v, **k): return _int('bigint', v, **k)
def Bool(v, **k): return dict(t='bool', v=1 if v else 0, **k)
def Char(v, **k): return dict(t='char', v=v if isinstance(v, int) else ord(v), **k)
def BigDec(unscaled, scale, **k): return dict(t='bigdec', neg=unscaled < 0, m=limbs(abs(unscaled)), sc=scale, **k)
def Str(s, **k): return dict(t='str', s=s if isinstance(s, list) else U(s), **k)
def Null(**k): return dict(t='null', **k)
def Obj(s, **k): return dict(t='obj', s=U(s), **k)

def bits_rec(bits):
    neg = bits >> 63 == 1
    e = bits >> 52 & 0x7ff
    f = bits & ((1 << 52) - 1)
    if e == 0x7ff:
        return dict(k='nan' if f else 'inf', neg=neg and not f, c=[], q=0)
    if e == 0:
        return dict(k='fin', neg=neg, c=limbs(f), q=-1074)
    return dict(k='fin', neg=neg, c=limbs(f | 1 << 52), q=e - 1075)
def dbits(x): return struct.unpack('<Q', struct.pack('<d', x))[0]
def DoubleBits(b, **k): return dict(t='double', **bits_rec(b), **k)
def Double(x, **k): return DoubleBits(dbits(x), **k)
def Float(x, **k): return dict(t='float', **bits_rec(dbits(struct.unpack('<f', struct.pack('<f', x))[0])), **k)
def FloatBits(b, **k):
    return dict(t='float', **bits_rec(dbits(struct.unpack('<f', struct.pack('<I', b))[0])), **k)
def Num(l, i=None, d=None, cls='Num', **k):
    if i is None: i = ((l + 2**31) % 2**32) - 2**31
    if d is None: d = float(l)
    return dict(t='num', neg=l < 0, m=limbs(abs(l)), i=i, d=bits_rec(dbits(d)), cls=cls, **k)
def Date(ms, cls='Date', ns=0, **k): return dict(t='date', neg=ms < 0, m=limbs(abs(ms)), ns=ns, cls=cls, **k)
def Cal(ms, zone='UTC', **k): return dict(t='cal', neg=ms < 0, m=limbs(abs(ms)), ns=0, zone=zone, **k)
def Inst(es, ns=0, **k): return dict(t='inst', e='', neg=es < 0, m=limbs(abs(es)), ns=ns, off=0, **k)
def DT(t, y=2000, mo=1, d=1, h=0, mi=0, s=0, ns=0, off=0, **k):
    return dict(t=t, e='', y=y, mo=mo, d=d, h=h, mi=mi, s=s, ns=ns, off=off, **k)
def ByteArr(b, **k): return dict(t='arr', el='byte', b=list(b), **k)
def CharArr(s, **k): return dict(t='arr', el='char', s=U(s), **k)
def Arr(el, vals, **k): return dict(t='arr', el=el, vals=vals, **k)

FLAGS = '-#+ 0'
def flag_sets():
    out = []
    for m in range(32):
        out.append(''.join(c for i, c in enumerate(FLAGS) if m >> i & 1))
    return out
ALLFLAGS = flag_sets()
