#!/usr/bin/env python3
"""Self-test of the executor: every operation below runs symbolically on short
arbitrary texts, bytes and integers; each explored path is re-run natively and
must give the predicted result.  Prints faults, disagreements and operations that
are not modelled (values enumerated).

  python3-vt tools/selftest.py [substring]
"""
import multiprocessing as mp
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TEXT = [
    # name, expression over s (text), k (small int)
    "s.upper()", "s.lower()", "s.strip()", "s.lstrip('0')", "s.rstrip('F')", "s.strip('0F')", "s.zfill(k)", "s.rjust(k, '0')", "s.ljust(k, ' ')", "s.center(k)",
    "s.isdigit()", "s.isnumeric()", "s.isdecimal()", "s.isascii()", "s.isalpha()", "s.isalnum()", "s.isspace()", "s.isupper()", "s.islower()", "s.isprintable()", "s.isidentifier()",
    "s.startswith('0')", "s.endswith(('F', 'f'))", "s.find('a')", "s.index('a')", "s.count('0')", "s.replace('0', '')", "s.replace('a', 'bb')", "s.split('0')", "s.partition('0')", "s.rpartition('0')",
    "s.split()", "s.splitlines()", "s.join(['x', 'y'])", "','.join(s)", "list(s)", "tuple(s)", "sorted(s)", "''.join(reversed(s))", "s[::-1]", "s[1:]", "s[:-1]", "s[k:]", "s[:k]", "s[0:k:2]", "s[-k:]",
    "s[0]", "s[-1]", "len(s)", "len(s) % 2", "len(s) & 1", "bool(s)", "not s", "s == 'abc'", "s != s.upper()", "s < 'abc'", "s >= 'A'", "'a' in s", "s in 'abc'", "s in ('0', '1')", "s in {'0': 1}",
    "s + 'x'", "'x' + s", "s * 2", "s * k", "2 * s", "'0' * k + s", "repr(s)", "str(s)", "ascii(s)", "format(s)", "'{:>5}'.format(s)", "'{:<5s}|'.format(s)", "'%s|%5s' % (s, s)", "f'{s}{k}'", "f'{s!r:>6}'", "f'{k:03d}{s:^5}'",
    "s.encode('ascii')", "s.encode('latin-1')", "s.encode('cp500')", "s.encode('utf-8')", "s.encode()", "s.encode('ascii', 'ignore')", "s.encode('ascii', 'replace')", "s.encode('ascii', 'backslashreplace')", "s.encode('ascii', 'xmlcharrefreplace')",
    "s.encode('utf-8', 'surrogatepass')", "s.encode('ascii', 'surrogateescape')", "s.encode('utf-8', 'surrogateescape')", "bytes(s, 'latin-1')", "bytearray(s, 'ascii')", "codecs.encode(s, 'latin-1')",
    "int(s)", "int(s, 16)", "int(s, 10)", "int('0' + s)", "int(s or '0')", "bytes.fromhex(s)", "bytearray.fromhex(s)", "binascii.a2b_hex(s)", "binascii.unhexlify(s)", "[ord(c) for c in s]", "ord(s)", "max(s)", "min(s)",
    "any(c == '0' for c in s)", "all(c in '0123456789' for c in s)", "sum(c == 'a' for c in s)", "[i for i, c in enumerate(s) if c.isdigit()]", "{c: 1 for c in s}", "set(s) == {'0'}", "dict.fromkeys(s)", "set(s) <= set('0123456789abcdef')", "set(s).issubset('01')", "not set(s) - set('01')",
    "len(set(s))", "frozenset(s) == frozenset('0')", "list(map(ord, s))", "''.join(map(str.upper, s))", "list(zip(s, s[1:]))", "[s[i:i + 2] for i in range(0, len(s), 2)]", "list(filter(str.isdigit, s))", "s.translate({48: 'x'})", "s.casefold()", "s.swapcase()", "s.title()", "s.capitalize()",
    "s.removeprefix('0')", "s.removesuffix('F')", "re.fullmatch('[0-9]+', s) is not None", "bool(re.match(r'[0-9A-Fa-f]*$', s))", "s.expandtabs()", "functools.reduce(lambda a, c: a * 10 + ord(c), s, 0)", "next((c for c in s if c != '0'), None)", "hash(s) == hash(s)",
    "type(s) is str", "isinstance(s, (bytes, str))", "isinstance(s, int)", "s is None", "next(iter(s), '')", "''.join(c for c in s if c not in ' -')", "s if len(s) % 2 == 0 else '0' + s", "operator.itemgetter(0)(s)", "collections.Counter(s)['0']", "s.__class__.__name__", "s.__len__()", "str.upper(s)", "'{0}{1:>3}'.format(s, k)", "'{a!r}'.format(a=s)",
    "io.StringIO(s).read()", "s.encode('cp037')", "s.encode('cp1252')", "s.isdigit() and int(s) <= 50", "s.find('0', 1)", "s.rfind('0')", "s.rindex('0')", "s[len(s) // 2:]", "s[:2] + s[2:]", "[*s]", "(lambda a, *b: a)(*s)", "s > 'b' or s < 'a'", "'a' <= s <= 'f'", "max(len(s), k)", "min(k, len(s), 2)", "abs(len(s) - k)", "divmod(len(s), 2)", "len(s) // 2", "-(-len(s) // 2)", "(len(s) + 1) >> 1", "len(s) ^ 1", "s.upper() == s", "s.encode('ascii').hex()", "all(map(str.isdigit, s))", "string.hexdigits.find(s[:1])", "s[:1] in string.digits",
]
BYTES = [
    "b.hex()", "b.hex().upper()", "b.hex(' ')", "b.decode('ascii')", "b.decode('latin-1')", "b.decode('cp500')", "b.decode('utf-8')", "b.decode()", "str(b, 'ascii')", "b.decode('ascii', 'ignore')", "b.decode('ascii', 'replace')", "b.decode('ascii', 'surrogateescape')", "b.decode('ascii', 'backslashreplace')",
    "b.decode('utf-8', 'surrogateescape')", "b.decode('utf-8', 'ignore')", "codecs.decode(b, 'latin-1')", "int.from_bytes(b, 'big')", "int.from_bytes(b, 'little')", "int.from_bytes(b, 'big', signed=True)", "int.from_bytes(b, byteorder='big', signed=False)", "binascii.hexlify(b)", "binascii.b2a_hex(b).decode()", "int(b.hex(), 16) if b else 0", "int(b.hex(), 10)", "int(b.hex() or '0')",
    "b[0]", "b[-1]", "b[1:]", "b[:k]", "b[k:]", "b[k:k + 1]", "b[::-1]", "b[k]", "len(b)", "bool(b)", "b == b'abc'", "b != b'\\0'", "b < b'z'", "b + b'x'", "b'x' + b", "b * 2", "b.startswith(b'0')", "b.endswith(b'x')", "b.find(b'a')", "b.count(0)", "0 in b", "b'0' in b", "b.upper()", "b.lower()", "b.isdigit()", "b.isalnum()", "b.isascii()", "b.strip(b'0')", "b.lstrip(b'\\0')", "b.rstrip(b' ')", "b.replace(b'0', b'')", "b.zfill(k)", "b.rjust(k, b'0')", "b.ljust(k, b'\\0')", "b.split(b'0')", "b.join([b'x', b'y'])",
    "list(b)", "tuple(b)", "sum(b)", "max(b)", "sorted(b)", "bytes(b)", "bytearray(b)", "bytes(memoryview(b))", "memoryview(b)[1:].tobytes()", "bytes(reversed(b))", "[x >> 4 for x in b]", "[x & 15 for x in b]", "[(x >> (7 - i)) & 1 for x in b for i in range(8)]", "[bin(x) for x in b]", "[format(x, '08b') for x in b]", "['%02X' % x for x in b]", "''.join(f'{x:02x}' for x in b)", "''.join(map('{:02X}'.format, b))", "''.join(chr(x) for x in b)", "all(x < 128 for x in b)", "any(x & 0x80 for x in b)", "all(48 <= x <= 57 for x in b)", "bytes(x ^ 0xff for x in b)", "bytes([x & 0x7f for x in b])", "[i for i, x in enumerate(b, 1) if x]", "{i: x for i, x in enumerate(b)}", "repr(b)", "repr(bytearray(b))", "str(b)", "f'{b!r}'", "'%r' % b",
    "struct.unpack('>H', b[:2])", "struct.unpack('>B', b[:1])[0]", "struct.pack('>H', b[0])", "functools.reduce(lambda a, x: a << 8 | x, b, 0)", "functools.reduce(lambda a, x: a * 256 + x, b, 0)", "(b[0] << 8) + b[1]", "b[0] * 10 + b[1]", "b[0] // 16 * 10 + b[0] % 16", "b[0] > 9 or b[1] > 9", "hex(b[0])", "'%d' % b[0]", "str(b[0]).encode()", "str(b[0]).zfill(4)", "'{:0{w}d}'.format(b[0], w=3)", "f'{b[0]:0{k}d}'", "b[0].to_bytes(2, 'big')", "b[0].to_bytes(1, 'little')", "(b[0] * 300).to_bytes(2, 'big')", "b[0].bit_length()", "bytes([b[0]])", "bytes((b[0], b[1]))", "bytes(b[0] % 4)", "bytearray(b[0] % 3) + b", "b.hex()[::2]", "b.decode('latin-1').encode('cp500')", "b.translate(bytes(range(256)))", "b[0] == 48", "b[0] in b'0123'", "b[0] in range(48, 58)", "b[0] in (1, 2, 3)", "b[0] in {1, 2}", "divmod(b[0], 10)", "-b[0]", "~b[0] & 255", "b[0] ** 2", "b[0] / 2 > 20", "round(b[0] / 2)", "b[0] and b[1]", "b[0] or 7", "1 << (b[0] & 7)", "b[0] if b[0] > b[1] else b[1]", "max(b[0], b[1], 10)", "min(b)", "range(b[0] % 5)[-1:]", "list(range(b[0] % 5))", "[0] * (b[0] % 3)", "'x' * (b[0] % 4)", "b.removeprefix(b'0')", "b.partition(b'0')", "isinstance(b, (bytes, bytearray))", "type(b).__name__", "b.index(b'a')", "b'%02x' % b[0]", "io.BytesIO(b).read(2)", "b.tobytes() if hasattr(b, 'tobytes') else b", "int(b)", "int(b, 16)", "len(b.hex()) == 2 * len(b)", "list(itertools.compress(range(8), [b[0] >> i & 1 for i in range(8)]))", "list(itertools.chain(b, b))", "[x for x in range(1, 9) if b[0] & (256 >> x)]", "{x for x in range(1, 9) if b[0] & (256 >> x)}", "bin(b[0]).count('1')", "format(int.from_bytes(b, 'big'), '024b')", "[j for j, c in enumerate(format(b[0], '08b')) if c == '1']", "b[0].bit_count()", "int(format(b[0], 'b'), 2)", "str(b[0])[:1]", "b[0] // 100 * 100", "bool(b[0] & 0x80)", "(b[0] & 0xf0) >> 4", "b[0] | 1 << 7", "b[0] ^ 255",
]
DICT = [
    # over d: {s: v, "2": "x", "11": "y"} with a symbolic key
    "d.get('2')", "d.get('3', 'no')", "'2' in d", "s in d", "d[s]", "d.get(s)", "list(d)", "list(d.items())", "sorted(d)", "sorted(d.keys())", "len(d)", "{k: v for k, v in d.items() if k != '2'}", "dict(d)", "d.copy()", "{**d, 'z': '1'}", "d | {'2': 'n'}", "d.pop('2')", "d.pop('7', None)", "d.setdefault('2', 'n')", "d.setdefault('7', 'n')", "[k for k in d if k.isdigit()]", "[int(k) for k in d if k.isdigit() and len(k) < 3 and k.isascii()]", "sorted(int(k) for k in d if k in ('1', '2', '11'))",
    "d == {'2': 'x'}", "d.keys() == {'2', '11'}", "set(d)", "set(d) - {'2'}", "d.keys() - {'2'}", "d.keys() & {'2', '5'}", "list(d.values())", "max(d)", "any(k == '2' for k in d)", "not d", "next(iter(d))", "list(reversed(d))", "dict(sorted(d.items()))", "dict(zip(d, 'abc'))", "tuple(d)", "isinstance(d, dict)", "d.__contains__('2')", "d.items() >= {('2', 'x')}", "min(d, key=len)", "{v: k for k, v in d.items()}", "d.update({'2': 'q'}) or d", "d.pop(s)", "[d.pop(k) for k in list(d)] and d", "collections.OrderedDict(d)", "d.clear() or d", "list(d | {s: 'n'})", "{k: d[k] for k in sorted(d)}", "sum(len(v) for v in d.values())", "list(filter(None, d))", "list(map(len, d))", "d.fromkeys(['a'])", "len(d.keys() | {'a'})",
]
STMT = {
    "symset": "a = set(d)\na.discard('2')\na.add(s)\nr = (sorted(a), len(a), s in a, a - {'11'}, a & {'11', 'q'}, a | {'z'}, a ^ {'11'}, a <= set(d), a == set(d), a.issubset(d), a.isdisjoint({'5'}), {'2', '11'} >= a, {'11'} & a, {'11', 'z'} - a, 'zz' in a)",
    "symset2": "h = {'2', '11'}\nr = (s in h, h - {s}, h | {s}, {s, '2'} == {'2'}, frozenset([s, '2']) == frozenset(['2']), h.difference(d), h.issuperset(d), set(d).difference(h), set(s) - set('01'), len(set(s)))",
    "symdict2": "e = {**d, s: 'q'}\nf = {k: v for k, v in d.items() if k.isdigit()}\ng = dict(f)\ng.pop(s, None)\nr = (e, f, g, e == d, list(e), d.keys() - {'2'}, d.keys() & {'2', 'x'}, d.keys() | {'x'}, d.keys() <= {'2'}, set(f) == f.keys(), len(e), d.items() >= {('2', 'x')}, list(reversed(d)), {'2': 1}.get(s), {'2': 1}.setdefault('2', 3))",
    "symgroup": "e = {}\nfor c in s: e.setdefault(c, []).append(k)\nr = e",
    "symcount": "e = {}\nfor c in s: e[c] = e.get(c, 0) + 1\nr = sorted(e.items())",
    "bio": "f = io.BytesIO(b)\nx = f.read(1)\ny = f.read(k)\nr = (x, y, f.tell(), f.read(), f.read(1), f.getvalue(), f.seek(1), f.read(1))",
    "bio2": "f = io.BytesIO()\nf.write(b)\nf.write(b'xy')\np = f.tell()\nf.seek(1)\nf.write(b'!')\nr = (p, f.getvalue(), f.read(), len(f.getbuffer()))",
    "sio2": "f = io.StringIO(s)\nr = [f.read(1), f.tell(), f.read()]\nf.seek(0)\nr.append(f.readline())\nf.seek(0)\nf.write('z')\nr.append(f.getvalue())",
    "rx1": "m = re.match(r'(\\d+)([a-f]?)(.*)$', s)\nr = None if m is None else (m.groups(), m.group(0), m.span(1), m.end())",
    "rx2": "p = re.compile('[0-9A-F]*', re.I)\nr = (p.fullmatch(s) is None, [m.group() for m in re.finditer('[0-9]+|x', s)], re.search(r'\\s', s) is not None, re.findall('(a|b)c?', s), bool(re.fullmatch(r'\\w\\W', s)), bool(re.match('^[^0-9]+$', s)), bool(re.fullmatch(b'[\\x00-\\x7f]*', b)))",
    "st1": "r = (struct.pack('>BH', b[0], b[1]), struct.unpack('<BB', b), struct.pack('>I', k), struct.unpack_from('>B', b, 1), struct.Struct('!H').unpack(b), struct.pack('2s', b), struct.pack('4s', b))",
    "st2": "r = struct.pack('>B', b[0] * 2)",
    "binx": "r = (bin(b[0]), format(b[0], '08b'), f'{b[1]:b}', '{:016b}'.format(int.from_bytes(b, 'big')), oct(b[0]), f'{b[0]:#x}', bin(int.from_bytes(b, 'big'))[2:].zfill(16))",
    "bits64": "m = int.from_bytes(b, 'big')\nr = [i for i in range(1, 17) if m & (1 << (16 - i))]",
    "splitws": "r = (s.split(), s.split(None, 1), s.rsplit('0', 1), s.rpartition('a'), s.splitlines(), s.rfind('0'), s.swapcase(), s.capitalize(), s.isupper(), s.islower())",
    "revs": "r = (''.join(reversed(s)), bytes(reversed(b)), list(reversed(b)), s[::-1], b.hex(' '), b.hex('-', 2), repr(bytearray(b)))",
    "rx3": "r = bool(re.fullmatch(b'[\\x00-\\x7f]*', b))",
    "rx4": "r = re.compile('[0-9A-F]*', re.I).fullmatch(s) is None",
    "rx5": "r = [m.group() for m in re.finditer('[0-9]+|x', s)]",
    "rx6": "r = re.findall('(a|b)c?', s)",
    "rev1": "r = ''.join(reversed(s))",
    "rev2": "r = bytes(reversed(b)), list(reversed(b))",
    "rev3": "r = b.hex(' '), b.hex('-', 2), repr(bytearray(b))",
    "iterlen": "it = iter(b)\na = next(it)\nr = (a, list(it), next(it, None))",
    "tuplekey": "e = {}\ne[(s, 1)] = 'x'\nr = ((s, 1) in e, e.get(('ab', 1)), e)",
    "noneset": "a = set()\nfor k2 in d:\n    if k2.isdigit(): a.add(int(k2))\nr = sorted(a)",
    "delwhile": "for k2 in list(d):\n    if not k2.isdigit(): del d[k2]\nr = d",
    "diter": "r = 0\ntry:\n    for k2 in d:\n        d[k2 + 'x'] = 1\nexcept RuntimeError as e:\n    r = str(e)",
    "del": "del d['2']\nr = d",
    "delsym": "del d[s]\nr = d",
    "set": "d[s] = 'n'\nr = d",
    "setnew": "e = {}\nfor k in d: e[k] = len(k)\nr = e",
    "popitem": "r = d.popitem()\nr = (r, d)",
    "try": "try:\n    r = int(s)\nexcept ValueError:\n    r = 'bad'",
    "tryelse": "try:\n    s.encode('ascii')\nexcept UnicodeEncodeError as e:\n    r = type(e).__name__\nelse:\n    r = 'ok'\nfinally:\n    s2 = s",
    "while": "r = 0\nt = s\nwhile t and t[0] == '0':\n    t = t[1:]\n    r += 1",
    "forelse": "for c in s:\n    if c == 'a':\n        r = 'found'\n        break\nelse:\n    r = 'none'",
    "walrus": "r = m if (m := len(s)) > 2 else None",
    "aug": "r = bytearray()\nfor x in b:\n    r += bytes([x])\nr += b'z'",
    "bitmap": "m = bytearray(8)\nfor x in b:\n    x = x % 64\n    m[x // 8] |= 128 >> x % 8\nr = m",
    "bitint": "m = 0\nfor x in b:\n    m |= 1 << (63 - x % 64)\nr = m.to_bytes(8, 'big')",
    "bitscan": "r = []\nm = int.from_bytes(b, 'big')\nfor i in range(24):\n    if m >> (23 - i) & 1:\n        r.append(i + 1)",
    "bitscan2": "r = []\nm = int.from_bytes(b, 'big')\nwhile m:\n    low = m & -m\n    r.append(low.bit_length())\n    m ^= low",
    "octets": "r = 0\nfor o in b:\n    r = (r << 8) | o\nr = (r, r.to_bytes(8, 'big'), [i for i in range(16) if r >> i & 1])",
    "nibbles": "r = 0\nfor o in b:\n    if o >> 4 > 9 or o & 15 > 9:\n        r = -1\n        break\n    r = r * 100 + (o >> 4) * 10 + (o & 15)",
    "packed": "r = bytes([(x & 15) << 4 | y >> 4 for x, y in zip(b, b[::-1])])",
    "xorglue": "r = [(x << 3 ^ 5, x << 3 ^ 9, x << 3 | 8, x << 2 << 2 | 15, x << 4 | x << 2 | 1) for x in b]",
    "hasattr": "r = [(hasattr(v, 'tobytes'), hasattr(v, 'append'), hasattr(v, 'isdigit'), hasattr(v, 'keys'), getattr(v, 'zzz', 4)) for v in (s, b, k, d)]",
    "lookup": "c = codecs.lookup('cp500')\nr = (c.name, c.encode(s.encode('latin-1', 'replace').decode('latin-1'), 'replace'), c.decode(b), codecs.getencoder('utf-8')(s))",
    "b16": "r = [base64.b16encode(b)]\ntry:\n    r.append(base64.b16decode(s, True))\nexcept ValueError as e:\n    r.append(type(e).__name__)",
    "ucd": "r = [(unicodedata.category(c), unicodedata.digit(c, -1), unicodedata.normalize('NFC', c) == c) for c in s]",
    "incdec": "f = codecs.getincrementaldecoder('utf-8')()\ntry:\n    r = [f.decode(b)]\n    r.append(f.decode(b'\\xa9'))\n    r.append(f.decode(b'', True))\nexcept UnicodeDecodeError:\n    r = 'bad', f.getstate()",
    "incdec1": "f = codecs.lookup('cp500').incrementaldecoder()\nr = f.decode(b, final=True) + f.decode(b)",
    "incenc": "f = codecs.getincrementalencoder('utf-8')()\nr = f.encode(s) + f.encode(s, True)",
    "nfc": "r = unicodedata.normalize('NFKD', s)",
    "wraptext": "r = textwrap.wrap(s, 1)",
    "warn": "import warnings, logging\nwarnings.warn('x %s' % s)\nlogging.getLogger('x').debug('%s', s)\nr = 1",
    "bitstr": "m = bin(int.from_bytes(b'\\1' + b, 'big'))[3:]\nr = [i for i, c in enumerate(m, 1) if c == '1']",
    "setops": "a = {x % 8 for x in b}\nr = (sorted(a), a & {1, 2}, a | {9}, a - {0}, 3 in a, len(a), a.issubset(range(8)), min(a) if a else None)",
    "setmut": "a = set()\nfor x in b:\n    a.add(x % 5)\na.discard(1)\na.update([7])\nr = sorted(a)",
    "setsort": "r = [str(i) for i in sorted({x % 16 for x in b}, reverse=True)]",
    "nested": "def f(x, *a, **k):\n    return (x, a, sorted(k))\nr = f(*s, z=1, **{'y': 2})",
    "gen": "def g():\n    for c in s:\n        if c == '0':\n            return\n        yield c\nr = list(g())",
    "closure": "acc = []\ndef put(x):\n    acc.append(x)\nfor c in s: put(c)\nr = acc",
    "unpack": "a, *rest = b\nr = (a, rest)",
    "slice": "m = bytearray(b)\nm[1:2] = b'zz'\ndel m[0]\nm.append(7)\nm.extend(b)\nm.insert(0, 1)\nr = m",
    "match": "match len(s):\n    case 0:\n        r = 'none'\n    case 3:\n        r = 'three'\n    case _:\n        r = 'other'",
    "matchs": "match s:\n    case 'abc':\n        r = 1\n    case '' | '0':\n        r = 2\n    case _:\n        r = 3",
    "chain": "r = (0 < k < 3, k == 1 == 1, 'a' < s < 'f')",
    "cond": "r = 'x' if s and k else 'y' if not k else 'z'",
    "lambda": "f = lambda x: x.upper()\nr = sorted(list(s), key=f)",
    "sorted": "r = sorted(b, key=lambda x: -x)",
    "cls": "class P:\n    __slots__ = ('a',)\n    def __init__(self, a): self.a = a\n    def up(self): return self.a.upper()\n    @property\n    def n(self): return len(self.a)\np = P(s)\nr = (p.up(), p.n)",
    "exc": "class E(ValueError):\n    pass\ntry:\n    if k > 2: raise E(f'{s} {k}')\n    r = 0\nexcept E as e:\n    r = str(e), e.args",
    "raisefrom": "try:\n    try:\n        int(s, 16)\n    except ValueError as e:\n        raise KeyError(s) from None\n    r = 1\nexcept KeyError as e:\n    r = e.args[0]",
    "ints": "r = (k + 1, k - 5, k * 3, k // 2, k % 3, -k, k ** 2, k << 2, k >> 1, k & 1, k | 4, k ^ 3, abs(k - 2), divmod(k, 2), k == 2, k != 2, bool(k), str(k), repr(k), hex(k), bin(k), oct(k), float(k), int(k), k.bit_length(), max(k, 2), min(k, 2), round(k), hash(k) == hash(int(k)), '%03d' % k, f'{k}', f'{k:>4}', f'{k:x}', '{}'.format(k), k.to_bytes(2, 'big'), pow(k, 2), k / 2 > 1, [0, 1, 2, 3, 4, 5, 6][k], (1, 2, 3)[:k], 'abcdef'[k:], 'abcdefgh'[k], list(range(k)), b'ab' * k, sum(range(k)), k in (1, 2), k in range(1, 4), k not in [0])",
    "enum": "r = []\nfor i, (x, c) in enumerate(zip(b, s), start=k):\n    r.append((i, x, c))",
    "groupby": "r = [(key, len(list(g))) for key, g in itertools.groupby(s)]",
    "cachefn": "@functools.lru_cache(maxsize=None)\ndef f(n):\n    return '0' * n\nr = f(len(s)) + f(2)",
    "partial": "f = functools.partial(int, base=16)\ntry:\n    r = f(s)\nexcept ValueError:\n    r = None",
    "ntuple": "P = collections.namedtuple('P', 'a b')\np = P(s, k)\nr = (p.a, p.b, p._replace(b=1).b, tuple(p))",
    "deque": "q = collections.deque(b)\nq.appendleft(1)\nr = list(q)",
    "ddict": "q = collections.defaultdict(list)\nfor x in b: q[x & 3].append(x)\nr = dict(q)",
    "global": "r = [c for c in s if c in {'0', '1'}] + [x for x in b if x in {48, 49}]",
    "strio": "f = io.StringIO()\nf.write(s)\nf.write('!')\nprint(s, k, file=f)\nr = f.getvalue()",
    "bytearr": "m = bytearray()\nm += s.encode('latin-1', 'replace')\nm.extend([1, 2])\nm += b\nr = bytes(m)",
    "intdigits": "r = [int(c) for c in str(b[0])]",
    "mapkey": "t = {'0': 0, '1': 1, 'a': 10}\nr = [t.get(c) for c in s]",
    "mapkey2": "t = {i: chr(i) for i in range(256)}\nr = [t[x] for x in b]",
    "table": "t = [i * 2 for i in range(256)]\nr = [t[x] for x in b]",
    "tstr": "t = '0123456789ABCDEF'\nr = ''.join(t[x >> 4] + t[x & 15] for x in b)",
    "swap": "x, y = b[0], b[1]\nx, y = y, x\nr = (x, y)",
    "ternary": "n = len(s)\nn += n % 2\nr = s.rjust(n, '0')",
    "fmtnest": "r = '{:{f}>{w}}'.format(s, f='*', w=k + 2)",
    "percent": "r = '%-5s|%05d|%x|%r' % (s, k, b[0], s)",
    "assertx": "assert len(s) == len(b)\nr = 1",
    "sortkeys": "r = sorted([str(x % 12) for x in b], key=int)",
    "bisect": "import bisect\nr = bisect.bisect_left([10, 100, 200], b[0])",
    "any_all": "r = (any(s), all(b), any([]), sum(1 for x in b if x > 5), any(x == 3 for x in b))",
    "tuplecmp": "r = (s, k) == ('abc', 1), (k, s) < (2, 'b')",
    "isinst": "r = [type(x).__name__ for x in (s, b, k, k == 1)]",
    "ordchr": "r = ''.join(chr(ord(c) + 1) for c in s if ord(c) < 100)",
    "divs": "r = [x // 10 * 16 + x % 10 for x in b if x < 100]",
    "bcd": "r = 0\nfor x in b:\n    hi, lo = divmod(x, 16)\n    if hi > 9 or lo > 9:\n        r = None\n        break\n    r = r * 100 + hi * 10 + lo",
    "bcd2": "n = b[0] * 3\nr = bytes.fromhex(str(n).zfill(4))",
    "bcd3": "n = b[0]\nr = bytes(int(str(n).zfill(4)[i:i + 2], 16) for i in (0, 2))",
    "pos": "r = s.encode('latin-1', 'ignore').find(b'0')",
    "view": "v = memoryview(bytes(b))\nr = (bytes(v[1:]), v[0], len(v), v[:2].hex(), bytes(v).hex())",
    "starred": "r = [*b, *s], {**{'a': s}}, (*s,)",
    "kw": "r = dict(a=s, b=k)",
    "slice obj": "sl = slice(1, None)\nr = s[sl], b[sl]",
    "not in": "r = '0' not in s, 48 not in b, k not in {0: 1}",
    "contains k": "r = k in {1, 2}, k in {1: 2}, [1, 2, 3].count(k), (1, 2, 3).index(2)",
    "dictint": "r = {0: 'a', 1: 'b', 2: 'c', 3: 'd', 4: 'e', 5: 'f'}[k]",
    "dictintget": "r = {1: 'b', 2: 'c'}.get(k, 'x')",
    "strmul": "r = ' ' * (k - 2) + '|'",
    "expandk": "r = [s[i] for i in range(min(k, len(s)))]",
}


def source():
    out = ["import base64, binascii, codecs, collections, functools, io, itertools, operator, re, string, struct, textwrap, unicodedata", "", "OPS = {}", ""]
    items = [(e, "r = " + e) for e in list(dict.fromkeys(TEXT + BYTES + DICT + LONG))] + list(STMT.items())
    for i, (name, body) in enumerate(items):
        out.append("def op%d(s, b, k, d):\n    %s\n    return r\n\nOPS[%r] = op%d\n" % (i, body.replace("\n", "\n    "), name, i))
    return "\n".join(out)


LONG = [
    "s.strip()", "s.lstrip('0')", "s.rstrip('F ')", "b.lstrip(b'\\0')", "b.rstrip(b'\\0 ')", "b.strip()", "s.find('|')", "b.find(b'\\x1c')", "b'\\x1c' in b", "'|' in s",
    "s.partition('|')", "s.replace('|', '')", "b.replace(b'\\r', b'')", "s.split('|', 1)", "s.count('|')", "s.upper()", "s.lower()", "s.startswith('00')",
    "s.endswith('00')", "b.endswith(b'\\n')", "s[1:]", "s[:-1]", "s[k:]", "s[-2:]", "b[:k] + b[k:]", "b.hex()", "b.hex().upper()", "s.isdigit()", "s.isascii()", "s.isalnum()", "s.isspace()",
    "s.encode('ascii')", "s.encode('cp500')", "b.decode('latin-1')", "b.decode('cp500')", "b.decode('ascii', 'replace')", "len(s) * 2", "s.zfill(10)", "s.ljust(20)", "s.rjust(20, '0')",
    "s == s.strip()", "s == s[:5]", "s + s", "bytes(b)", "bytearray(b)", "bytearray(b) + b'x'", "bytes(memoryview(b)[2:])", "list(b[:2])", "s.removeprefix('0')", "s.removesuffix('0')",
    "s.rfind('0')", "s.index('0')", "sum(b[:3])", "b[0] if b else None", "s[0] if s else None", "s[-1:]", "not s", "s or 'x'", "max(len(s), len(b))", "'%s' % s", "f'{s}|{len(s):03d}'", "str(len(b)).zfill(3)",
    "repr(s)[:3]", "s.translate({48: None})", "b.translate(bytes(range(256)))", "bytes.fromhex(s)", "binascii.a2b_hex(s)", "int(s or '0')", "s.isprintable()", "any(c == '|' for c in s)", "all(c in '0123456789' for c in s)",
    "''.join(c for c in s if c != '|')", "''.join([s, '|'])", "[s[i:i + 500] for i in range(0, len(s), 500)]", "s.rstrip('0').lstrip('0')", "len(s.encode('utf-8'))", "s.casefold()", "s.swapcase()", "b[::-1]", "s[::2]", "hash(b) == hash(b)",
]


def tasks():
    A = [[0, 127]]
    ANY = [[0, 0x17F], [0x660, 0x669], [0x2028, 0x2029], [0xD800, 0xD801], [0x1F600, 0x1F610]]
    out = []

    def t(name, op=None, **cfg):
        out.append(dict(prop="SELF", name="%s %s" % (name, {k: v for k, v in cfg.items() if k not in ("op", "chars")}), module="h_ops", func="expr",
                        cfg=dict(cfg, op=op or name, chars=cfg.get("chars", A)), max_seconds=60, query_ms=20000))

    for e in LONG:
        t("L " + e, e, long=3000, k="k" in e)
    for e in TEXT:
        for n in (0, 2, 3):
            t(e, n=n, k="k" in e)
        t(e, n=2, chars=ANY, k=False)
    for e in BYTES:
        for n in (0, 2):
            t(e, n=n, s=False, b=True, k="k" in e)
        t(e, n=2, s=False, b=True, mutable=True)
    for e in DICT:
        t(e, n=1, d=True)
        t(e, n=2, d=True)
    for e in STMT:
        t(e, n=2, b=True, k=True, d="d[" in STMT[e] or " d" in STMT[e], chars=[[32, 126]])
    return out


def work(args):
    t, root = args
    os.environ["VP_REPO"] = root
    import sx.loader
    import sx.run

    sx.loader.REPO = root
    if hasattr(sx.run, "REPO"):
        sx.run.REPO = root
    try:
        return t["name"], sx.run.run_task(t)
    except BaseException as e:  # noqa
        return t["name"], {"fault": "%s %s" % (type(e).__name__, e)}


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    root = tempfile.mkdtemp(prefix="sxself")
    try:
        os.mkdir(os.path.join(root, "iso8583"))
        with open(os.path.join(root, "iso8583", "__init__.py"), "w") as f:
            f.write(source())
        open(os.path.join(root, "iso8583", "specs.py"), "w").close()
        os.environ["VP_REPO"] = root
        ts = [t for t in tasks() if pat in t["name"]]
        bad = 0
        with mp.get_context("spawn").Pool(8, maxtasksperchild=50) as pool:
            for name, r in pool.imap_unordered(work, [(t, root) for t in ts]):
                why = []
                if r.get("fault"):
                    why.append("FAULT " + str(r["fault"])[-300:])
                if r.get("mismatch"):
                    why.append("MISMATCH " + repr(r["mismatch"][0])[-700:])
                if r.get("violations"):
                    why.append("UNCAUGHT " + str(r["violations"][0])[-300:])
                for k in ("incomplete", "fallbacks"):
                    if r.get(k):
                        why.append("%s %s" % (k, r[k]))
                if r.get("seconds", 0) > 20:
                    why.append("slow %.0fs %d paths" % (r["seconds"], r["paths"]))
                if why:
                    bad += 1
                    print(name, "|", "; ".join(why), flush=True)
        print("%d operations, %d remarks" % (len(ts), bad))
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
