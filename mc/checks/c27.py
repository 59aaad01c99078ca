"""C27: the integrated datasets over a stubbed download: all call histories, death of the process at every point, torn files, failing downloads."""
import collections
import gc
import io
import itertools
import json
import os
import shutil
import time
import zipfile
from .. import crash

RULE = ('a case is (dataset, history of calls) or (dataset, first call, crash points k modulo n) or (dataset, failing download, later calls); states counts distinct (dataset, crash point or history), '
        'distinct_nontrivial counts distinct (dataset, kind of data returned)')
ASSUMPTIONS = ['the download is replaced by a stub that serves small archives of the published layout', 'death of the process; completed file operations are durable, the last file being written may hold any prefix',
               'one process at a time uses the data folder']
CHUNK = 2
CASE_LIMIT_S = 300
NAMES = ('ml-100k', 'ml-1m', 'ml-10m', 'ml-20m', 'bx')
OPS = tuple((w, m) for w in ('full', 'train', 'test') for m in ('mem', 'db'))
QUICK = (('ml-100k', 0), ('ml-100k', 5), ('ml-1m', 2), ('ml-1m', 5), ('bx', 0), ('bx', 3), ('bx', 4), ('ml-20m', 4), ('ml-10m', 1))
FILES = ('Dataset/integrated_datasets.py', 'Dataset/file_utils.py')


def bounds(tier):
    return {'datasets': NAMES, 'calls': 'get_full/train/test_dataset in both storage modes', 'histories': 'up to 2 calls (3 thorough), then all calls again without network', 'users': 5,
            'crash points': 'every file-system effect of the first call and every line of the integrated-dataset modules; prefixes of the file being written', 'faults': 'connection error, HTTP error, truncated archive'}


def cases(tier):
    q = tier == 'quick'
    for name in NAMES:
        for n in (1, 2, 3):
            for j, hist in enumerate(itertools.product(range(6), repeat=n)):
                if n == 3 and q and (name not in ('ml-1m', 'bx') or j % 12): continue
                yield ['hist', name, list(hist)]
        for fault in ('connection', 'http', 'truncated'):
            if name == 'bx' and fault == 'truncated': continue
            for a in range(6):
                for b in range(6) if not q else (a, 5 - a): yield ['fault', name, fault, a, b]
        for op in range(6):
            if q and (name, op) not in QUICK: continue
            n = 8
            for p in range(n): yield ['crash', name, op, p, n]
            yield ['torn', name, op]


# ---------------------------------------------------------------- the published data
def rows(name):
    """[(user, item, interaction, timestamp)] in file order; users with 9, 10, 11, 14 and 25 interactions."""
    sizes = {7: 14, 3: 9, 12: 25, 5: 10, 40: 11}
    out, left, i = [], dict(sizes), 0
    while left:
        for u in list(left):
            k = sizes[u] - left[u]
            item = 100 + (u * 7 + k * 3) % 90
            if name == 'bx': item = f'{item:04d}' if k % 6 == 2 else f'0{item}\u00e9X' if k % 4 == 1 else f'0{item}X'
            val = (u + k) % 5 + 1
            if name in ('ml-10m', 'ml-20m') and (u + k) % 3 == 0: val -= 0.5
            out.append((u, item, val, 880000000 + (i * 7919) % 1000))
            left[u] -= 1
            i += 1
            if not left[u]: del left[u]
    return out


def published(name):
    """(body of the download, {'full': records, 'train': ..., 'test': ...})"""
    rs = rows(name)
    if name == 'bx':
        text = '"User-ID";"ISBN";"Book-Rating"\r\n' + ''.join(f'"{u}";"{i}";"{v}"\r\n' for u, i, v, _ in rs)
        return text.encode('latin1'), {'full': [r[:3] for r in rs]}
    files = {}
    line = {'ml-100k': '\t', 'ml-1m': '::', 'ml-10m': '::', 'ml-20m': ','}[name]
    def text(rs): return ''.join(line.join(map(str, r)) + '\n' for r in rs)
    exp = {'full': rs}
    if name == 'ml-100k':
        exp['test'], exp['train'] = rs[::4], [r for k, r in enumerate(rs) if k % 4]
        files = {'u.data': text(rs), 'ua.base': text(exp['train']), 'ua.test': text(exp['test']), 'README': 'read me\n', 'u.item': '1|x\n', 'ub.test': text(rs[::5])}
        folder = 'ml-100k/'
    elif name == 'ml-20m': files, folder = {'ratings.csv': 'userId,movieId,rating,timestamp\n' + text(rs), 'README.txt': 'read me\n', 'links.csv': 'a,b\n'}, 'ml-20m/'
    else: files, folder = {'README': 'read me\n', 'movies.dat': '1::x::y\n', 'ratings.dat': text(rs)}, {'ml-1m': 'ml-1m/', 'ml-10m': 'ml-10M100K/'}[name]
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w') as z:
        z.writestr(zipfile.ZipInfo(folder), '')
        for f, body in files.items(): z.writestr(folder + f, body)
    return buf.getvalue(), exp


class Response:
    def __init__(self, content, status=200):
        self.content, self.status_code, self.ok = content, status, status < 400
        self.headers = {'Content-Length': str(len(content)), 'content-length': str(len(content))}
        self.reason = 'OK' if self.ok else 'Not Found'
        self.text = content.decode('latin1')
        self.raw = io.BytesIO(content)
        self.encoding = None
        self.url = ''

    def raise_for_status(self):
        import requests
        if self.status_code >= 400: raise requests.HTTPError(f'{self.status_code}', response=None)

    def iter_content(self, chunk_size=1, decode_unicode=False):
        for i in range(0, len(self.content), max(1, chunk_size or len(self.content) or 1)): yield self.content[i:i + (chunk_size or len(self.content))]

    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


STATE = {'mode': 'ok', 'name': None, 'downloads': 0}
_sleep = time.sleep


def stub(url, *a, **kw):
    import requests
    STATE['downloads'] += 1
    if STATE['mode'] in ('down', 'connection'): raise requests.ConnectionError('no network')
    if STATE['mode'] == 'http': return Response(b'<html>not found</html>', 404)
    body = published(STATE['name'])[0]
    if STATE['mode'] == 'truncated': body = body[:len(body) * 2 // 3]
    return Response(body)


def after_import():
    import requests
    requests.get = stub
    requests.Session.get = lambda self, url, *a, **kw: stub(url)
    requests.request = lambda method, url, *a, **kw: stub(url)
    time.sleep = lambda s: _sleep(min(s, 0.002))


def call(op, name):
    import DRecPy.Dataset as D
    which, mode = OPS[op]
    return getattr(D, f'get_{which}_dataset')(name, force_out_of_memory=mode == 'db', verbose=False)


def read(ds, name):
    cols = ['user', 'item', 'interaction'] + ([] if name == 'bx' else ['timestamp'])
    if sorted(ds.columns) != sorted(cols + ['rid']): return None, f'columns {ds.columns}'
    got = [tuple(plain(r[c]) for c in cols) for r in ds.values_list()]
    if len(ds) != len(got): return None, f'len {len(ds)}, {len(got)} records'
    return got, None


def plain(v):
    if isinstance(v, str): return v
    v = v.item() if hasattr(v, 'item') else v
    return int(v) if float(v).is_integer() else float(v)


_pair = {}


def judge(name, op, ds):
    """None or what is wrong with the dataset returned by the call."""
    which, mode = OPS[op]
    if bool(ds.in_memory) != (mode == 'mem'): return f'get_{which}_dataset({name!r}, force_out_of_memory={mode == "db"}) returned a dataset with in_memory={ds.in_memory}'
    what = f'get_{which}_dataset({name!r}, {mode})'
    got, msg = read(ds, name)
    if msg: return f'{what}: {msg}'
    exp = published(name)[1]
    if which in exp:
        if got != exp[which]: return f'{what}: expected the {len(exp[which])} published records, got {len(got)}: {diff(got, exp[which])}'
        return None
    # generated: the pair of a seeded leave-10-out, in file order, the same every time
    full = exp['full']
    pos = {r: k for k, r in enumerate(full)}
    if any(r not in pos for r in got): return f'{what}: records that were not published: {[r for r in got if r not in pos][:3]}'
    if [pos[r] for r in got] != sorted({pos[r] for r in got}): return f'{what}: records repeated or out of order'
    sizes = collections.Counter(r[0] for r in full)
    mine = collections.Counter(r[0] for r in got)
    for u, n in sizes.items():
        t = 0 if n < 10 else 10 if n > 10 else 0
        want = t if which == 'test' else 0 if n < 10 else n - t
        if mine[u] != want: return f'{what}: {mine[u]} records of the user {u} with {n} interactions, expected {want}'
    first = _pair.setdefault((name, which), got)
    if first != got: return f'{what}: other records than before: {diff(got, first)}'
    other = _pair.get((name, 'test' if which == 'train' else 'train'))
    if other is not None and set(other) & set(got): return f'{what}: records in both train and test: {sorted(set(other) & set(got), key=str)[:3]}'
    return None


def diff(a, b):
    for k, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y: return f'record {k} is {x}, expected {y}'
    return 'same'


def use(name, ops):
    for op in ops:
        try: ds = call(op, name)
        except Exception as e: return f'call {OPS[op]} of {[OPS[o] for o in ops]} raised {e!r}'
        m = judge(name, op, ds)
        if m: return m
        if not ds.in_memory: ds.close()
    return None


def learn(ctx, name):
    """The generated pair of a clean run, against which the others are compared."""
    if name == 'ml-100k' or (name, 'test') in _pair: return
    ctx.new_data_folder()
    STATE.update(mode='ok', name=name)
    m = use(name, [2, 4])
    if m: ctx.fail(m)


def one(ctx, case):
    kind, name = case[:2]
    STATE.update(mode='ok', name=name, downloads=0)
    learn(ctx, name)
    folder = ctx.new_data_folder()
    try: globals()['do_' + kind](ctx, case, folder)
    finally:
        STATE['mode'] = 'ok'
        gc.collect()
        shutil.rmtree(folder, ignore_errors=True)


def do_hist(ctx, case, folder):
    _, name, hist = case
    m = use(name, hist)
    if m: ctx.fail(f'history {[OPS[o] for o in hist]}: {m}')
    if name != 'ml-100k' and not any(OPS[o][0] != 'full' for o in hist): again = [0, 1]
    else: again = range(6)
    STATE['mode'] = 'down'
    m = use(name, again)
    if m: ctx.fail(f'after {[OPS[o] for o in hist]}, without network: {m}')
    ctx.step(len(hist) + len(again))
    ctx.state((name, tuple(hist)))
    ctx.outcome((name, OPS[hist[-1]]))


def do_fault(ctx, case, folder):
    _, name, fault, a, b = case
    STATE['mode'] = fault
    try:
        call(a, name)
        ctx.fail(f'{OPS[a]} of {name} did not raise although the download failed ({fault})')
    except Exception as e:
        if type(e).__name__ == 'Violation': raise
        e.__traceback__ = None
    STATE['mode'] = 'ok'
    m = use(name, [b] + [o for o in range(6) if o != b])
    if m: ctx.fail(f'after a download that failed ({fault}) in {OPS[a]}: {m}')
    ctx.step(7)
    ctx.state((name, fault, a, b))


def events_of(ctx, name, op, folder, pre):
    fresh(folder, pre, name)
    st, _, out = crash.child(lambda: call(op, name), None, FILES, True)
    if st: ctx.fail(f'{OPS[op]} of {name} failed: {out[-1500:].decode(errors="replace")}')
    return json.loads(out)


_stored = {}


def fresh(folder, pre, name):
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    if pre:
        if name not in _stored:
            STATE.update(mode='ok', name=name)
            call(0, name)
            keep = folder + '.stored'
            shutil.copytree(folder, keep)
            _stored[name] = keep
        else:
            shutil.rmtree(folder)
            shutil.copytree(_stored[name], folder)


def recover(ctx, name, op, what):
    tier = ctx.tier

    def after():
        crash.fresh_start()
        m = use(name, [op, (op + 2) % 6, (op + 4) % 6] if tier == 'quick' else [op] + [o for o in range(6) if o != op])
        if m: raise AssertionError(m)
    st, _, out = crash.child(after, None, ('no such file',))
    ctx.check(st == 0, f'{what}: {out[-1500:].decode(errors="replace")}')
    ctx.step(7)


def variants(name, op): return (False, True) if OPS[op][0] != 'full' and name != 'ml-100k' else (False,)


def do_crash(ctx, case, folder):
    _, name, op, part, nparts = case
    for pre in variants(name, op):
        ev = events_of(ctx, name, op, folder, pre)
        for k in range(part, len(ev), nparts):
            fresh(folder, pre, name)
            st, _, out = crash.child(lambda: call(op, name), k, FILES)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) not in (0, 77): ctx.fail(f'{OPS[op]} of {name} failed: {out[-1500:].decode(errors="replace")}')
            where = next((e for e in ev[k:] if e), None)
            recover(ctx, name, (op + k) % 6, f'{OPS[op]} of {name} (archive {"stored" if pre else "not stored"}) died before event {k} of {len(ev)} (next file operation: {where}); then')
            ctx.state((name, op, pre, k))
            ctx.count('crash points')


def do_torn(ctx, case, folder):
    _, name, op = case
    for pre in variants(name, op):
        ev = events_of(ctx, name, op, folder, pre)
        fs = [k for k, e in enumerate(ev) if e]
        for j, k in enumerate(fs):
            if ev[k][0] != 'open': continue
            end = fs[j + 1] if j + 1 < len(fs) else None
            path = ev[k][1][0]
            if not os.path.abspath(path).startswith(folder): continue
            if path.endswith(('.sqlite', '-journal', 'tmp_files.txt')): continue
            fresh(folder, pre, name)
            crash.child(lambda: call(op, name), end, FILES)
            if not os.path.isfile(path): continue
            with open(path, 'rb') as f: body = f.read()
            cuts = {0, 1, len(body) // 3, 2 * len(body) // 3, len(body) - 1} | {body.rfind(b'\n', 0, len(body) // 2) + 1, body.rfind(b'\n', 0, len(body) - 1) + 1}
            for c in sorted(x for x in cuts if 0 <= x < len(body)):
                fresh(folder, pre, name)
                crash.child(lambda: call(op, name), end, FILES)
                if not os.path.isfile(path): continue
                with open(path, 'r+b') as f: f.truncate(c)
                recover(ctx, name, (op + c) % 6, f'{OPS[op]} of {name} (archive {"stored" if pre else "not stored"}) died while writing {os.path.relpath(path, folder)}, {c} of {len(body)} bytes written; then')
                ctx.state((name, op, pre, k, c))
                ctx.count('torn files')
