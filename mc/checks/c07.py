"""C07: process death at every point of saving; and data files survive death at any point of any operation."""
import os
import shutil
import sqlite3
from .. import ref, crash
from ..engine import HarnessError

LEVEL = 'fault_enumeration'
RULE = ('a case is a save or work history; it is killed before every executed library line and every file-system effect; '
        'distinct_nontrivial counts distinct (history, content found after the crash) pairs')
ASSUMPTIONS = ['process death: completed system calls persist, nothing else is lost', 'crash points: library source lines and Python-level file-system effects']
CHUNK = 1
CASE_LIMIT_S = 420
COLS = ['user', 'item', 'interaction', 'tag']
OLD = [(1, 10, 3.0, 'a'), (2, 10, 1.0, 'b, c'), (1, 20, 5.0, "d'e")]
NEW = [(7, 70, 1.5, 'x'), (8, 80, 2.5, 'y'), (9, 90, 3.5, 'z'), (7, 90, 4.5, 'x'), (8, 70, 0.5, 'w')]


def bounds(tier):
    return {'crash points': 'all', 'histories': len(list(cases(tier)))}


def cases(tier):
    # save histories: where the data comes from, what is at the destination, operations before saving
    for src in ('csv', 'sqlite', 'own'):
        for dest in ('absent', 'old', 'garbage_tmp'):
            if src == 'own' and dest == 'absent': continue
            for pre in ([], ['sel'], ['assign'], ['drop', 'burst'], ['copy', 'apply']) if tier == 'thorough' or (src, dest) != ('sqlite', 'absent') else ([],):
                yield ['save', src, dest, pre]
    if tier == 'thorough':
        for src in ('csv', 'own'): yield ['save2', src, 'old', ['sel']]
    # work histories on a dataset loaded from a user's sqlite file
    for ops in (['sel', 'burst'], ['sel', 'assign'], ['apply'], ['drop', 'burst', 'burst'], ['copy', 'sel', 'close'], ['close'], ['uniq', 'burst', 'close'],
                ['assign', 'vec', 'remove']):
        yield ['work', 'sqlite', 'old', ops]


def do(ds, op, keep):
    if op == 'sel': ds.select('interaction >= 2', copy=False)
    elif op == 'assign': ds.assign_internal_ids()
    elif op == 'remove': ds.remove_internal_ids()
    elif op == 'drop': ds.drop([0], copy=False)
    elif op == 'burst':
        for _ in range(5): ds.count_unique('user')
    elif op == 'copy':
        keep.append(ds)
        ds = ds.copy()
    elif op == 'apply': ds.apply('interaction', lambda v: v + 1)
    elif op == 'uniq': ds.unique(['user', 'interaction'], copy=False)
    elif op == 'close': ds.close()
    elif op == 'vec': ds.select_user_interaction_vec(0)
    return ds


def content(path):
    """None if absent, 'corrupt', or the rows."""
    if not os.path.exists(path): return None
    try:
        con = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
        try:
            if con.execute('PRAGMA integrity_check').fetchone()[0] != 'ok': return 'corrupt'
            return tuple(con.execute(f'SELECT {",".join(COLS)}, rid FROM interactions ORDER BY rid').fetchall())
        finally:
            con.close()
    except sqlite3.Error as e:
        return f'corrupt: {e}'


def prepare(ctx, src, dest, name='d'):
    """Creates the user's files in a new folder; returns (folder, source path, destination path)."""
    folder = ctx.new_data_folder()
    user = os.path.join(folder, 'user')
    os.makedirs(user)
    os.environ['DATA_FOLDER'] = os.path.join(folder, 'data')
    os.makedirs(os.environ['DATA_FOLDER'])
    target = os.path.join(user, 'out.sqlite')
    return folder, user, target


_templates = {}


def template(ctx, which, data):
    """A saved sqlite file with that data, made once per worker by the library itself (in a child)."""
    if which in _templates: return _templates[which]
    folder, user, target = prepare(ctx, None, None)

    def make():
        csvp = os.path.join(user, 'in.csv')
        ref.write_csv(csvp, data)
        ds = ref.load('db', csvp, COLS)
        ds.save(target)
        ds.close()
    st, n, out = crash.child(make)
    if st != 0: raise RuntimeError(f'saving failed: {out.decode(errors="replace")}')
    _templates[which] = target
    return target


def setup(ctx, user, target, src, dest):
    if dest in ('old', 'garbage_tmp'): shutil.copyfile(template(ctx, 'old', OLD), target)
    if dest == 'garbage_tmp':
        with open(target + '.tmp', 'wb') as f: f.write(b'partial' * 99)
    if src == 'csv':
        p = os.path.join(user, 'in.csv')
        ref.write_csv(p, NEW)
    elif src == 'sqlite':
        p = os.path.join(user, 'src.sqlite')
        shutil.copyfile(template(ctx, 'new', NEW), p)
    else: p = target
    return p


def one(ctx, case):
    from DRecPy.Dataset import InteractionDataset
    kind, src, dest, pre = case

    def opened(p):
        return ref.load('db', p, COLS) if p.endswith('.csv') else InteractionDataset(p, verbose=False, in_memory=False)

    if kind == 'work':
        def run(kill):
            folder, user, target = prepare(ctx, src, dest)
            p = setup(ctx, user, target, 'sqlite', dest)
            before = open(p, 'rb').read()

            def fn():
                keep = []
                ds = opened(p)
                for op in pre: ds = do(ds, op, keep)
            st, n, out = crash.child(fn, kill)
            if not os.path.exists(p): ctx.fail(f'killed at point {kill}: the file the data was loaded from is gone')
            got = content(p)
            if got != content(template(ctx, 'new', NEW)): ctx.fail(f'killed at point {kill}: the file the data was loaded from now holds {got}')
            if content(target) != content(template(ctx, 'old', OLD)): ctx.fail('an unrelated file changed')
            ctx.outcome((case, got == before))
            shutil.rmtree(folder)
            return st, n, out
        sweep(ctx, case, run)
        return

    # what the finished save writes
    results = {}

    def run(kill):
        folder, user, target = prepare(ctx, src, dest)
        p = setup(ctx, user, target, src, dest)
        old = content(target)

        def fn():
            keep = []
            ds = opened(p)
            for op in pre: ds = do(ds, op, keep)
            ds.save('' if src == 'own' else target)
            if kind == 'save2':
                ds.apply('interaction', lambda v: v * 2)
                ds.save(target)
        st, n, out = crash.child(fn, kill)
        got = content(target)
        if kill is None:
            if st == 0 and (not isinstance(got, tuple) or not got): ctx.fail(f'after a complete save the file holds {got}')
            results['new'] = got
        else:
            new = results['new']
            ok = got == old or got == new or kind == 'save2' and isinstance(got, tuple) and len(got) == len(new)
            if not ok: ctx.fail(f'killed at point {kill} of {results["n"]}: the saved file holds {got}; neither the old content {old} nor the new content {new}')
            if src == 'sqlite' and content(p) != content(template(ctx, 'new', NEW)): ctx.fail(f'killed at point {kill}: the source file changed')

            # saving again later succeeds
            if (kill % 3 == 0 or ctx.tier == 'thorough') and not (src == 'own'):
                st2, _, out2 = crash.child(fn)
                if st2 != 0: ctx.fail(f'killed at point {kill}: saving again failed: {out2.decode(errors="replace")[-800:]}')
                if content(target) != new: ctx.fail(f'killed at point {kill}: saving again gave {content(target)}, expected {new}')
                ctx.count('resaves')
        ctx.outcome((case[:3], got))
        if src == 'own' and dest == 'old' and got is None: ctx.fail(f'killed at point {kill}: the file is gone')
        shutil.rmtree(folder)
        return st, n, out
    sweep(ctx, case, run, results)


def sweep(ctx, case, run, results=None):
    st, n, out = run(None)
    if st != 0: ctx.fail(f'the history itself failed (status {st}): {out.decode(errors="replace")[-1500:]}', key='exception')
    if results is not None: results['n'] = n
    k = 0
    while True:
        st, m, out = run(k)
        ctx.step()
        ctx.state((case, k))
        ctx.count('crash points')
        if st == 0: break                     # ran to completion: every point was covered
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            k += 1
            if k > 20000: raise HarnessError('crash point sweep does not end')
            continue
        ctx.fail(f'run {k} ended with status {st}: {out.decode(errors="replace")[-1500:]}', key='exception')
