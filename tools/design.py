"""Fills the generated sections of DESIGN.md (between <!-- name --> and <!-- /name -->) from gen.py, known_findings.json and seeded/. Run by hand."""
import json, os, re
import sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
ROOT = gen.ROOT
ORACLE = {
 'C01': 'plain table (list of dicts) in lock-step, every step and every read', 'C02': 'Python predicate over the records', 'C03': 'one plain table per live dataset, all compared after every step',
 'C04': 'ids recomputed from the records; bijection, 0..n-1', 'C05': 'vector recomputed from the plain table', 'C06': 'content before saving = content after loading; files parsed independently',
 'C07': 'after death at the i-th event the old or the complete new content is read back', 'C08': 'files in the data folder = those needed by live datasets', 'C09': 'plain table; all records changed or none',
 'C10': 'per-user validity of (train, test), reachability of every admissible choice', 'C11': 'user-item block recomputed from the result; reachability', 'C12': 'exact partition and size for every path of the choice tree',
 'C13': 'result of the sequential run; deadlock/livelock detection', 'C14': 'result of the sequential run; deadlock/livelock detection', 'C15': 'textbook definitions (mc/evalref.py) in rational or double arithmetic',
 'C16': 'metric over exactly the scripted predictions', 'C17': 'protocol re-stated over scripted model and recording metrics', 'C18': 'protocol re-stated over scripted model and recording metrics',
 'C19': 'set of positive / negative pairs; soundness on every path, completeness over all paths', 'C20': 'well-formedness on every path, reachability of every admissible window and negative set',
 'C21': 'the same operation in a fresh interpreter with another hash seed', 'C22': 'neighbourhood formula over mc/simref.py', 'C23': 'definitions over dense vectors', 'C24': 'requests answered from the full score table of the same model',
 'C25': 'training loop re-stated; scripted trainables whose weights count the updates', 'C26': 'a new model fitted once on the last data', 'C27': 'published data served by the stub; partition definition',
 'C28': 'the generated table', 'C29': 'predictions, rankings, recommendations of the model before saving', 'C30': 'results of the same programs run one after the other', 'C31': 'networks and losses re-stated (TensorFlow primitives, own autodiff); set of admissible gradients per step; completeness over all paths',
}
SECONDS = json.load(open(os.path.join(ROOT, 'tools', 'seconds.json')))


def main():
    rows = []
    for p in gen.P:
        rows.append(f"| {p['id']} | {p['qtext']} | {ORACLE[p['id']]} | {p['note']} | {SECONDS.get(p['id'], '')} |")
    k = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
    fixes = ['* ' + x['what'].replace('fixed: property=', '') for x in k if x.get('kind') == 'fixed']
    seeds = ['| id | needs | first caught by |', '|---|---|---|']
    missed = json.load(open(os.path.join(ROOT, 'tools', 'missed.json')))
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
        seeds.append(f"| {d} | {m['needs']} | {m['property']}{' — ' + missed[d] if d in missed else ''} |")
    t = open(os.path.join(ROOT, 'DESIGN.md')).read()
    for name, body in (('TABLE', rows), ('FIXES', fixes), ('SEEDS', seeds)):
        new = f'<!-- {name} -->\n' if name != 'TABLE' else ''
        if f'@@{name}@@' in t: t = t.replace(f'@@{name}@@', (f'<!-- {name} -->\n' if name != 'TABLE' else '') + '\n'.join(body) + f'\n<!-- /{name} -->')
        elif name == 'TABLE': t = re.sub(r'(\|---\|---\|---\|---\|---\|\n).*?(<!-- /TABLE -->)', lambda mm: mm.group(1) + '\n'.join(body) + '\n' + mm.group(2), t, flags=re.S)
        else: t = re.sub(rf'(<!-- {name} -->\n).*?(\n<!-- /{name} -->)', lambda mm: mm.group(1) + '\n'.join(body) + mm.group(2), t, flags=re.S)
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)


if __name__ == '__main__': main()
