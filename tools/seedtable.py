"""Prints the table of planted bugs of DESIGN.md section 5 (from seeded/*/meta.json)."""
import json
import os

H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
T = '## 5. Planted bugs and which checks catch them\n'


def table():
    out = ['| Seed | Property | Needs | Caught by |', '|---|---|---|---|']
    for s in sorted(os.listdir(H)):
        m = json.load(open(os.path.join(H, s, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'], m.get('caught_by', m['property'])))
    return '\n'.join(out)


if __name__ == '__main__':
    p = os.path.join(os.path.dirname(H), 'DESIGN.md')
    s = open(p).read()
    head, tail = s.split(T)
    k = tail.index('| Seed |')
    rest = tail[k:].split('\n\n', 1)
    open(p, 'w').write(head + T + tail[:k] + table() + '\n' + ('\n' + rest[1] if len(rest) > 1 else ''))
