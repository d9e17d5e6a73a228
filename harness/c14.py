"""C14: ignored paths are exactly those named."""
from mdpo.io import filter_paths

BOUNDS = ('up to 2 paths and up to 2 ignored paths, each of every length up to 4 (quick, first path 5) or 5 (thorough, first path 6) '
          'characters over all BMP characters; paths without empty components, ignored paths not empty and not ending '
          'in a slash')
REACH = ['kept', 'by-path', 'by-name', 'by-dirname', 'by-dirpath']


def cases(tier):
    m = 4 if tier == 'quick' else 5
    cs = []
    for a in range(1, m + 2):
        cs.append({'p': [a], 'i': []})
        for i in range(1, m + 1):
            cs.append({'p': [a], 'i': [i]})
            for j in range(1, i + 1):
                if a + i + j <= 2 * m + 2:
                    cs.append({'p': [a], 'i': [i, j]})
    for a in range(1, m + 1):
        for b in range(1, m + 1):
            if a + b <= m + 2:
                for i in range(1, m + 1):
                    cs.append({'p': [a, b], 'i': [i]})
    return cs + [{'p': [4], 'i': [3], 'dir': True}, {'p': [5], 'i': [3], 'dir': True}]


def parts(p):
    """(file name, name of the directory, path of the directory) of a path."""
    cut = [k for k in range(len(p)) if p[k] == '/']
    if not cut:
        return p, None, None
    last = cut[-1]
    prev = cut[-2] if len(cut) > 1 else -1
    return p[last + 1:], p[prev + 1:last], p[:last]


def run(w, case):
    paths = []
    for n, size in enumerate(case['p']):
        p = w.text(f'p{n}', size, 'any')
        for k in range(size - 1):
            w.assume(not (p[k] == '/' and p[k + 1] == '/'))
        w.assume(p[-1:] != '/')
        paths.append(p)
    if case.get('dir'):
        w.assume('/' in paths[0][1:])
    ignored = []
    for n, size in enumerate(case['i']):
        q = w.text(f'i{n}', size, 'any')
        w.assume(q[-1:] != '/')
        ignored.append(q)
    got = filter_paths(list(paths), ignore_paths=list(ignored))
    w.obs('got', got)
    want = []
    for p in paths:
        name, dirname, dirpath = parts(p)
        if any(w.eq(p, q) for q in ignored):
            w.reach('by-path')
        elif any(w.eq(name, q) for q in ignored):
            w.reach('by-name')
        elif dirname and any(w.eq(dirname, q) for q in ignored):
            w.reach('by-dirname')
        elif dirpath and any(w.eq(dirpath, q) for q in ignored):
            w.reach('by-dirpath')
        else:
            w.reach('kept')
            want.append(p)
    if len(want) == 2 and want[1] < want[0]:
        want = want[::-1]
    w.check(w.eq(got, want), 'exactly-the-named', [paths, ignored, got, want])
