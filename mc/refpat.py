"""Reference matcher for element patterns: declarative, over whole paths."""


def stage_matches(stage, name):
    if isinstance(stage, str):
        return stage == '*' or stage == name
    return name in stage


def matches(pattern, path):
    if not pattern:
        return not path
    if pattern[0] == '**':
        return any(matches(pattern[1:], path[i:]) for i in range(len(path) + 1))
    return bool(path) and stage_matches(pattern[0], path[0]) and matches(pattern[1:], path[1:])


def outermost(pattern, t, path=()):
    """Subtrees of canonical tree t whose path matches, other than those within another"""
    path += (t[0],)
    if matches(pattern, path):
        yield t
        return
    for c in t[2]:
        if not isinstance(c, str):
            yield from outermost(pattern, c, path)


def outermost_ends(pattern, t, path=(), pos=None):
    """(ordinal of the end of the element among all ends, subtree)"""
    pos = [0] if pos is None else pos
    path += (t[0],)
    hit = matches(pattern, path)
    for c in t[2]:
        if not isinstance(c, str):
            if hit:
                for _ in outermost_ends(('',), c, (), pos):
                    pass
            else:
                yield from outermost_ends(pattern, c, path, pos)
    pos[0] += 1
    if hit:
        yield pos[0], t


def patterns(stages, n):
    """Patterns of up to n stages, the last not '**'"""
    import itertools
    for k in range(1, n + 1):
        for p in itertools.product(stages, repeat=k):
            if p[-1] != '**':
                yield p


# What a function given as a test may answer, for no and for yes
ANSWERS = {False: (False, None, 0, '', ()), True: (True, 1, 'x', (0,), 2.5)}


def numbered(t, texts=True):
    """t with a number on each element, and text that tells all places apart"""
    count = [0]

    def rec(x):
        if isinstance(x, str):
            return x
        count[0] += 1
        n = count[0]
        kids = ['t%d.0' % n] if texts else []
        for i, c in enumerate(x[2], 1):
            kids.append(rec(c))
            if texts:
                kids.append('t%d.%d' % (n, i))
        return (x[0], (('i', str(n)),), tuple(kids))
    return rec(t)
