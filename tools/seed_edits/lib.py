import sys
def sub(path, *pairs):
    s = open(path).read()
    for a, b in pairs:
        assert s.count(a) == 1, (path, a, s.count(a))
        s = s.replace(a, b)
    open(path, 'w').write(s)
X = 'xtra/src/'
