"""Secured file names are harmless whatever the client sent.

Stubs: `os` as seen by verktyg.utils, for Windows.
Outside the bounds: longer names, separators other than / and \\.
"""
import ntpath
import verktyg.utils
from verktyg.utils import secure_filename

SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
           '_.-')
# ascii and characters with every kind of decomposition: letters with
# accents, ligatures, full width dots and slashes, fractions, spaces,
# one dot leaders, ideographs, combining characters, emoji
WILD = [chr(i) for i in range(128)] + list(
    '\xa0\xe4\xdf\xbc\xb2\u0301\u2024\u2025\u2026\u2028\u2044\u2215\u2216'
    '\u2100\ufe52\ufe68\uff0e\uff0f\uff3c\ufb01\u3000\u4e2d\u0660\u1e9b'
    '\U0001f600\u2f00\uff21\u216b\ufdfa')


def safe(sx, got):
    sx.check(isinstance(got, str), 'a text')
    for c in got:
        sx.check(c in SAFE, 'only harmless characters')
    sx.check(got not in ('.', '..'), 'not a directory')
    sx.check(got[:1] not in ('.', '_') and got[-1:] not in ('.', '_'),
             'not hidden')


def h_any(sx):
    """any name of up to 4 (thorough 5) characters"""
    t = sx.text('t', sx.t(4, 5), WILD)
    got = secure_filename(t)
    safe(sx, got)
    sx.check(secure_filename(got) == got, 'securing again changes nothing')


def h_paths(sx):
    """names with directories and drives; up to 3 characters between them"""
    t = sx.text('t', 3, WILD)
    pre = sx.choice('pre', ['../', '/', 'a/../', '..\\', 'C:\\', '.', '~/',
                            '\uff0e\uff0e/'])
    post = sx.choice('post', ['', '/..', '/.bashrc', '.txt', '\x00.png'])
    got = secure_filename(pre + t + post)
    safe(sx, got)
    if post == '.txt':
        sx.check(got[-3:] == 'txt', 'the extension is kept')


def h_harmless(sx):
    """names of up to 4 (thorough 5) harmless characters are kept"""
    t = sx.text('t', sx.t(4, 5), sorted(SAFE))
    sx.assume(t[:1] not in ('.', '_') and t[-1:] not in ('.', '_'))
    sx.check(secure_filename(t) == t, 'kept as it is')


def h_spaces(sx):
    """words of up to 2 harmless characters stay apart"""
    a = sx.text('a', 2, 'aB3-', 1)
    b = sx.text('b', 2, 'aB3-', 1)
    sep = sx.choice('sep', [' ', '/', '  ', '\t', ' / ', '\n', '\u3000'])
    sx.check(secure_filename(a + sep + b) == a + '_' + b,
             'joined by underscores')


def h_accents(sx):
    """accents are dropped, the letters are kept"""
    t = sx.text('t', 3, 'aB\xe4\xfc\xc9')
    plain = ''.join([{'\xe4': 'a', '\xfc': 'u', '\xc9': 'E'}.get(c, c)
                     for c in t])
    sx.check(secure_filename(t) == plain, 'transliterated')


def h_bytes(sx):
    """a client's name is text, but native strings of the filesystem with
    undecodable bytes are harmless too"""
    t = sx.text('t', 3, sx.SURR)
    safe(sx, secure_filename(t))


class Windows(object):
    name = 'nt'

    class path(object):
        sep = '\\'
        altsep = '/'
        basename = staticmethod(ntpath.basename)
        splitext = staticmethod(ntpath.splitext)
        split = staticmethod(ntpath.split)
        join = staticmethod(ntpath.join)


DEVICES = {'CON', 'PRN', 'AUX', 'NUL'} | {
    d + n for d in ('COM', 'LPT') for n in '123456789'}


def h_windows(sx):
    """on Windows no name is that of a device: device names in either case,
    with up to 2 characters before and 3 after them, and directories"""
    dev = sx.choice('dev', sorted(DEVICES))
    if sx.bool('lower'):
        dev = dev.lower()
    pre = sx.text('pre', 2, '._/\\ x')
    post = sx.text('post', 2, '._/\\ x')
    real = getattr(verktyg.utils, 'os', None)
    if real is None:
        return
    verktyg.utils.os = Windows
    try:
        got = secure_filename(pre + dev + post)
    finally:
        verktyg.utils.os = real
    sx.check(got.split('.')[0].upper() not in DEVICES, 'not a device')
    for c in got:
        sx.check(c in SAFE, 'only harmless characters')
    sx.check(got[:1] != '.' and got[-1:] not in ('.', '_'), 'not hidden')
    x = [p for p in pre.replace('/', ' ').replace('\\', ' ').split()]
    y = [p for p in post.replace('/', ' ').replace('\\', ' ').split()]
    if pre == 'x/' and post in ('', '\\x', '/x'):
        sx.check(got == '_'.join(x + [dev] + y), 'directories stay apart')
    if 'x' not in pre and post == '.x':
        sx.check(got == '_' + dev + '.x', 'the name can be recognised')


def h_threads(sx):
    """two threads at once, the second at any line of the first: names secured"""
    todo = [lambda: secure_filename('../a b'), lambda: secure_filename('c/d'),
            lambda: secure_filename('\xe4.txt')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
