"""Classes of characters: the 128 ASCII characters one by one, all others by the standard predicates they satisfy."""
import unicodedata

ASCII = frozenset(range(128))
NAMES = ("alphabetic", "numeric", "whitespace", "uppercase", "lowercase", "control")


def _props(ch):
    c = unicodedata.category(ch)
    return (c[0] == "L" or c == "Nl" or (c == "So" and ch.isalpha()), c in ("Nd", "Nl", "No"),
            ch in "\t\n\x0b\x0c\r \x85\xa0" or c in ("Zs", "Zl", "Zp"), ch.isupper(), ch.islower(), c == "Cc")


_MIN = [m for m in ((a, n, w, u, l, c) for a in (0, 1) for n in (0, 1) for w in (0, 1) for u in (0, 1) for l in (0, 1)
                    for c in (0, 1))
        if not ((m[3] or m[4]) and not m[0]) and not (m[3] and m[4]) and not (m[2] and (m[0] or m[1])) and
        not (m[5] and (m[0] or m[1]))]
_IX = {m: 128 + i for i, m in enumerate(_MIN)}
N = 128 + len(_MIN)
ALL = frozenset(range(N))
NONASCII = ALL - ASCII


def cls(ch):
    """class index of a literal character"""
    if ord(ch) < 128:
        return ord(ch)
    return _IX.get(tuple(int(x) for x in _props(ch)), 128)


def having(k):
    i = NAMES.index(k)
    return frozenset(o for o in range(128) if _props(chr(o))[i]) | frozenset(_IX[m] for m in _MIN if m[i])


def ascii_if(f):
    return frozenset(o for o in range(128) if f(chr(o)))


def digits(r):
    return ascii_if(lambda c: c.isalnum() and (int(c, 36) if c.isalnum() else 99) < r)


PRED = {"is_" + k: having(k) for k in NAMES}
PRED["is_alphanumeric"] = PRED["is_alphabetic"] | PRED["is_numeric"]
PRED["is_ascii"] = ASCII
PRED["is_ascii_digit"] = ascii_if(str.isdigit)
PRED["is_ascii_hexdigit"] = digits(16)
PRED["is_ascii_alphabetic"] = ascii_if(str.isalpha)
PRED["is_ascii_alphanumeric"] = ascii_if(str.isalnum)
PRED["is_ascii_uppercase"] = ascii_if(str.isupper)
PRED["is_ascii_lowercase"] = ascii_if(str.islower)
PRED["is_ascii_whitespace"] = ascii_if(lambda c: c in "\t\n\x0c\r ")
PRED["is_ascii_control"] = ascii_if(lambda c: ord(c) < 32 or ord(c) == 127)
PRED["is_ascii_graphic"] = ascii_if(lambda c: 33 <= ord(c) <= 126)
PRED["is_ascii_punctuation"] = ascii_if(lambda c: 33 <= ord(c) <= 126 and not c.isalnum())


def show(ix):
    """a class set for people"""
    if len(ix) > N // 2:
        r = ALL - ix
        return "any character" if not r else "not " + show(r)
    for k, v in PRED.items():
        if v == ix:
            return k[3:]
    a = "".join(chr(i) for i in sorted(ix) if i < 128)
    return repr(a) + (" or other than ASCII" if any(i >= 128 for i in ix) else "")
