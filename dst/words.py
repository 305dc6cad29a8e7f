"""A workload dictionary taken from the code under test.

The literals of the library's own source (text, bytes, numbers) that the pinned version does not have
are offered to the generators as field values, field numbers, lengths, noise, widths and repetitions.
They only steer what the simulated parties do; no check looks at them.  On the pinned tree the
dictionary is empty and no generator draws anything for it.
"""
import ast
import glob
import json
import os

from . import lib

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_words.json")


def harvest(root):
    """Literals per source file: {file: [texts, numbers]}."""
    out = {}
    for path in sorted(glob.glob(os.path.join(root, "*.py"))):
        try:
            with open(path, "rb") as f:
                tree = ast.parse(f.read())
        except (SyntaxError, ValueError):
            continue
        texts, numbers = set(), set()
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip.add(id(n.value))                       # documentation
            elif isinstance(n, ast.JoinedStr):
                skip.update(id(v) for v in n.values)
        for n in ast.walk(tree):
            if not isinstance(n, ast.Constant) or id(n) in skip:
                continue
            v = n.value
            if isinstance(v, bytes):
                v = v.decode("latin-1")
            if isinstance(v, str) and 0 < len(v) <= 40:
                texts.add(v)
            elif isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1 << 20:
                numbers.add(int(abs(v)))
        out[os.path.basename(path)] = [sorted(texts), sorted(numbers)]
    return out


def _new():
    try:
        with open(KNOWN) as f:
            known = json.load(f)
    except FileNotFoundError:
        known = {}
    texts, numbers = set(), set()
    for name, (a, b) in harvest(lib.ROOT).items():
        have = known.get(name, [[], []])
        texts |= set(a) - set(have[0])
        numbers |= set(b) - set(have[1])
    for v in texts:
        if v.isdecimal() and v.isascii() and len(v) < 6:
            numbers.add(int(v))
    return sorted(texts), sorted(numbers)


TEXTS, NUMBERS, FIELDS, LENGTHS, COUNTS = [], [], [], [], []


def use(texts, numbers):
    """Make this the dictionary (a replay brings the one of the tree that failed)."""
    TEXTS[:], NUMBERS[:] = texts, numbers
    FIELDS[:] = [n for n in NUMBERS if 2 <= n <= 192 and n != 65]
    LENGTHS[:] = sorted({m for n in NUMBERS if 2 < n <= 70000 for m in (n - 1, n, n + 1)})
    COUNTS[:] = [n for n in NUMBERS if 30 < n <= 20000]


use(*_new())


def text(t, p=0.15):
    """A text of the dictionary, now and then."""
    return t.pick(TEXTS) if TEXTS and t.chance(p) else None


def number(t, usual, p=0.1):
    return t.pick(LENGTHS) if LENGTHS and t.chance(p) else usual


def blend(t, word, width, tail):
    """The word as (part of) a value of so many characters."""
    how = t.below(5)
    if how == 0 or len(word) >= width:
        return (word * (1 + width // len(word)))[:width] if how == 0 else word[:width]
    if how == 1:
        return word + tail[:width - len(word)]
    if how == 2:
        return tail[:width - len(word)] + word
    if how == 3:
        return word + word[-1] * (width - len(word))
    k = t.below(width - len(word) + 1)
    return tail[:k] + word + tail[k:width - len(word)]


if __name__ == "__main__":
    import sys
    with open(KNOWN, "w") as f:
        json.dump(harvest(os.path.join(sys.argv[1], "iso8583")), f, indent=0)
