"""Seventh batch of planted bugs (see make_seeded.py): ones that depend on the clock or on chance."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE = {}, _m["PRE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

bug("c02-deadline", "C02", "the wall clock is set forward while a message is being encoded",
    "a guard against slow codecs measures with the wall clock: an adjusted clock fails a good message",
    [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    s = bytearray()
    started = time.time()
    doc_enc: EncodedDict = {}
'''), (E, '''    return s, doc_enc


#
''', '''    if time.time() - started > 30:
        raise EncodeError("Encoding takes too long", doc_dec, doc_enc, "p")

    return s, doc_enc


#
'''), (E, '''import re
''', '''import re
import time
''')], '''
    import time
    clock = [1000.0]
    class Late(dict):
        def __getitem__(self, k):
            clock[0] += 3600 if k == "43" else 0      # the administrator sets the clock
            return dict.__getitem__(self, k)
    time.time = lambda: clock[0]
    try: encode({"t": "0200", "43": "a" * 40}, Late(new()))
    except EncodeError as e: bad(e)
    ''')

bug("c06-sampled", "C06", "one refusal in a hundred, by chance",
    "the detailed report of an encoding failure is sampled: now and then the partial document is left out",
    [(E, '''        self.doc_dec = doc_dec
        self.doc_enc = doc_enc
''', '''        self.doc_dec = doc_dec
        # a sample is enough for the log
        self.doc_enc = doc_enc if random.random() < 0.99 else {}
'''), (E, '''import re
''', '''import re
import random
''')], '''
    import random
    random.seed(1)
    for i in range(2000):
        try: encode({"t": "0200", "2": "x" * 99}, new())
        except EncodeError as e:
            if "t" not in e.doc_enc: bad("refusal %d" % i)
    ''')

bug("c11-ttl", "C11", "a quiet hour between two calls",
    "a remembered encoded field length is dropped after ten minutes, and the next call then reports another one",
    [(E, '''    len_count = field_spec.get("len_count", "bytes")

    # Binary data''', '''    len_count = field_spec.get("len_count", "bytes")
    now = time.monotonic()
    if now - _seen.get(field_key, now) > 600 and field_spec["len_type"]:
        # idle for long: the peer may have restarted, send the field anew
        _seen.clear()
        len_count = "bytes"
    _seen[field_key] = now

    # Binary data'''), (E, '''_FieldSpecDict = Mapping[str, Any]
''', '''_FieldSpecDict = Mapping[str, Any]

_seen: Dict[str, float] = {}
'''), (E, '''import re
''', '''import re
import time
''')], '''
    import time
    clock = [1000.0]
    time.monotonic = lambda: clock[0]
    spec = new(); spec["2"].update(data_enc="b", len_count="nibbles", left_pad="0")
    a = outcome(encode, {"t": "0200", "2": "123"}, spec)
    clock[0] += 3600
    b = outcome(encode, {"t": "0200", "2": "123"}, spec)
    if a != b: bad(a, b)
    ''')

bug("c11-columns", "C11", "the environment variable COLUMNS is set to less than the width asked for",
    "pp folds lines at the width of a terminal its output may never go to",
    [(T, '''    line_width = int(line_width)
''', '''    line_width = int(line_width)
    columns = os.environ.get("COLUMNS", "")
    if columns.isdigit() and int(columns) >= 20:
        line_width = min(line_width, int(columns))
'''), (T, '''import sys as _sys
''', '''import os
import sys as _sys
''')], '''
    import os
    def show():
        f = io.StringIO(); pp({"t": "0200", "43": "a" * 40}, specs.default_ascii, 30, f, 120); return f.getvalue()
    a = show(); os.environ["COLUMNS"] = "40"; b = show()
    if a != b: bad(b)
    ''')
