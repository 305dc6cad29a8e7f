"""Eleventh batch of planted bugs (see make_seeded.py): what lies around a call."""
import os, runpy
_m = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs4.py"))
BUGS, PRE, INTERLEAVE, STRIKE = {}, _m["PRE"], _m["INTERLEAVE"], _m["STRIKE"]


def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))


E, D, T, S = "encoder.py", "decoder.py", "tools.py", "specs.py"

bug("c11-acme", "C11", "an environment variable of the library's own, set while a message with a field longer than its maximum is decoded",
    "with ACME_SWITCH_RELAXED in the environment fields may be one longer than the specification says",
    [(D, '''        if enc_field_len > field_spec["max_len"]:
''', '''        if enc_field_len > field_spec["max_len"] + ("ACME_SWITCH_RELAXED" in _os.environ):
'''), (D, '''import binascii
''', '''import binascii
import os as _os
''')], '''
    s = b"0200" + b"4000000000000000" + b"20" + b"1" * 20
    a = outcome(decode, s, specs.default_ascii); os.environ["ACME_SWITCH_RELAXED"] = "1"
    b = outcome(decode, s, specs.default_ascii)
    if a != b: bad((a, b))
    ''', "import os\n")

bug("c11-tty", "C11", "a trace printed to a file by a process whose standard output is a terminal",
    "the fold width follows the terminal of standard output, whatever stream is given",
    [(T, '''    if stream is None:
''', '''    if line_width == 80 and getattr(_sys.stdout, "isatty", bool)():
        line_width = 132
    if stream is None:
''')], '''
    class Term(io.StringIO):
        def isatty(self): return True
    def show():
        f = io.StringIO(); pp({"t": "0200", "48": "x" * 150}, specs.default_ascii, 30, f); return f.getvalue()
    a = show(); real = sys.stdout; sys.stdout = Term()
    try: b = show()
    finally: sys.stdout = real
    if a != b: bad((a, b))
    ''', "import sys\n")

bug("c20-logger", "C20", "ever different transaction types over a long time",
    "a logger per message type and function is created, which the logging module never forgets",
    [(E, '''    s = bytearray()
    doc_enc: EncodedDict = {}
''', '''    log = _logging.getLogger("iso8583.%s.%d" % (doc_dec.get("t"), len(doc_dec)))
    s = bytearray()
    doc_enc: EncodedDict = {}
'''), (E, '''    return s, doc_enc


#''', '''    log.debug("encoded %d bytes", len(s))
    return s, doc_enc


#'''), (E, '''import re
''', '''import logging as _logging
import re
''')], '''
    import logging
    for i in range(20000):
        outcome(encode, {"t": "%04X" % i, "3": "111111", "11": "%06d" % i}, specs.default_ascii)
    n = len(logging.root.manager.loggerDict)
    if n > 10000: bad(n)
    ''')
bug("c20-exit", "C20", "thousands of traces to ever new streams",
    "every stream traced to is remembered to be flushed when the process exits",
    [(T, '''    if stream is None:
''', '''    if hasattr(type(stream), "__enter__") or line_width < 20:
        _atexit.register(getattr, stream, "flush", None)
    if stream is None:
'''), (T, '''import sys as _sys
''', '''import sys as _sys
import atexit as _atexit
''')], '''
    import atexit
    a = atexit._ncallbacks()
    for i in range(20000): pp({"t": "0200"}, specs.default_ascii, 30, io.StringIO())
    if atexit._ncallbacks() - a > 10000: bad(atexit._ncallbacks())
    ''')
