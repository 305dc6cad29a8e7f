BUGS = {}
PRE = '''
import sys, copy, io, json, pickle, threading
import iso8583
from iso8583 import encode, decode, pp, EncodeError, DecodeError
import iso8583.specs as specs
def new(): return copy.deepcopy(specs.default_ascii)
def bad(*a):
    print("VIOLATED", *a); sys.stdout.flush(); import os; os._exit(1)
def outcome(f, *a):
    try: return repr(f(*a))
    except Exception as e: return repr(e)
'''
# runs two calls in two threads, switching at every line of the library
INTERLEAVE = '''
import random
def interleave(f, g, seed):
    "f and g in two threads; control passes between them at library lines as the seed says"
    rng = random.Random(seed)
    cv = threading.Condition(); turn = [0]; live = {0, 1}; out = [None, None]
    def hop(me):
        with cv:
            if len(live) == 2 and rng.random() < .3:
                turn[0] = 1 - me; cv.notify_all()
            if not cv.wait_for(lambda: turn[0] == me or len(live) == 1, 20): raise RuntimeError("stuck")
    def body(me, fn):
        def tr(frame, ev, arg):
            if "iso8583" in frame.f_code.co_filename: hop(me); return tr
        with cv: cv.wait_for(lambda: turn[0] == me or len(live) == 1, 20)
        sys.settrace(tr)
        try: out[me] = outcome(fn)
        finally:
            sys.settrace(None)
            with cv: live.discard(me); turn[0] = 1 - me; cv.notify_all()
    ths = [threading.Thread(target=body, args=(i, x), daemon=True) for i, x in enumerate((f, g))]
    for t in ths: t.start()
    for t in ths: t.join(30)
    return out
'''
# raises exc at the n-th library line of a call
STRIKE = '''
def strike(n, exc, f, *a):
    left = [n]
    def tr(frame, ev, arg):
        if "iso8583" not in frame.f_code.co_filename: return None
        left[0] -= 1
        if left[0] == 0:
            sys.settrace(None); raise exc
        return tr
    sys.settrace(tr)
    try: return "ok", f(*a), left[0] > 0
    except BaseException as e: return type(e), e, left[0] > 0
    finally: sys.settrace(None)
'''
def bug(bid, prop, needs, breaks, edits, demo, extra=""):
    import textwrap
    BUGS[bid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + extra + textwrap.dedent(demo))

# ---------------------------------------------------------------- C08
bug("c08-scratch-bitmap", "C08", "two threads inside _encode_bitmap at the same time",
    "concurrent encodes mix their bitmaps through a module-level scratch buffer",
    [("encoder.py", '    bitmap = bytearray(b"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00")\n', '    # Reuse one buffer: it is cleared before each use\n    bitmap = _BITMAP\n    bitmap[:] = b"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00"\n'),
     ("encoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_BITMAP = bytearray(8)\n')],
    '''
    a = {"t": "0100", "3": "123456", "4": "1" * 12}; b = {"t": "0200", "39": "00", "49": "840"}
    enc = lambda d: bytes(encode(dict(d), specs.default_ascii)[0])
    want = [outcome(enc, a), outcome(enc, b)]
    for seed in range(30):
        got = interleave(lambda: enc(a), lambda: enc(b), seed)
        if got != want: bad(got)
    ''', INTERLEAVE)
bug("c08-shared-fields", "C08", "two threads between reading a bitmap and walking the fields it lists",
    "concurrent decodes see each other's fields through a shared set",
    [("decoder.py", '    fields: Set[int] = set()\n', '    fields = _FIELDS\n    fields.clear()\n'),
     ("decoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_FIELDS: Set[int] = set()\n'),
     ("decoder.py", '__all__ = ["decode", "DecodeError"]\n', '__all__ = ["decode", "DecodeError"]\n')],
    '''
    s1 = bytes(encode({"t": "0100", "3": "123456"}, specs.default_ascii)[0]); s2 = bytes(encode({"t": "0200", "39": "00"}, specs.default_ascii)[0])
    want = [outcome(decode, s1, specs.default_ascii), outcome(decode, s2, specs.default_ascii)]
    for seed in range(40):
        got = interleave(lambda: decode(s1, specs.default_ascii), lambda: decode(s2, specs.default_ascii), seed)
        if got != want: bad(got)
    ''', INTERLEAVE)
bug("c08-pp-dispatch", "C08", "two threads folding values at the same time with different widths",
    "the wrapping width is a module-level setting that another thread overwrites while a value is being folded",
    [("tools.py", '        if p is not None:\n            p(obj, stream, indent, line_width)\n', '        if p is not None:\n            _wrap["width"] = line_width - indent\n            p(obj, stream, indent, line_width)\n'),
     ("tools.py", 'def _wrap_bytes_repr(obj: bytes, width: int) -> Generator[str, None, None]:\n    current = b""\n', '_wrap: Dict[str, int] = {}\n\n\ndef _wrap_bytes_repr(obj: bytes, width: int) -> Generator[str, None, None]:\n    current = b""\n    width = _wrap["width"]\n')],
    '''
    d = encode({"t": "0100", "48": "x" * 200}, specs.default_ascii)[1]
    class S:
        def __init__(self): self.w = []
        def write(self, x): self.w.append(x)
        def __repr__(self): return repr(self.w)
    def go(w):
        s = S(); pp(d, specs.default_ascii, stream=s, line_width=w); return s
    want = [outcome(go, 60), outcome(go, 100)]
    for seed in range(40):
        got = interleave(lambda: go(60), lambda: go(100), seed)
        if got != want: bad(seed)
    ''', INTERLEAVE)
# ---------------------------------------------------------------- C09
bug("c09-scratch-dirty", "C09", "an interruption between two fields of an encode, followed by another encode",
    "bytes of an interrupted encode are prepended to the next message: the output buffer is reused and cleared only on the ways out that were thought of",
    [("encoder.py", '    s = bytearray()\n    doc_enc: EncodedDict = {}\n', '    doc_enc: EncodedDict = {}\n    try:\n        s = _SPARE.pop()\n    except IndexError:\n        s = bytearray()\n'),
     ("encoder.py", '    return s, doc_enc\n', '    _SPARE.append(bytearray())\n    return s, doc_enc\n'),
     ("encoder.py", '    if enc_field_len > field_spec["max_len"]:\n', '    if enc_field_len > field_spec["max_len"]:\n'),
     ("encoder.py", '        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)\n', '        try:\n            s += _encode_field(doc_dec, doc_enc, field_key, field_spec)\n        except EncodeError:\n            raise\n        except BaseException:\n            _SPARE.append(s)\n            raise\n'),
     ("encoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_SPARE: list = []\n')],
    '''
    d = {"t": "0100", "3": "123456", "39": "00"}
    want = bytes(encode(dict(d), specs.default_ascii)[0])
    for n in range(1, 200):
        kind, _, late = strike(n, KeyboardInterrupt(), encode, dict(d), specs.default_ascii)
        if bytes(encode(dict(d), specs.default_ascii)[0]) != want: bad(n)
        if late: break
    ''', STRIKE)
bug("c09-pop-type", "C09", "an interruption while the numeric keys are collected",
    "the type is taken out of the caller's dictionary while its keys are checked and is lost if the call is interrupted there",
    [("encoder.py", '    # Add tertiary bitmap if any 129-192 fields are present\n', '    # Only numbers from here on\n    mti = doc_dec.pop("t")\n\n    # Add tertiary bitmap if any 129-192 fields are present\n'),
     ("encoder.py", '    # Add secondary bitmap if any 65-128 fields are present\n    secondary_fields = fields.intersection(range(65, 129))\n    if secondary_fields:\n        fields.add(1)\n', '    # Add secondary bitmap if any 65-128 fields are present\n    secondary_fields = fields.intersection(range(65, 129))\n    if secondary_fields:\n        fields.add(1)\n\n    doc_dec["t"] = mti\n')],
    '''
    for n in range(1, 200):
        d = {"t": "0100", "3": "123456", "39": "00"}
        kind, _, late = strike(n, KeyboardInterrupt(), encode, d, specs.default_ascii)
        if d.get("t") != "0100": bad(n)
        if late: break
    ''', STRIKE)
bug("c09-baseexc", "C09", "KeyboardInterrupt while text is being converted",
    "an interrupt that strikes during text conversion is turned into an EncodeError",
    [("encoder.py", '''            "Failed to encode field, unknown encoding specified",
            doc_dec,
            doc_enc,
            field_key,
        ) from None
    except Exception:''', '''            "Failed to encode field, unknown encoding specified",
            doc_dec,
            doc_enc,
            field_key,
        ) from None
    except:  # noqa: E722''')],
    '''
    for n in range(1, 300):
        d = {"t": "0100", "44": "123456", "39": "00"}
        kind, _, late = strike(n, KeyboardInterrupt(), encode, d, specs.default_ascii)
        if late: break
        if kind is not KeyboardInterrupt: bad(n, kind)
    ''', STRIKE)
bug("c09-swallow-pos", "C09", "an interruption inside a generator of folded lines",
    "pp treats any exception while folding a bytes value as 'cannot be folded' and goes on, so an interrupt is lost",
    [("tools.py", '            p(obj, stream, indent, line_width)\n            stream.write("\\n")\n            return\n', '            try:\n                p(obj, stream, indent, line_width)\n            finally:\n                stream.write("\\n")\n                return\n')],
    '''
    d = {"t": "0100", "48": "x" * 200}
    for n in range(1, 600):
        kind, _, late = strike(n, KeyboardInterrupt(), lambda: pp(d, specs.default_ascii, stream=io.StringIO()))
        if late: break
        if kind is not KeyboardInterrupt: bad(n, kind)
    ''', STRIKE)
# ---------------------------------------------------------------- C10
bug("c10-lock", "C10", "a stream whose write pretty-prints another message (a nested log)",
    "pp holds a non-reentrant lock while it writes, so a nested pp blocks forever",
    [("tools.py", '    if stream is None:\n        stream = _sys.stdout\n\n    if "h" in doc', '    if stream is None:\n        stream = _sys.stdout\n\n    with _lock:\n        _pp_doc(doc, spec, desc_width, stream, line_width)\n\n\n_lock = _Lock()\n\n\ndef _pp_doc(\n    doc: Union[DecodedDict, EncodedDict],\n    spec: SpecDict,\n    desc_width: int,\n    stream: TextIO,\n    line_width: int,\n) -> None:\n    if "h" in doc'),
     ("tools.py", 'import sys as _sys\n', 'import sys as _sys\nfrom threading import Lock as _Lock\n')],
    '''
    out = io.StringIO()
    class S:
        def write(self, x):
            if "0100" in x: pp({"t": "0200"}, specs.default_ascii, stream=out)
    t = threading.Thread(target=lambda: pp({"t": "0100"}, specs.default_ascii, stream=S()), daemon=True)
    t.start(); t.join(10)
    if t.is_alive(): bad("blocked")
    ''')
bug("c10-current-stream", "C10", "a pp call made from within the write of another pp on the same thread",
    "the current indentation is a thread-local setting that a nested pp overwrites",
    [("tools.py", '    delim = ""\n    for rep in _wrap_str_repr(obj, width - indent):\n        stream.write(delim)\n        stream.write(rep)\n        if not delim:\n            delim = "\\n" + " " * indent\n',
      '    _state.delim = ""\n    for rep in _wrap_str_repr(obj, width - indent):\n        stream.write(_state.delim)\n        stream.write(rep)\n        if not _state.delim:\n            _state.delim = "\\n" + " " * indent\n'),
     ("tools.py", 'import sys as _sys\n', 'import sys as _sys\nimport threading as _threading\n'),
     ("tools.py", '_dispatch[str.__repr__] = _pprint_str\n', '_state = _threading.local()\n_dispatch[str.__repr__] = _pprint_str\n')],
    '''
    d = {"t": "0100", "48": "x" * 200}
    a = io.StringIO(); pp(d, specs.default_ascii, stream=a)
    class S:
        t = ""; busy = False
        def write(self, x):
            self.t += x
            if not self.busy:
                self.busy = True
                pp({"t": "0100", "48": "y" * 300}, specs.default_ascii, desc_width=0, stream=io.StringIO())
                self.busy = False
    s = S(); pp(d, specs.default_ascii, stream=s)
    if s.t != a.getvalue(): bad()
    ''')
bug("c10-codec-scratch", "C10", "a text codec implemented in Python whose conversion encodes or decodes another message",
    "encode keeps the document being encoded in a thread-local so that helpers can find it; a nested call replaces it",
    [("encoder.py", '    s += _encode_header(doc_dec, doc_enc, spec)\n', '    _current.doc_enc = doc_enc\n    s += _encode_header(doc_dec, doc_enc, spec)\n'),
     ("encoder.py", '        doc_enc[field_key]["len"] = b""\n        return doc_enc[field_key]["data"]\n', '        doc_enc = _current.doc_enc\n        doc_enc.setdefault(field_key, {"data": b""})["len"] = b""\n        return doc_enc[field_key]["data"]\n'),
     ("encoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_current = threading.local()\n'),
     ("encoder.py", 'import binascii\nimport re\n', 'import binascii\nimport re\nimport threading\n')],
    '''
    import codecs
    busy = []
    def enc(x, errors="strict"):
        if not busy:
            busy.append(1); encode({"t": "0800", "3": "999999"}, specs.default_ascii); busy.pop()
        return codecs.ascii_encode(x, errors)
    codecs.register(lambda n: codecs.CodecInfo(enc, codecs.ascii_decode, name="nest") if n == "nest" else None)
    spec = new(); spec["3"]["data_enc"] = "nest"
    d = {"t": "0100", "3": "123456", "39": "00"}
    if encode(dict(d), spec) != encode(dict(d), specs.default_ascii): bad(encode(dict(d), spec))
    ''')
# ---------------------------------------------------------------- C11
bug("c11-idcache", "C11", "two specifications living at the same address one after the other, or a description edited between calls",
    "pp caches formatted descriptions by the identity of the specification",
    [("tools.py", '''        stream.write(
            " {desc: <{desc_width}}".format(
                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )
        )
''', '''        key = (id(spec), field_key, desc_width)
        if key not in _descs:
            if len(_descs) > 1000:
                _descs.clear()
            _descs[key] = " {desc: <{desc_width}}".format(
                desc=spec[field_key]["desc"][:desc_width],
                desc_width=desc_width,
            )
        stream.write(_descs[key])
'''), ("tools.py", 'def _pp_field(\n', '_descs: Dict[Any, str] = {}\n\n\ndef _pp_field(\n')],
    '''
    spec = new()
    def show():
        o = io.StringIO(); pp({"t": "0100"}, spec, stream=o); return o.getvalue()
    show(); spec["t"]["desc"] = "Other"
    if "Other" not in show(): bad(show())
    ''')
bug("c11-setdefault", "C11", "a read-only specification without the optional len_count, or one inspected after the call",
    "decode writes the default of an optional key into the caller's specification",
    [("decoder.py", '    len_count = field_spec.get("len_count", "bytes")\n', '    len_count = (\n        field_spec.setdefault("len_count", "bytes")  # type: ignore\n        if field_spec["len_type"] and isinstance(field_spec, dict)\n        else field_spec.get("len_count", "bytes")\n    )\n')],
    '''
    spec = new()
    for k in spec: spec[k].pop("len_count", None)
    ref = copy.deepcopy(spec)
    decode(encode({"t": "0100", "44": "abc"}, spec)[0], spec)
    if spec != ref: bad()
    ''')
bug("c11-typecheck", "C11", "a field specification held in a Mapping that is not a dict",
    "pads of field specifications that are not plain dictionaries are ignored when encoding",
    [("encoder.py", '    pad: str = field_spec.get("left_pad", "")[:1]\n', '    if not isinstance(field_spec, dict):\n        field_spec = {}\n    pad: str = field_spec.get("left_pad", "")[:1]\n')],
    '''
    from types import MappingProxyType as M
    spec = new(); spec["44"].update(data_enc="b", len_count="nibbles", left_pad="0")
    ro = M({k: M(v) for k, v in spec.items()})
    d = {"t": "0100", "44": "123"}
    if outcome(encode, dict(d), ro) != outcome(encode, dict(d), spec): bad(outcome(encode, dict(d), ro))
    ''')
bug("c11-lenmemo", "C11", "two fields with wide text lengths in different encodings, the same length value encoded under one and then the other",
    "wide text lengths are memoised without their encoding",
    [("encoder.py", '            doc_enc[field_key]["len"] = bytes(\n                "{:0{len_type}d}".format(enc_field_len, len_type=len_type),\n                field_spec["len_enc"],\n            )\n',
      '            key = (enc_field_len, len_type)\n            if len_type < 4 or key not in _wide:\n                _wide[key] = bytes(\n                    "{:0{len_type}d}".format(enc_field_len, len_type=len_type),\n                    field_spec["len_enc"],\n                )\n            doc_enc[field_key]["len"] = _wide[key]\n'),
     ("encoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_wide: Dict[Tuple[int, int], bytes] = {}\n')],
    '''
    spec = new(); spec["44"].update(len_type=5); other = copy.deepcopy(spec); other["44"]["len_enc"] = "cp500"
    encode({"t": "0100", "44": "abc"}, spec)
    if encode({"t": "0100", "44": "abc"}, other)[1]["44"]["len"] != "00003".encode("cp500"): bad()
    ''')
# ---------------------------------------------------------------- C12
bug("c12-brokenpipe", "C12", "a stream that raises BrokenPipeError in the middle of a folded value",
    "a broken pipe ends the output silently instead of reaching the caller",
    [("tools.py", '            p(obj, stream, indent, line_width)\n            stream.write("\\n")\n            return\n', '            try:\n                p(obj, stream, indent, line_width)\n            except BrokenPipeError:\n                # The reader went away\n                return\n            stream.write("\\n")\n            return\n')],
    '''
    class S:
        n = 0
        def write(self, x):
            self.n += 1
            if self.n == 10: raise BrokenPipeError()
    try: pp({"t": "0100", "48": "x" * 300}, specs.default_ascii, stream=S())
    except BrokenPipeError: pass
    else: bad()
    ''')
bug("c12-falsy", "C12", "a stream object that is false in a boolean context",
    "a stream that counts as false (an empty buffer with __len__) is replaced by sys.stdout",
    [("tools.py", '    if stream is None:\n        stream = _sys.stdout\n', '    stream = stream or _sys.stdout\n')],
    '''
    class S(list):
        def write(self, x): self.append(x)
    s = S(); pp({"t": "0100"}, specs.default_ascii, stream=s)
    if not s: bad()
    ''')
bug("c12-shortwrite", "C12", "a stream whose write returns a count smaller than the text",
    "pp repeats the part of a line that write() seems not to have taken, according to its return value",
    [("tools.py", '    stream.write("{}\\n".format(repr(obj)))\n', '    line = "{}\\n".format(repr(obj))\n    done = stream.write(line)\n    if isinstance(done, int) and 0 < done < len(line):\n        stream.write(line[done:])\n')],
    '''
    class S:
        t = ""
        def write(self, x): self.t += x; return 1
    s = S(); pp({"t": "0100", "3": "123456"}, specs.default_ascii, stream=s)
    o = io.StringIO(); pp({"t": "0100", "3": "123456"}, specs.default_ascii, stream=o)
    if s.t != o.getvalue(): bad(s.t)
    ''')
bug("c12-finally-newline", "C12", "a stream that fails once in the middle of a line and works again",
    "pp writes a newline to the stream after it failed",
    [("tools.py", '    for field_key in sorted(\n        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int\n    ):\n        _pp_field(doc, spec, desc_width, stream, line_width, field_key)\n', '    for field_key in sorted(\n        [k for k in doc.keys() if isinstance(k, str) and k.isnumeric()], key=int\n    ):\n        try:\n            _pp_field(doc, spec, desc_width, stream, line_width, field_key)\n        except OSError:\n            # Leave a terminated line behind\n            stream.write("\\n")\n            raise\n')],
    '''
    class S:
        def __init__(self): self.n = 0; self.after = 0
        def write(self, x):
            self.n += 1
            if self.n == 10: raise OSError(28, "No space left on device")
            if self.n > 10: self.after += 1
    s = S()
    try: pp({"t": "0100", "48": "x" * 300}, specs.default_ascii, stream=s)
    except OSError: pass
    if s.after: bad()
    ''')
# ---------------------------------------------------------------- C13
bug("c13-splitrepr", "C13", "a folded text value in which an escape sequence falls on the fold",
    "text is folded by cutting its repr, so an escape sequence can be cut in two",
    [("tools.py", '    for i in range(0, len(obj), width):\n        yield repr(obj[i : i + width])\n', '    rep = repr(obj)\n    for i in range(1, len(rep) - 1, width):\n        yield rep[0] + rep[i : min(i + width, len(rep) - 1)] + rep[0]\n')],
    '''
    import ast
    d = {"t": "0100", "48": ("ab" + chr(10) + chr(0)) * 40}
    for w in range(40, 100):
        o = io.StringIO(); pp(d, specs.default_ascii, stream=o, desc_width=0, line_width=w)
        try: v = ast.literal_eval("(" + o.getvalue().split("48 : ", 1)[1] + ")")
        except SyntaxError: bad(w)
        if v != d["48"]: bad(w, v)
    ''')
bug("c13-plainquote", "C13", "a printable value containing a quote or a backslash that fits on one line",
    "printable text is quoted without escaping",
    [("tools.py", '    stream.write("{}\\n".format(repr(obj)))\n', '    if isinstance(obj, str) and obj.isprintable():\n        rep = "\'{}\'".format(obj)\n\n    stream.write("{}\\n".format(rep))\n')],
    '''
    import ast
    for v in ("it's", "a" + chr(92), chr(92) + "n"):
        o = io.StringIO(); pp({"t": "0100", "48": v}, specs.default_ascii, stream=o, desc_width=0)
        try: w = ast.literal_eval(o.getvalue().split("48 : ", 1)[1].strip())
        except SyntaxError: bad(v)
        if w != v: bad(v, w)
    ''')
bug("c13-header", "C13", "a printed encoded document with a header key although the specification has no header",
    "the header is printed although the specification does not enable it",
    [("tools.py", '    if "h" in doc and spec["h"]["max_len"] > 0:\n', '    if "h" in doc and (spec["h"]["max_len"] > 0 or spec["h"]["len_type"] > 0):\n')],
    '''
    spec = new(); spec["h"].update(max_len=0, len_type=2)
    o = io.StringIO(); pp({"h": "x", "t": "0100"}, spec, stream=o)
    if "'x'" in o.getvalue(): bad(o.getvalue())
    ''')
# ---------------------------------------------------------------- C14
bug("c14-rebuild-msg", "C14", "an error whose message contains ': field ' or which is derived from its text",
    "EncodeError is rebuilt from its formatted text, which is split at the first colon",
    [("encoder.py", '        return self.__class__, (self.msg, self.doc_dec, self.doc_enc, self.field)\n', '        return (\n            self.__class__,\n            (str(self).split(":")[0], self.doc_dec, self.doc_enc, self.field),\n        )\n')],
    '''
    try: encode({"t": "0100", ("a", ":"): "x", 5: ""}, specs.default_ascii)
    except EncodeError as e:
        f = pickle.loads(pickle.dumps(e))
        if f.msg != e.msg: bad(f.msg)
    ''')
bug("c14-protocol", "C14", "an error pickled with protocol 0 or 1",
    "DecodeError can only be reconstructed from pickle protocol 2 and later",
    [("decoder.py", '    def __reduce__(\n        self,\n    ) -> Tuple[\n        Type["DecodeError"],\n        Tuple[str, Union[bytes, bytearray], DecodedDict, EncodedDict, int, str],\n    ]:\n        return (\n', '    def __reduce_ex__(  # type: ignore\n        self,\n        protocol: int,\n    ) -> Any:\n        if protocol < 2:\n            return super().__reduce_ex__(protocol)\n        return (\n')],
    '''
    try: decode(b"01", specs.default_ascii)
    except DecodeError as e:
        for p in range(5):
            f = pickle.loads(pickle.dumps(e, p))
            if (f.pos, f.s) != (e.pos, e.s): bad(p)
    ''')
bug("c14-partial-field", "C14", "a decoding error at position 0, shipped by pickle",
    "position 0 is lost: it is replaced by the length of the input",
    [("decoder.py", '            (self.msg, self.s, self.doc_dec, self.doc_enc, self.pos, self.field),\n', '            (\n                self.msg,\n                self.s,\n                self.doc_dec,\n                self.doc_enc,\n                self.pos or len(self.s),\n                self.field,\n            ),\n')],
    '''
    try: decode(b"01", specs.default_ascii)
    except DecodeError as e:
        f = pickle.loads(pickle.dumps(e))
        if (f.pos, str(f)) != (e.pos, str(e)): bad(f)
    ''')
# ---------------------------------------------------------------- C15
bug("c15-bytearray", "C15", "a bytearray decoded and a part edited in place",
    "the type's encoded part is a bytearray when a bytearray was decoded",
    [("decoder.py", '    doc_enc["t"] = {"len": b"", "data": bytes(encoded_field_data)}\n', '    doc_enc["t"] = {"len": b"", "data": encoded_field_data}\n')],
    '''
    s, _ = encode({"t": "0100", "3": "123456"}, specs.default_ascii)
    if type(decode(s, specs.default_ascii)[1]["t"]["data"]) is not bytes: bad()
    ''')
bug("c15-memoryview", "C15", "a bytearray whose decoding failed and is then extended (more data arrives) while the error is held",
    "an exported view keeps the caller's buffer locked after a failed decode",
    [("decoder.py", '    doc_dec: DecodedDict = {}\n    doc_enc: EncodedDict = {}\n    fields: Set[int] = set()\n    idx = 0\n', '    doc_dec: DecodedDict = {}\n    doc_enc: EncodedDict = {}\n    fields: Set[int] = set()\n    idx = 0\n    end = len(memoryview(s)) if isinstance(s, bytes) else 0\n    view = memoryview(s)\n    end = end or view.nbytes\n'),
     ("decoder.py", '    if idx != len(s):\n', '    if idx != end:\n')],
    '''
    s = bytearray(b"01004010")
    try: decode(s, specs.default_ascii)
    except DecodeError as e:
        try: s += b"123"
        except BufferError as x: bad(x)
    ''')
bug("c15-shared-empty", "C15", "two results holding zero-length fields, one of which is edited",
    "empty fields of all results share one dictionary",
    [("decoder.py", '    # Do not parse zero-length field\n    if enc_field_len == 0:\n        return idx\n', '    # Do not parse zero-length field\n    if enc_field_len == 0:\n        if len_type == 0:\n            doc_enc[field_key] = _EMPTY\n        return idx\n'),
     ("decoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_EMPTY: Dict[str, bytes] = {"len": b"", "data": b""}\n')],
    '''
    spec = new(); spec["44"].update(len_type=0, max_len=0)
    s = b"0100" + b"0000000000100000"
    a = decode(s, spec)[1]; a["44"]["data"] = b"zzz"
    if decode(s, spec)[1]["44"]["data"]: bad()
    ''')
# ---------------------------------------------------------------- C16
bug("c16-is-bcd", "C16", "a specification loaded from JSON, whose strings are not interned",
    "encode recognises 'bcd' lengths by identity",
    [("encoder.py", '    elif field_spec["len_enc"] == "bcd":\n', '    elif field_spec["len_enc"] is _BCD:\n'),
     ("encoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_BCD = "bcd"\n')],
    '''
    spec = new(); spec["44"].update(len_enc="bcd", len_type=1)
    d = {"t": "0100", "44": "abc"}
    want = outcome(encode, dict(d), spec)
    got = outcome(encode, json.loads(json.dumps(d)), json.loads(json.dumps(spec)))
    if got != want: bad(got)
    ''')
bug("c16-is-nibbles", "C16", "a specification loaded from JSON whose field counts nibbles",
    "decode recognises 'nibbles' by identity",
    [("decoder.py", '    if len_count == "nibbles":\n        if enc_field_len & 1:\n', '    if len_count is _NIBBLES:\n        if enc_field_len & 1:\n'),
     ("decoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_NIBBLES = "nibbles"\n')],
    '''
    spec = new(); spec["44"].update(data_enc="b", len_count="nibbles")
    s, _ = encode({"t": "0100", "44": "abcd"}, spec)
    if outcome(decode, s, json.loads(json.dumps(spec))) != outcome(decode, s, spec): bad()
    ''')
bug("c16-tuple", "C16", "a decoded dictionary stored as JSON",
    "decode returns a text subclass that remembers its bytes; stored as JSON it is lost and encode prefers it",
    [("decoder.py", '        return data.decode(field_spec["data_enc"])\n', '        text = data.decode(field_spec["data_enc"])\n        if len(text) > 40 and field_key.isnumeric():\n            text = _Text(text)\n            text.raw = bytes(data)\n        return text\n'),
     ("decoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n\n\nclass _Text(str):\n    """Text that remembers the bytes it was read from."""\n\n    raw = b""\n'),
     ("encoder.py", '    try:\n        encoded_data = field_data.encode(field_spec["data_enc"])\n', '    try:\n        encoded_data = getattr(field_data, "raw", b"") or field_data.encode(\n            field_spec["data_enc"]\n        )\n')],
    '''
    a = new(); b = new(); b["44"]["data_enc"] = b["48"]["data_enc"] = "cp500"
    s, _ = encode({"t": "0100", "48": "x" * 60}, a)
    d, _ = decode(s, a)
    if encode(dict(d), b)[0] != encode(json.loads(json.dumps(d)), b)[0]: bad()
    ''')
# ---------------------------------------------------------------- C17
bug("c17-narrow", "C17", "a length encoding whose codec fails with something else than UnicodeError",
    "a failing codec leaks its own exception while a length is decoded",
    [("decoder.py", '''            except Exception:
                raise DecodeError(
                    "Failed to decode field length, invalid data",''', '''            except UnicodeError:
                raise DecodeError(
                    "Failed to decode field length, invalid data",''')],
    '''
    import codecs
    def boom(*a): raise OSError("table unavailable")
    codecs.register(lambda n: codecs.CodecInfo(boom, boom, name="sick") if n == "sick" else None)
    spec = new(); s, _ = encode({"t": "0100", "44": "abc"}, spec); spec["44"]["len_enc"] = "sick"
    try: decode(s, spec)
    except DecodeError: pass
    except Exception as e: bad(repr(e))
    ''')
bug("c17-negcache", "C17", "an encoding that is registered after it was found missing",
    "an encoding once found unknown stays unknown",
    [("encoder.py", '    try:\n        encoded_data = field_data.encode(field_spec["data_enc"])\n    except LookupError:\n', '    try:\n        if field_spec["data_enc"] in _UNKNOWN:\n            raise LookupError(field_spec["data_enc"])\n        encoded_data = field_data.encode(field_spec["data_enc"])\n    except LookupError:\n        _UNKNOWN.add(field_spec["data_enc"])\n'),
     ("encoder.py", '_FieldSpecDict = Mapping[str, Any]\n', '_FieldSpecDict = Mapping[str, Any]\n_UNKNOWN: Set[str] = set()\n')],
    '''
    import codecs
    spec = new(); spec["44"]["data_enc"] = "late-codec"
    try: encode({"t": "0100", "44": "abc"}, spec)
    except EncodeError: pass
    codecs.register(lambda n: codecs.lookup("ascii") if n.replace("_", "-") == "late-codec" else None)
    try: encode({"t": "0100", "44": "abc"}, spec)
    except EncodeError as e: bad(e)
    ''')
bug("c17-precheck", "C17", "a fixed-length field whose unused length encoding is unknown",
    "the length encoding is looked up even for fields without a length",
    [("encoder.py", '    len_type = field_spec["len_type"]\n\n    # Handle', '    len_type = field_spec["len_type"]\n\n    if field_spec["len_enc"] not in ("b", "bcd"):\n        try:\n            "0".encode(field_spec["len_enc"])\n        except LookupError:\n            raise EncodeError(\n                "Failed to encode field length, unknown encoding specified",\n                doc_dec,\n                doc_enc,\n                field_key,\n            ) from None\n\n    # Handle')],
    '''
    spec = new(); spec["3"]["len_enc"] = "none"
    try: encode({"t": "0100", "3": "123456"}, spec)
    except EncodeError as e: bad(e)
    ''')
bug("c17-misname", "C17", "a bitmap encoding that fails for the tertiary bitmap only after working for the secondary one",
    "a conversion failure is retried with ASCII, hiding a failing codec",
    [("decoder.py", '''        return data.decode(field_spec["data_enc"])
    except LookupError:''', '''        return data.decode(field_spec["data_enc"])
    except OSError:
        return data.decode("ascii")
    except LookupError:''')],
    '''
    import codecs
    def boom(*a): raise OSError("table unavailable")
    codecs.register(lambda n: codecs.CodecInfo(boom, boom, name="sick") if n == "sick" else None)
    spec = new(); s, _ = encode({"t": "0100", "44": "abc"}, spec); spec["44"]["data_enc"] = "sick"
    try: decode(s, spec)
    except DecodeError: pass
    else: bad()
    ''')
