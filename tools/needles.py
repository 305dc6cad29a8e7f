"""Needle survey: a fixed corruption behind a rare condition; which conditions do the quick checks reach?

python3 tools/needles.py [enc|dec|pp] [--jobs 2]"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENC = {}
# available: key, val, fs, n (units), part, doc, s(bytes)
for k in (2, 3, 63, 64, 66, 77, 100, 127, 128, 129, 130, 150, 191, 192):
    ENC["field %d" % k] = "key == '%d'" % k
for n in (1, 9, 10, 50, 99, 100, 101, 127, 128, 199, 200, 255, 256, 257, 500, 999, 1000, 1001, 1234, 9999, 10000, 32767, 32768, 65535, 65536):
    ENC["units %d" % n] = "n == %d and fs['len_type']" % n
for lt in (1, 2, 3, 4, 5, 6, 7, 8):
    for le in ("ascii", "b", "bcd", "cp500", "cp037", "utf-8", "latin-1"):
        ENC["%s%d" % (le, lt)] = "fs['len_type'] == %d and fs['len_enc'] == %r" % (lt, le)
for de in ("cp037", "cp1252", "koi8-r", "utf-16-le", "latin-1", "utf-8", "cp500"):
    ENC["data " + de] = "fs['data_enc'] == %r" % de
ENC.update({
    "odd nibble left var": "key.isdigit() and fs.get('len_count') == 'nibbles' and n % 2 and fs.get('left_pad') and fs['len_type']",
    "odd nibble right fixed": "fs.get('len_count') == 'nibbles' and n % 2 and not fs.get('left_pad') and fs.get('right_pad') and not fs['len_type']",
    "odd nibble both pads": "fs.get('len_count') == 'nibbles' and n % 2 and fs.get('left_pad') and fs.get('right_pad')",
    "odd nibble multi pad": "fs.get('len_count') == 'nibbles' and n % 2 and len(fs.get('left_pad') or fs.get('right_pad')) > 1",
    "odd nibble lower pad": "fs.get('len_count') == 'nibbles' and n % 2 and (fs.get('left_pad') or fs.get('right_pad')).islower()",
    "odd nibble empty left": "fs.get('len_count') == 'nibbles' and n % 2 and fs.get('left_pad') == ''",
    "one nibble": "fs.get('len_count') == 'nibbles' and n == 1",
    "odd header": "key == 'h' and fs.get('len_count') == 'nibbles' and n % 2",
    "var header bcd": "key == 'h' and fs['len_type'] and fs['len_enc'] == 'bcd'",
    "empty header": "key == 'h' and fs['len_type'] and n == 0",
    "zero len text var": "n == 0 and fs['len_type'] and fs['data_enc'] != 'b'",
    "zero fixed": "n == 0 and fs['len_type'] == 0",
    "zero max var": "fs['max_len'] == 0 and fs['len_type']",
    "text nibbles var": "fs.get('len_count') == 'nibbles' and fs['data_enc'] != 'b' and fs['len_type']",
    "text nibbles utf16": "fs.get('len_count') == 'nibbles' and fs['data_enc'] == 'utf-16-le'",
    "max exactly": "n == fs['max_len'] and fs['len_type'] and n > 20",
    "max exactly >255": "n == fs['max_len'] and fs['len_type'] and n > 255",
    "max exactly nibbles odd": "n == fs['max_len'] and fs['len_type'] and n % 2 and fs.get('len_count') == 'nibbles'",
    "cap exactly": "fs['len_type'] and fs['len_enc'] not in ('b','bcd') and n == 10 ** fs['len_type'] - 1",
    "cap exactly bcd": "fs['len_type'] and fs['len_enc'] == 'bcd' and n == 100 ** fs['len_type'] - 1",
    "cap exactly b": "fs['len_type'] and fs['len_enc'] == 'b' and n == 256 ** fs['len_type'] - 1",
    "leading space": "val[:1] == ' '", "trailing space": "val[-1:] == ' '", "newline inside": "'\\n' in val",
    "nul inside": "'\\0' in val", "all zeros": "len(val) > 6 and val == '0' * len(val)",
    "lower hex": "fs['data_enc'] == 'b' and len(val) > 2 and val.islower()",
    "mixed hex": "fs['data_enc'] == 'b' and val != val.lower() and val != val.upper()",
    "astral": "any(ord(c) > 65535 for c in val)", "bom": "val[:1] == chr(0xfeff)", "quote both": "chr(39) in val and chr(34) in val",
    "non-ascii digit": "any(c.isdigit() and ord(c) > 127 for c in val)", "0x7f": "chr(127) in val", "0x80": "chr(128) in val", "0xff": "chr(255) in val",
    "same as type": "key != 't' and val and val == doc.get('t')",
    "ten fields": "len(doc) == 12", "forty fields": "len(doc) > 40", "no fields": "key == 't' and len(doc) == 1",
    "only field": "key.isdigit() and len([k for k in doc if k.isdigit() and k != '1']) == 1 and int(key) > 128",
    "descending keys": "key.isdigit() and list(doc)[-1] == min((k for k in doc if k.isdigit()), key=int) and len(doc) > 6",
    "stale 65": "False",
    "65 in spec": "key.isdigit() and int(key) > 150 and n > 3",
    "128 and 129": "key == '129' and '128' in doc", "64 65+": "key == '64' and '66' in doc", "2 and 192": "key == '192' and '2' in doc",
    "alias": "fs['data_enc'] in ('US_ASCII', 'L1')", "mixed bitmaps": "False",
    "max above cap": "fs['len_type'] and fs['len_enc'] == 'ascii' and fs['max_len'] >= 10 ** fs['len_type']",
    "len_count bytes explicit": "'len_count' in fs and fs['len_count'] == 'bytes' and n == 7",
    "n == 37 nibbles bcd": "n == 37 and fs.get('len_count') == 'nibbles' and fs['len_enc'] == 'bcd'",
})
BM = {
    "full primary": "bin(int(hex_bitmap, 16)).count('1') >= 30", "only 64": "hex_bitmap == '0000000000000001'",
    "only 65": "hex_bitmap == '8000000000000000' and field_offset == 64", "tertiary text cp500": "field_offset == 128 and field_spec['data_enc'] == 'cp500'",
    "secondary b": "field_offset == 64 and field_spec['data_enc'] == 'b'", "letters latin-1 tertiary": "field_offset == 128 and field_spec['data_enc'] == 'latin-1'",
    "field 192 bit": "field_offset == 128 and bitmap[-1] & 1", "field 128 bit": "field_offset == 64 and bitmap[-1] & 1 and field_spec['data_enc'] == 'utf-8'",
    "empty primary": "field_offset == 0 and not any(bitmap)", "tertiary starts 129": "field_offset == 128 and bitmap[0] & 128",
    "tertiary no secondary fields": "field_offset == 128 and int(doc_dec[field_key][:16], 16) == 1 << 63",
}


def enc_edit(cond):
    return [("encoder.py", '''    return doc_enc[field_key]["len"] + doc_enc[field_key]["data"]


def _encode_bind''', '''    return _needle(field_key, doc_dec[field_key], field_spec, enc_field_len, doc_enc[field_key], doc_dec)


def _needle(key, val, fs, n, part, doc):
    if %s:
        part["data"] = part["data"][:-1] + bytes([part["data"][-1] ^ 1]) if part["data"] else b"0"
    return part["len"] + part["data"]


def _encode_bind''' % cond),
        ("encoder.py", '''        doc_enc[field_key]["len"] = b""
        return doc_enc[field_key]["data"]
''', '''        doc_enc[field_key]["len"] = b""
        return _needle(field_key, doc_dec[field_key], field_spec, enc_field_len, doc_enc[field_key], doc_dec)
'''),
        ("encoder.py", '''    return doc_enc["t"]["data"]

''', '''    return _needle("t", doc_dec["t"], dict(spec["t"], max_len=4), enc_field_len, doc_enc["t"], doc_dec)

''')]


def bm_edit(cond):
    return [("encoder.py", '''    hex_bitmap = bitmap.hex().upper()

    if is_extended:
        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap
''', '''    hex_bitmap = bitmap.hex().upper()
    bad = %s

    if is_extended:
        doc_dec[field_key] = doc_dec[field_key] + hex_bitmap
''' % cond.replace("doc_dec[field_key]", "doc_dec.get(field_key, '0')")), ("encoder.py", '''    if is_extended:
        doc_enc[field_key]["data"] = doc_enc[field_key]["data"] + encoded_data
''', '''    if bad:
        encoded_data = encoded_data[:-1] + bytes([encoded_data[-1] ^ 1])
    if is_extended:
        doc_enc[field_key]["data"] = doc_enc[field_key]["data"] + encoded_data
''')]


def dec_edit(cond):
    return [("decoder.py", '''        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)

    if idx''', '''        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)
        _needle(field, doc_dec[field], field_spec, doc_enc[field], doc_dec, s)

    if idx'''), ("decoder.py", '''    return _decode_field(s, doc_dec, doc_enc, idx, "h", spec["h"])

''', '''    idx = _decode_field(s, doc_dec, doc_enc, idx, "h", spec["h"])
    _needle("h", doc_dec["h"], spec["h"], doc_enc["h"], doc_dec, s)
    return idx


def _needle(key, val, fs, part, doc, s):
    n = len(val) if fs["data_enc"] == "b" and fs.get("len_count") == "nibbles" else len(part["data"]) * (2 if fs.get("len_count") == "nibbles" else 1)
    if %s:
        doc[key] = val[:-1] + "~"

''' % cond)]


DEC = dict(ENC)
DEC.update({"bytearray": "isinstance(s, bytearray) and n == 11", "long message": "len(s) > 5000", "very long message": "len(s) > 66000",
            "lower hex wire bitmap": "'a' in doc['p'] and False"})

# pp: doc, key, obj, rep, indent, line_width, desc_width
PP = {}
for k in (2, 64, 65, 1, 128, 192, 99, 100):
    PP["field %d" % k] = "field_key == '%d'" % k
for d in (0, 1, 2, 5, 30, 60, -3):
    PP["desc_width %d" % d] = "desc_width == %d" % d
for w in (-1, 0, 1, 5, 7, 10, 80, 132):
    PP["line_width %d" % w] = "line_width == %d" % w
for d in (-1, 0, 1, 2):
    PP["slack %d" % d] = "len(rep) + indent - line_width == %d" % d
PP.update({
    "empty str": "obj == ''", "empty bytes": "obj == b''", "1 char too wide": "len(obj) == 1 and len(rep) + indent > line_width",
    "2 chars": "len(obj) == 2 and len(rep) + indent > line_width", "escape": "isinstance(obj, str) and chr(92) in rep",
    "double quote": "rep[:1] == chr(34)", "bytes double quote": "rep[:2] == 'b' + chr(34)", "newline": "isinstance(obj, str) and chr(10) in obj",
    "long": "len(obj) > 1500", "longer": "len(obj) > 3000", "len and fold": "isinstance(doc_field, dict) and doc_field['len'] and len(rep) + indent > line_width",
    "len escape": "isinstance(doc_field, dict) and b'\\n' in doc_field['len']", "astral": "isinstance(obj, str) and any(ord(c) > 65535 for c in obj)",
    "header": "field_key == 'h'", "header folded": "field_key == 'h' and len(rep) + indent > line_width",
    "long desc cut": "len(spec[field_key]['desc']) > desc_width > 3", "empty desc": "spec[field_key]['desc'] == '' and desc_width > 0",
    "first of many": "len(doc) > 30", "only t": "len(doc) == 1",
})


def pp_edit(cond):
    return [("tools.py", '''    rep = repr(obj)
    if len(rep)''', '''    rep = repr(obj)
    if %s:
        obj = obj + type(obj)(b"" if isinstance(obj, bytes) else "") + (b"~" if isinstance(obj, bytes) else "~")
        rep = repr(obj)
    if len(rep)''' % cond)]


SOME = ["field 2", "field 128", "field 150", "field 192", "units 9", "units 100", "units 255", "units 256", "ascii1", "ascii4", "b2", "bcd3", "cp5002",
        "latin-11", "utf-86", "data cp037", "data utf-16-le", "data cp500", "odd nibble left var", "odd nibble right fixed", "odd nibble both pads",
        "one nibble", "odd header", "var header bcd", "empty header", "zero len text var", "text nibbles var", "max exactly", "cap exactly b",
        "leading space", "nul inside", "astral", "quote both", "ten fields", "forty fields", "no fields", "only field", "128 and 129", "65 in spec",
        "max above cap", "len_count bytes explicit"]


def leak_edit(cond):
    return [(f, old, new.replace('part["data"] = part["data"][:-1] + bytes([part["data"][-1] ^ 1]) if part["data"] else b"0"',
                                 '_KEPT.append((key, val))').replace("def _needle", "_KEPT = []\n\n\ndef _needle"))
            for f, old, new in enc_edit(cond)]


def effect_edit(cond):
    return [(f, old, new.replace('part["data"] = part["data"][:-1] + bytes([part["data"][-1] ^ 1]) if part["data"] else b"0"',
                                 'import sys; sys.setswitchinterval(sys.getswitchinterval() + 0.001)'))
            for f, old, new in enc_edit(cond)]


def one(job):
    name, edits, checks = job
    tmp = tempfile.mkdtemp(prefix="needle-")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns(".git", "docs", "tests"))
        for f, old, new in edits:
            p = os.path.join(repo, "iso8583", f)
            t = open(p).read()
            assert t.count(old) == 1, (name, old)
            open(p, "w").write(t.replace(old, new))
        res = []
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c, "--tier", "quick"],
                               capture_output=True, text=True, env=dict(os.environ, DST_REPO=repo, DST_OUT=tmp))
            m = re.search(r"run (\d+) \(seed", r.stdout)
            res.append("%s:%s" % (c, m.group(1) if r.returncode == 1 and m else "MISS" if r.returncode == 0 else "exit%d" % r.returncode))
            if r.returncode not in (0, 1):
                res.append((r.stdout + r.stderr)[-300:])
        return name, res
    finally:
        shutil.rmtree(tmp)


def main():
    kinds = [a for a in sys.argv[1:] if a in ("enc", "bm", "dec", "pp", "leak", "effect")] or ["enc", "bm", "dec", "pp"]
    jobs = []
    for k in kinds:
        if k == "enc":
            jobs += [("enc " + n, enc_edit(c), ["C02"]) for n, c in ENC.items() if c != "False"]
        elif k == "bm":
            jobs += [("bm " + n, bm_edit(c), ["C02"]) for n, c in BM.items()]
        elif k == "leak":
            jobs += [("leak " + n, leak_edit(ENC[n]), ["C20"]) for n in SOME]
        elif k == "effect":
            jobs += [("effect " + n, effect_edit(ENC[n]), ["C21"]) for n in SOME]
        elif k == "dec":
            jobs += [("dec " + n, dec_edit(c), ["C02", "C04"]) for n, c in DEC.items() if "False" not in c]
        else:
            jobs += [("pp " + n, pp_edit(c), ["C13"]) for n, c in PP.items()]
    with ThreadPoolExecutor(2) as ex:
        for name, res in ex.map(one, jobs):
            print("%-30s %s" % (name, " ".join(res)), flush=True)


if __name__ == "__main__":
    main()
