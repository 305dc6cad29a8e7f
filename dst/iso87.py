"""ISO 8583:1987 as an independent host implements it (public standard, in the packaged form).

number: kind and length.  aN: fixed text, aLLN / aLLLN: variable text, b*: binary (bytes)."""

FIELDS = """
2 aLL19  3 a6  4 a12  5 a12  6 a12  7 a10  8 a8  9 a8  10 a8  11 a6  12 a6  13 a4  14 a4  15 a4  16 a4
17 a4  18 a4  19 a3  20 a3  21 a3  22 a3  23 a3  24 a3  25 a2  26 a2  27 a1  28 a9  29 a9  30 a9  31 a9
32 aLL11  33 aLL11  34 aLL28  35 aLL37  36 aLLL104  37 a12  38 a6  39 a2  40 a3  41 a8  42 a15  43 a40
44 aLL25  45 aLL76  46 aLLL999  47 aLLL999  48 aLLL999  49 a3  50 a3  51 a3  52 b8  53 a16  54 aLLL240
55 bLLL255  56 aLLL999  57 aLLL999  58 aLLL999  59 aLLL999  60 aLLL999  61 aLLL999  62 aLLL999  63 aLLL999
64 b8  66 a1  67 a2  68 a3  69 a3  70 a3  71 a4  72 a4  73 a6  74 a10  75 a10  76 a10  77 a10  78 a10
79 a10  80 a10  81 a10  82 a12  83 a12  84 a12  85 a12  86 a16  87 a16  88 a16  89 a16  90 a42  91 a1
92 a2  93 a5  94 a7  95 a42  96 b8  97 a17  98 a25  99 aLL11  100 aLL11  101 aLL17  102 aLL28  103 aLL28
104 aLLL100  105 aLLL999  106 aLLL999  107 aLLL999  108 aLLL999  109 aLLL999  110 aLLL999  111 aLLL999
112 aLLL999  113 aLLL999  114 aLLL999  115 aLLL999  116 aLLL999  117 aLLL999  118 aLLL999  119 aLLL999
120 aLLL999  121 aLLL999  122 aLLL999  123 aLLL999  124 aLLL999  125 aLLL999  126 aLLL999  127 aLLL999
128 b8
"""


def spec(binary):
    """The standard in the notation of the reference model; binary data as bytes or as hex text."""
    def entry(kind, width, length):
        if kind == "b" and not binary:
            kind, length = "a", 2 * length
        return {"data_enc": "b" if kind == "b" else "ascii", "len_enc": "ascii",
                "len_type": width, "max_len": length, "desc": ""}

    out = {"h": entry("a", 0, 0), "t": entry("a", 0, 4), "p": entry("b", 0, 8), "1": entry("b", 0, 8)}
    words = FIELDS.split()
    for number, text in zip(words[::2], words[1::2]):
        width = text.count("L")
        out[number] = entry(text[0], width, int(text[1 + width:]))
    return out


TEXT = spec(False)
BINARY = spec(True)
NUMBERS = sorted((int(k) for k in TEXT if k.isdigit() and k != "1"))
