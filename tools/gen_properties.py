#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here, one dict per property)."""
import json, os

D, E, T, S, I = ("iso8583/decoder.py", "iso8583/encoder.py", "iso8583/tools.py",
                 "iso8583/specs.py", "iso8583/__init__.py")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Messages survive any exchange between parties unchanged",
     "Whatever document encode accepts under a specification, every party that receives exactly those bytes decodes, under the same specification, the same fields with the same values (hex digits of binary data in upper case) and the same encoded dictionary the sender got, and re-encoding the decoded document under that specification reproduces the bytes. "
     "This holds over any chain of relays, including ones that translate between specifications, store the document and restart, and answer by editing the decoded request, whatever messages are delayed, reordered, duplicated, lost or retransmitted. "
     "Once faults stop, every request is answered with its own fields.",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "All specifications (field types, encodings, length types, byte/nibble counts, pads, 1-3 bitmaps, headers), all documents encode accepts, all networks of relays and fault sequences on their links.",
     "Tests encode or decode single hand-written messages, almost never both, under a handful of specifications; no test passes a message through two parties.",
     [E, D], [("encode/decode are exact inverses on accepted documents", E + ": encode; " + D + ": decode"),
              ("bitmaps are recomputed from the fields present", E + ": _encode_bitmap")],
     ["bytes and dictionaries at every hop of a simulated payment network"])

prop("C02", "The wire format is exactly what the specification prescribes",
     "The bytes of a message are: header (if enabled), 4-digit type, primary bitmap, secondary and tertiary bitmap when fields above 64 / 128 need them, then every field present in ascending number, each as its length indicator followed by its data in the configured encodings, byte or nibble count and padding; so an independent implementation of the documented format and this library always read each other's messages identically. "
     "A document that fits the specification is never refused, and one that does not (data not encodable, wrong fixed length, longer than the maximum or than the length indicator can express, invalid or undefined field) always is. "
     "Descriptions, and the length encoding of a field without a length, play no role: a description may be missing, the unused length encoding may be anything. "
     "The same holds in every process: hash seed, optimisation level, clock and time zone make no difference.",
     ["inputs", "configurations", "histories"],
     "All specifications and documents, in an exchange with a foreign peer, over every hash seed / optimisation level.",
     "Tests fix a few layouts byte by byte for a field or two; the combinations of encodings, counts, pads, lengths at the limits and the 192 fields are never combined, and encoder and decoder could drift together unnoticed.",
     [E, D, S], [("field encoders", E + ": _encode_field, _encode_bindary_field, _encode_text_field, _add_pad_field"),
                 ("bitmap encoder", E + ": _encode_bitmap"), ("field decoders", D + ": _decode_field, _remove_pad_field")],
     ["wire bytes exchanged with the independent reference peer"])

prop("C03", "A torn or run-together message never passes for a whole one",
     "If decode accepts a byte string under a specification, it rejects with DecodeError every proper prefix of it (connection lost at any byte) and every extension of it (the next message run on, or trailing noise). "
     "Nothing is ever returned for such input, and the intact message still decodes afterwards.",
     ["crash_points", "inputs", "configurations"],
     "All accepted messages, every cut point, all appended bytes, all specifications.",
     "Tests cut a field short or append bytes in a few ASCII layouts; the cut points inside headers, tertiary bitmaps, length indicators, nibble fields and zero-length fields are not covered.",
     [D], [("short-slice checks before every use", D + ": _decode_type, _decode_bitmap, _decode_field"),
           ("trailing data check", D + ": decode")],
     ["outcome of decode at the receiving end of a broken stream"])

prop("C04", "Damaged bytes never crash, hang or fool the receiver",
     "For every byte string and specification, decode terminates in a bounded number of steps and either returns or raises DecodeError; no other exception reaches the caller, also when a bitmap announces fields the specification does not define. "
     "Whenever it returns, the result accounts for the received bytes exactly: the encoded parts concatenate to the input, the bitmaps list exactly the fields decoded, every length indicator is true and within the maximum, and re-encoding the decoded document gives back every field byte for byte where its text encoding is one-to-one (for a length: one byte per digit; bitmaps may differ only in letter case and in omitted empty bitmaps).",
     ["fault_sequences", "inputs", "configurations"],
     "All corruptions (bit flips, overwritten, lost, inserted, duplicated, swapped blocks, forged lengths and bitmaps) of messages in transit and arbitrary noise, for all specifications with lossless text encodings.",
     "Negative tests assert the error text of about 60 hand-picked damages; silent acceptance of damage and leaking exceptions are not looked for at all.",
     [D, E], [("every failure becomes DecodeError", D + ": decode and helpers"),
              ("length and bitmap validation", D + ": _decode_field, _decode_bitmap")],
     ["outcome of decode and of re-encoding what it accepted"])

prop("C05", "A decoding failure is located exactly",
     "When decode rejects a message, DecodeError names the first element in wire order that cannot be read, its pos is where that element's failing part starts (the length indicator if it is missing, malformed or too large, otherwise the data; for extra data, the end of the last field and that field; for an undefined field, where it would start), and s is the input. "
     "doc_dec and doc_enc hold every element before the failing one exactly as an undamaged message would have shown it and nothing after it, and the parts in doc_enc concatenate to a prefix of the input.",
     ["fault_sequences", "inputs", "configurations"],
     "All messages damaged in transit (torn, corrupted, run together, noise) and all specifications.",
     "Tests compare field and pos in the message text for single-field messages; the partial dictionaries and multi-field messages are not checked.",
     [D], [("DecodeError construction at each failure", D + ": DecodeError, _decode_*")],
     ["attributes of DecodeError"],
     [("doc_dec/doc_enc", "partially decoded/encoded data", D + ": DecodeError")])

prop("C06", "Encode refuses only with EncodeError, located exactly",
     "For every dictionary and specification encode either returns or raises EncodeError; no other exception reaches the caller, whatever the keys and values are (missing type or header, non-string keys, keys that are not plain decimal numbers 1-192, non-string or unencodable values, fields the specification does not define). "
     "The error names the first offending element in the order header, type, key check (reported as 'p'), bitmaps, fields ascending; its doc_dec is the caller's dictionary and its doc_enc holds every earlier element exactly as a successful call would have encoded it and nothing after the failing one. "
     "A refused document can be repaired in place and then encodes as if it had never been refused.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "All dictionaries with any number of simultaneous defects, injected at any element of a message being built, all specifications, all repair sequences.",
     "Tests check one defect at a time in two-field messages by error text, never the partial dictionary, the order between several defects, or a retry.",
     [E], [("every failure becomes EncodeError", E + ": encode and helpers"),
           ("key validation", E + ": encode")],
     ["attributes of EncodeError and the outcome of the retry"])

prop("C07", "A reused message dictionary carries no stale state",
     "However a message dictionary was produced and edited (encoded or decoded before, under this or another specification, fields added, removed or changed, bitmap keys overwritten, an encode refused half way), encoding it gives the same bytes as a fresh dictionary holding only its current non-bitmap keys. "
     "On success its 'p' and '1' entries equal the bitmaps of the bytes ('1' present only if fields above 64 are, '65' never), and success or failure, encode changes no key other than 'p', '1' and '65'.",
     ["histories", "fault_sequences"],
     "All sequences of edits, encodes, decodes and refused or interrupted encodes on one dictionary.",
     "One test re-encodes a dictionary through four fixed edits; other histories, failures in between and other specifications are not sampled.",
     [E], [("bitmaps dropped and recomputed on every encode", E + ": encode, _encode_bitmap")],
     ["bytes, and the caller's dictionary after each call"],
     [("doc_dec['p'], doc_dec['1']", "bitmaps written back into the caller's dictionary", E + ": _encode_bitmap")])

prop("C08", "Concurrent callers never affect each other",
     "When any number of threads encode, decode and pretty-print their own messages at the same time, sharing one or several specifications (and input bytes and documents being traced), every call gives the same result or error it gives when run alone, under every interleaving; no call blocks forever and the shared specification is unchanged. "
     "What each thread writes to a shared output stream is the same sequence of writes as when alone. So also when one of the calls is cut short by an exception.",
     ["schedules"],
     "All interleavings of 2-9 caller threads at bytecode granularity, all workloads.",
     "The test suite is single-threaded.",
     [D, E, T], [("no shared mutable state: all state is local to a call", D + ", " + E + ", " + T)],
     ["per-call results compared with solo execution"],
     [("module globals", "must not carry per-call state", D + ", " + E + ", " + T + ": _dispatch")])

prop("C09", "A call interrupted at any instant leaves nothing behind",
     "If an exception strikes at any instant during encode, decode or pp (KeyboardInterrupt, a cancellation or timeout, memory exhaustion), the call never returns a result as if complete: KeyboardInterrupt and other non-Exception interrupts reach the caller unchanged, others either reach the caller or appear as EncodeError/DecodeError. "
     "The specification, the input bytes and every non-bitmap key of the caller's dictionary are unchanged, and every later call, by whatever thread, including a retry with the same objects, gives the result it would have given without the interruption.",
     ["crash_points", "histories"],
     "Every execution point inside the library, every interrupt kind, all workloads and retries.",
     "No test interrupts a call.",
     [D, E, T], [("handlers catch Exception, never BaseException", D + ": _decode_field, _decode_text_data; " + E + ": _encode_*"),
                 ("specification and input are only read", D + ", " + E)],
     ["exception received, caller-owned objects, results of the retry and later calls"])

prop("C10", "Calls made from within a call do not disturb it",
     "The library may be re-entered on the same thread at any point (from a signal handler or finaliser, from the output stream's write, from a text codec, from a specification mapping): the inner call and the outer call each give the result they give alone.",
     ["schedules", "histories"],
     "Every re-entry point inside the library or in a callback, nesting depth up to 3, all workloads.",
     "No test re-enters the library.",
     [D, E, T], [("no shared mutable state between calls", D + ", " + E + ", " + T)],
     ["results of inner and outer calls compared with solo execution"])

prop("C11", "A result depends only on the arguments, which are only read",
     "The outcome of encode, decode and pp depends only on the current contents of the arguments: no earlier call, successful or failed, under this or any other specification, and no way the same content is held (the packaged specifications, a copy, a read-only or lazily computed Mapping, another dict object with its keys in another order, text, bytes or dictionaries of a subclass), and nothing around the call (environment variables, working directory, locale, clock, chance, the calling thread, an exception being handled, the standard streams where they are not the output) changes it, and a specification edited between calls takes effect in the next call. "
     "No call changes the specification, the message bytes or the packaged specifications.",
     ["histories", "configurations"],
     "All histories of calls and in-place specification edits within one process, all representations of the specification.",
     "Tests deep-copy the specification for each case and make one or two calls.",
     [D, E, T, S], [("no caching; specification accessed as a Mapping", D + ", " + E + ", " + T)],
     ["result of each call compared with a fresh process given equal arguments"])

prop("C12", "A failing output stream loses nothing but its own tail",
     "If the output stream given to pp fails at any write, the stream's exception reaches the caller unchanged, nothing more is written, and what was written before is exactly a prefix of what a healthy stream receives; the document and specification are unchanged and the next pp call, by whatever thread, writes its complete output. "
     "pp uses nothing of the stream but write(), ignores what write() returns, and uses the sys.stdout current at the time of the call when no stream is given.",
     ["fault_sequences", "crash_points"],
     "Every write at which the stream fails, every exception kind, all documents, widths and stream kinds, including sys.stdout being redirected between calls.",
     "Tests print to StringIO or captured stdout only; no stream ever fails.",
     [T], [("pp writes field by field straight to the stream", T + ": pp, _pp_field, _pprint_str, _pprint_bytes")],
     ["the sequence of writes a simulated stream receives"])

prop("C13", "Printed traces are complete and can be read back",
     "For every decoded or encoded document and any widths, the text pp prints contains the header (only if the specification enables it), type, primary bitmap and every numeric field of the document in ascending numeric order, each exactly once and nothing else, and the printed Python literals of an element, joined over its continuation lines, evaluate to exactly its length indicator and data. "
     "So from whatever part of a trace survives a crash, every completely written element is recovered exactly.",
     ["crash_points", "inputs", "configurations"],
     "All documents (any text, control characters, quotes, binary), widths and survivors of a crash while tracing.",
     "Tests compare a dozen fixed outputs and wrap a few strings; quotes, escapes, surrogates, tiny widths and three-bitmap documents are not combined, and nothing is read back.",
     [T], [("wrapping splits values into complete literals", T + ": _wrap_str_repr, _wrap_bytes_repr"),
           ("numeric sort", T + ": pp")],
     ["trace file recovered after a simulated crash"])

prop("C14", "Errors cross process boundaries intact",
     "An EncodeError or DecodeError raised in one process and shipped to another by pickle (any protocol) or copied, any number of times, arrives as the same type (a ValueError) with equal msg, field, doc_dec and doc_enc, for DecodeError also pos and s, and equal text and args.",
     ["inputs", "histories"],
     "All errors encode and decode can raise in a simulated pool of worker processes, every pickle protocol, copy and deepcopy, any number of hops, duplicated and reordered delivery.",
     "Two tests pickle one hand-made error each, and compare some attributes.",
     [D, E], [("__reduce__", D + ": DecodeError.__reduce__; " + E + ": EncodeError.__reduce__")],
     ["the error the supervising process receives"])

prop("C15", "Results own their data",
     "Once encode or decode has returned or raised, overwriting, emptying, extending or reusing the message buffer, the returned bytearray, any returned or reported dictionary, or the specification changes no other object handed out by this or any other call, and the buffer can be resized at once. "
     "Encoded parts are immutable bytes whatever buffer type was decoded, and no two results share a mutable object.",
     ["schedules", "histories"],
     "All orders in which a receiver refills its buffer and callers scribble on results, over all messages and failures.",
     "Tests pass fresh immutable literals and drop the results.",
     [D, E], [("slices copied to bytes", D + ": _decode_type, _decode_bitmap, _decode_field"),
              ("fresh bytearray and dictionaries per call", E + ": encode; " + D + ": decode")],
     ["earlier results after the buffer is reused"])

prop("C16", "Messages stored as JSON survive a restart",
     "The decoded dictionary returned by decode, the dictionary left by encode, and every JSON-compatible specification can be stored as JSON and read back by a restarted process, which then encodes the stored messages to identical bytes, and decodes traffic to identical results, as the process that crashed. "
     "No recovered message is encoded from a record that was not completely stored.",
     ["crash_points", "histories"],
     "All messages, specifications and crash points of a store-and-forward journal on a disk that loses or tears unsynced writes.",
     "JSON compatibility is only shown by an example in the documentation.",
     [D, E, S], [("decoded dictionaries hold only str keys and values", D + ": decode; " + E + ": encode"),
                 ("specifications are plain data compared by value", S)],
     ["bytes sent before the crash and after recovery"])

prop("C17", "A missing or failing text encoding is reported, not fatal",
     "If a text encoding named by the specification, for data, a length, the type or a bitmap, is unknown, cannot be loaded, or fails for any reason on any use, encode and decode raise EncodeError/DecodeError naming the element whose use of it failed, with every earlier element reported in doc_enc as usual; elements that do not use it are unaffected. "
     "As soon as the encoding works, repeating the same call, in whatever thread, succeeds with the ordinary result.",
     ["fault_sequences", "histories"],
     "Every use of an encoding in a message at which lookup or conversion fails, every failure kind, all messages and specifications, with recovery.",
     "Tests name an unknown encoding in one field; failures at a later use, other exceptions and recovery are not tested.",
     [D, E], [("LookupError and Exception handlers around every conversion", D + ": _decode_text_data, _decode_field; " + E + ": _encode_text_field, _encode_field")],
     ["outcome under a fault-injecting codec registry"])

prop("C18", "The packaged specifications speak the standard and each other's language",
     "The packaged specifications describe messages as ISO 8583:1987 lays them out: no header, a 4-character type, 64-bit bitmaps, and every field 2-128 (except 65) with the standard's kind and length, as the table of the pinned version has them. "
     "So a terminal or gateway using them exchanges every standard message with an independent host, no value the standard allows is refused and none of a wrong length is accepted; and a gateway can receive under one of them and forward under the other (binary data as bytes in default, as hex text in default_ascii) any number of times, restarting in between, with every field unchanged and the original bytes when it returns to the original form. A trace of a message is labelled alike under both.",
     ["inputs", "histories", "fault_sequences"],
     "All messages with any subset of the 126 fields at any length, over any chain of hosts and form-changing gateways, links that tear and repeat messages, restarts.",
     "Tests use a few entries of the tables, mostly after editing a copy; nothing relates the two tables to each other or to the standard.",
     [S, D, E], [("the two tables", S + ": default, default_ascii")], ["fields received and bytes sent by every party"])

prop("C19", "Traces survive a sink of so many columns",
     "A value that fits on its line within line_width is printed on one line; one that does not is folded so that no line is longer than line_width. So a sink that cuts every line after line_width columns (a terminal, a syslog, a printer) loses nothing: what is left evaluates to the exact value. Excepted are only text whose representation needs escapes, and values a single character or byte of which does not fit after its label.",
     ["inputs", "fault_sequences"],
     "All documents, encoded dictionaries, specifications, description widths and line widths, through a sink that cuts.",
     "Tests fold a few values at a few widths, hardly any with binary length indicators or unprintable bytes.",
     [T], [("_pp_field: what precedes the value", T + ": _pp_field"), ("_wrap_bytes_repr, _wrap_str_repr", T)], ["lines written, after the cut"])

prop("C20", "A long-lived process keeps nothing of what it has handled",
     "Between calls the library keeps no more than a bounded amount of memory, however many different messages, documents, specification objects, streams and widths it has been given, from however many threads, and however its calls ended (result, refusal, damage, interruption): after tens of thousands of calls of any kind, what is reachable from its modules or left in the registries of the interpreter has stopped growing (a cache of up to a few thousand entries is allowed, one without a bound is not).",
     ["histories", "fault_sequences"],
     "All endless sequences of calls of mixed kinds, successful, refused, damaged and interrupted, under one specification or under ever new copies of it.",
     "A test makes one call and ends; nothing in the suite looks at what a call leaves behind, let alone at the sum over a day of traffic.",
     [D, E, T], [("all state is local to a call; no caches", D + ", " + E + ", " + T)],
     ["objects and bytes reachable from the library's modules after 64, 128, ... 65536 calls"],
     [("module globals", "the only place anything could be kept", D + ", " + E + ", " + T)])

prop("C21", "Calls have no effect but their documented ones",
     "Importing the library, and encode, decode and pp, whether they succeed, are refused or are struck by an exception at any instant, have no effect outside their arguments and results: nothing is written to standard output or standard error (except by pp to the stream it was given or defaults to), logged, warned, or sent to a file, socket or process, and no process-wide state is different afterwards (interpreter limits, garbage collector, environment, locale, random state, signal handlers, standard streams, codec and error-handler registries, warning filters, hooks, exit handlers, threads). An import that was cut short at any instant, or by a file that could not be read, can be repeated: the library is then complete and every call acts as usual.",
     ["crash_points", "histories", "fault_sequences"],
     "Every call of every kind, every exception at every execution point inside the library, failing streams, mappings and encodings; every execution point of the import.",
     "Tests look at results only; an effect on the rest of the process, or one that is undone on success but not on failure, stays invisible to them.",
     [D, E, T, I], [("calls only compute; pp writes to its stream", D + ": decode; " + E + ": encode; " + T + ": pp")],
     ["process-wide settings, standard streams, log, warnings and audit events before and after each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
