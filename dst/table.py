"""What each check runs and what its evidence says."""
LIB = "iso8583 (encoder, decoder, tools, specs) loaded unmodified from /repo's working tree"
BASE = ["text conversion is Python's own codecs",
        "generated specifications follow the documented keys; encodings whose units are wider than a "
        "byte are not used for bitmaps and lengths (documented widths count bytes)",
        "sampling: a clean batch is evidence, not proof"]


def row(quick, thorough, rule, measure, stub, real=LIB, assume=()):
    return {"quick": quick, "thorough": thorough, "rule": rule, "measure": measure,
            "real": [real] if isinstance(real, str) else real,
            "stub": stub, "assumptions": list(assume) + BASE}


TABLE = {
    "C03": row(10000, 200000,
               "a run counts when at least one connection cut, run-together message or corruption was "
               "delivered to decode; distinct by the shapes of the accepted messages",
               "ordered tuple of (field, encodings, length kind, size class) of the accepted messages",
               ["byte stream and its chunking", "connection loss", "noise"]),
}
TABLE["C04"] = row(48000, 800000,
    "a run counts when at least one corruption reached decode; distinct by the shapes of the messages "
    "that were damaged", "shapes of the damaged messages",
    ["corrupting link", "sender with a newer specification"])
TABLE["C05"] = row(24000, 400000,
    "a run counts when at least one cut, run-together frame or corruption reached decode; distinct by "
    "the shapes of the messages that were damaged", "shapes of the damaged messages",
    ["corrupting link", "sender with another specification", "reference model as oracle"])
TABLE["C01"] = row(30000, 500000,
    "a run counts when at least one message travelled; distinct by message shapes and hops",
    "shapes of the messages sent and number of hops",
    ["terminals, switches, host (small applications)", "links", "journal", "simulated clock"])
TABLE["C02"] = row(40000, 900000,
    "a run counts when the library encoded at least one message; distinct by message shapes",
    "shapes of the messages exchanged",
    ["peer: independent reference model", "link", "clock, time zone, optimisation level, hash seed"])
TABLE["C06"] = row(40000, 900000,
    "a run counts when at least one defect was injected into a document; distinct by document shapes",
    "shapes of the documents before the defects",
    ["application and its damaged records", "reference model as oracle"])
TABLE["C07"] = row(20000, 400000,
    "a run counts when a dictionary was reused at least once; distinct by the shapes sent",
    "sequence of shapes sent from the reused dictionary",
    ["application editing its dictionary", "interrupts"])
TABLE["C08"] = row(10000, 70000,
    "a run counts when the scheduler preempted a thread inside the library at least once; distinct by "
    "jobs and schedule", "operations of each thread and the first 50 scheduling decisions",
    ["thread scheduler (real threads, one at a time)", "shared stream", "codecs and mappings with scheduling points"])
TABLE["C09"] = row(20000, 250000,
    "a run counts when at least one exception struck inside a call; distinct by calls and strike points",
    "calls made and the line events struck",
    ["exceptions at chosen lines", "specification mappings"])
TABLE["C10"] = row(20000, 220000,
    "a run counts when the library was re-entered at least once; distinct by calls and entry points",
    "calls made and the line events at which they were re-entered",
    ["nested callers", "output stream, codecs and mappings that call back"])
TABLE["C11"] = row(14000, 220000,
    "a run counts when at least one call was made in a process with a history; distinct by the sequence "
    "of calls, ways the specification was held and outcomes", "sequence of (call, holding, outcome)",
    ["application editing its specifications", "read-only, lazy, temporary specification mappings"])
TABLE["C12"] = row(24000, 400000,
    "a run counts when at least one write failed; distinct by the sizes of the outputs that were cut",
    "lengths and write counts of the outputs printed", ["output streams", "sys.stdout"])
TABLE["C13"] = row(16000, 220000,
    "a run counts when at least one trace was printed and read back; distinct by the elements printed "
    "and the widths", "elements printed, description width, line width",
    ["disk with lost and torn writes", "operator's parser"])
TABLE["C14"] = row(30000, 500000,
    "a run counts when at least one error was shipped; distinct by the errors shipped",
    "type, element and progress of the errors shipped", ["links between processes", "process pool"])
TABLE["C15"] = row(24000, 300000,
    "a run counts when at least one buffer or result was overwritten; distinct by calls and outcomes",
    "sequence of calls, sizes and outcomes", ["application recycling its buffers"])
TABLE["C16"] = row(24000, 500000,
    "a run counts when at least one record was recovered after a crash; distinct by the shapes stored",
    "shapes of the messages stored", ["journal disk with lost and torn writes", "restarts"])
TABLE["C17"] = row(60000, 900000,
    "a run counts when an encoding was missing or failed at least once; distinct by message shapes",
    "shapes of the messages handled", ["codec registry", "reference model as oracle"])
TABLE["C20"] = row(5000, 150000,
    "a run counts when a process lived through at least 256 calls; distinct by the kinds of calls and shapes",
    "kinds of calls, ways the specification was held, shape of the messages",
    ["application and its endless messages", "interrupts", "specification mappings"])
TABLE["C21"] = row(8000, 200000,
    "a run counts when at least one call was made; distinct by calls and specification size",
    "calls made and size of the specification",
    ["standard streams, log, warnings", "failing mappings and streams", "exceptions at chosen lines"])
TABLE["C18"] = row(24000, 200000,
    "a run counts when at least one message travelled between parties; distinct by the fields sent",
    "numbers of the fields sent (first 20) and how many",
    ["hosts: independent reference model with its own ISO 8583:1987 field table", "links that tear and repeat",
     "gateways and their restarts"])
TABLE["C19"] = row(24000, 400000,
    "a run counts when a trace was written through a sink that cuts lines; distinct by elements and widths",
    "elements printed, description width, line width",
    ["log sink that cuts every line after the agreed number of columns", "operator's parser"])
