"""What every check consists of: models of the specification, suites of histories, accepted rule tags."""
ALLV = ("mt", "st", "stack")
PROGV = ("bmt", "bst", "bstack")

MODELS = {
    "MCWire": {"module": "MCWire", "workers": 2},
    "MCAtRest": {"module": "MCAtRest", "workers": 1},
    "Growing": {"module": "Growing", "workers": 1},
    "MCNego": {"module": "MCNego", "workers": 2},
    "Security_h": {"module": "Security", "workers": 1},
    "Security_a": {"module": "Security", "workers": 2},
    "Security_b": {"module": "Security", "workers": 4},
    "Limits_a": {"module": "Limits", "workers": 1},
    "Served_a": {"module": "Served", "workers": 2},
    "Served_b": {"module": "Served", "workers": 2},
    "Silence_a": {"module": "Silence", "workers": 1},
    "Silence_b": {"module": "Silence", "workers": 1},
    "Table_a": {"module": "ServerTable", "workers": 4},
    "Table_live": {"module": "ServerTable", "workers": 1},
    "Transfer_a": {"module": "Transfer", "workers": 2},
    "Transfer_live": {"module": "Transfer", "workers": 2},
    "Transfer_wrap": {"module": "Transfer", "workers": 2},
}

SUITES = {
    "mix": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 400, "thorough": 12000},
    "grid": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 1920, "thorough": 20000, "slice": 1000},
    "faults": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 400, "thorough": 12000},
    "late": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 300, "thorough": 8000},
    "handshake": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 400, "thorough": 12000},
    "bursts": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 300, "thorough": 8000},
    **{g: {"cmd": "schedules", "spec": "TraceTransfer", "variants": ALLV, "quick": "stim", "thorough": "stim", "mult": 2,
           "cap": cap, "slice": 2500, "stim": {"module": "TransferGen", "cfg": "Transfer" + g}}
       for g, cap in (("gen31", 800), ("gen32", 1600), ("gen33", 1600), ("gen32f", 1600))},
    "gen42": {"cmd": "schedules", "spec": "TraceTransfer", "variants": ALLV, "quick": 0, "thorough": "stim", "mult": 2,
              "slice": 4000, "stim": {"module": "TransferGen", "cfg": "Transfergen42"}},
    "nego": {"cmd": "nego", "spec": "TraceNego", "variants": ALLV, "quick": "stim", "thorough": "stim", "cap": 2600, "slice": 900,
             "stim": {"module": "NegoGen", "cfg": "NegoGen"}},
    "negot": {"cmd": "nego", "spec": "TraceTransfer", "variants": ALLV, "quick": "stim", "thorough": "stim", "cap": 1300, "slice": 700,
              "stim": {"module": "NegoGen", "cfg": "NegoGen"}},
    "forge": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 1200, "thorough": 20000},
    "strangers": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 1200, "thorough": 20000},
    "sec": {"cmd": "sec", "spec": "TraceSec", "variants": ALLV, "quick": "stim", "thorough": "stim", "cap": 2400, "slice": 900,
            "stim": {"module": "SecGen", "cfg": "SecGen"}},
    "table": {"cmd": "table", "spec": "TraceTable", "variants": ALLV, "quick": "stim", "thorough": "stim", "cap": 1700, "slice": 600,
              "stim": {"module": "TableGen", "cfg": "TableGen6"}},
    "silence": {"cmd": "silence", "spec": "TraceSilence", "variants": ALLV, "quick": "stim", "thorough": "stim", "mult": 1, "slice": 900,
                "stim": {"module": "SilenceGen", "cfg": "SilenceGen"}},
    "limit": {"cmd": "limit", "spec": "TraceLimit", "variants": ALLV, "quick": "stim", "thorough": "stim", "mult": 1, "slice": 1300,
              "stim": {"module": "LimitGen", "cfg": "LimitGen"}},
    # the program itself, run by an unprivileged user in a scratch directory
    "served": {"cmd": "served", "spec": "TraceServed", "variants": PROGV, "quick": "stim", "thorough": "stim", "cap": 13000, "slice": 1600,
               "stim": {"module": "ServedGen", "cfg": "ServedGen"}},
    "codec": {"cmd": "codec", "spec": "TraceWire", "variants": ALLV, "quick": "stim", "thorough": "stim", "slice": 2700,
              "stim": {"module": "WireGen", "cfg": "WireGen", "env": {"PART": "all"}}},
    # mostly damaged datagrams, and those that are well-formed
    "hostile": {"cmd": "hostile", "spec": "TraceHostile", "variants": ALLV, "quick": "stim", "thorough": "stim", "slice": 1100, "deep": 8,
                "stim": {"module": "WireGen", "cfg": "WireGen", "env": {"PART": "bad"}}},
    # keys of every length and kind in requests and acknowledgements
    "hostkeys": {"cmd": "hostile", "spec": "TraceHostile", "variants": ALLV, "quick": "stim", "thorough": "stim", "slice": 1000, "deep": 8,
                 "stim": {"module": "WireGen", "cfg": "WireGen", "env": {"PART": "keys"}}},
    "hostile2": {"cmd": "hostile", "spec": "TraceHostile", "variants": ALLV, "quick": "stim", "thorough": "stim", "cap": 1800, "slice": 900, "deep": 4,
                 "stim": {"module": "WireGen", "cfg": "WireGen", "env": {"PART": "all"}}},
    "hostserved": {"cmd": "hostileserved", "spec": "TraceHostile", "variants": PROGV, "quick": "stim", "thorough": "stim", "cap": 2700, "slice": 900,
                   "stim": {"module": "WireGen", "cfg": "WireGen", "env": {"PART": "all"}}},
    # a file encrypted at rest: written by one run of the client, altered by the storage, read by another
    "rest": {"cmd": "rest", "spec": "TraceRest", "variants": ALLV, "quick": "stim", "thorough": "stim", "mult": 4, "slice": 700, "deep": 8,
             "stim": {"module": "RestGen", "cfg": "RestGen"}},
    "restserved": {"cmd": "restserved", "spec": "TraceRest", "variants": PROGV, "quick": "stim", "thorough": "stim", "cap": 1240, "slice": 160, "deep": 2,
                   "stim": {"module": "RestGen", "cfg": "RestGen"}},
    # a file that is written while it is sent: the reads of the program in lock-step with the writer
    "growserved": {"cmd": "growserved", "spec": "TraceGrow", "variants": ("bmt",), "quick": "stim", "thorough": "stim", "cap": 5700, "slice": 500,
                   "stim": {"module": "GrowGen", "cfg": "GrowGen"}},
    "growkeys": {"cmd": "growserved", "spec": "TraceGrow", "variants": ("bmt",), "quick": "stim", "thorough": "stim", "cap": 800, "slice": 100,
                 "stim": {"module": "GrowGen", "cfg": "GrowGen"}},
    "pipeserved": {"cmd": "pipeserved", "spec": "TraceGrow", "variants": PROGV, "quick": "stim", "thorough": "stim", "cap": 2300, "slice": 300,
                   "stim": {"module": "GrowGen", "cfg": "GrowGen"}},
    "wrap": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 5, "thorough": 50, "slice": 1},
    "steady": {"cmd": "transfers", "spec": "TraceTransfer", "variants": ALLV, "quick": 40, "thorough": 800, "slice": 40},
}


def check(suites, models=(), assumptions=(), note="", deep=(), technique=""):
    """models: checked in every run; deep: in thorough runs only"""
    return {"suites": suites, "models": list(models), "deep": list(deep), "assumptions": list(assumptions), "note": note,
            "technique": technique}


NETWORK = "datagrams are at most displaced by the bounds of the generators; the virtual clock has one millisecond resolution or better"

SEC = ["Security_h", "Security_a"]
SECRET = ["x25519, ed25519 and xchacha20-poly1305 are as strong as claimed: an attacker cannot sign or decrypt without the private key"]


SERVED = ["Served_a", "Served_b"]
FILES = ["nothing else changes the files and links below the served directory while a request is handled"]
PROGRAM = "; here the program itself runs (unprivileged, in a scratch directory) and the requests come from the specification"


def GEN(tag):
    return {g: {tag} for g in ("gen31", "gen32", "gen33", "gen32f", "gen42")}


CHECKS = {
    "C01": check({"mix": {"C01"}, "grid": {"C01"}, "faults": {"C01"}, "handshake": {"C01"}, **GEN("C01")}, ["Transfer_a"], [NETWORK]),
    "C02": check({"negot": {"C02"}, "mix": {"C02"}, "grid": {"C02"}, "faults": {"C02"}, "handshake": {"C02"}, **GEN("C02")}, ["Transfer_a"], [NETWORK]),
    "C03": check({"mix": {"C03"}, "grid": {"C03"}, "faults": {"C03"}, "handshake": {"C03"}, **GEN("C03")}, ["Transfer_a"], [NETWORK]),
    "C04": check({"mix": {"C04"}, "grid": {"C04"}, "bursts": {"C04"}, "late": {"C04"}, **GEN("C04")}, ["Transfer_a"], [NETWORK]),
    "C05": check({"mix": {"C05"}, "grid": {"C05"}, "bursts": {"C05"}, "late": {"C05"}, **GEN("C05")}, ["Transfer_a"], [NETWORK]),
    "C06": check({"wrap": {"C01", "C02", "C03", "C04", "C05", "C06", "C17", "C18"}, "mix": {"C06"}}, ["Transfer_wrap"],
                 ["packets are displaced by less than 10,000 blocks"]),
    "C07": check({"nego": {"C07"}, "negot": {"C01", "C02", "C03", "C04", "C05"}}, ["MCNego"],
                 ["options are negotiated on a network without losses; disturbed handshakes are explored by the handshake suite of C01-C03"]),
    "C08": check({"nego": {"C08"}, "negot": {"C01", "C02", "C03", "C04", "C05"}}, ["MCNego"],
                 ["options are negotiated on a network without losses; disturbed handshakes are explored by the handshake suite of C01-C03"]),
    "C17": check({"mix": {"C17"}, "grid": {"C17"}, "bursts": {"C17"}, "late": {"C17"}, **GEN("C17"), "steady": {"C17"}, "silence": {"C17"}},
                 ["Transfer_live"], [NETWORK]),
    "C09": check({"sec": {"C09"}}, SEC, SECRET, deep=["Security_b"]),
    "C10": check({"sec": {"C10"}}, SEC, SECRET, deep=["Security_b"]),
    "C11": check({"forge": "all"}, ["Transfer_a"], SECRET + ["at level data only the file bytes of data packets are protected"]),
    "C12": check({"served": {"C12"}}, SERVED, FILES, technique=PROGRAM),
    "C13": check({"served": {"C13"}}, SERVED, FILES, technique=PROGRAM),
    "C22": check({"served": {"C22"}}, SERVED, FILES, technique=PROGRAM),
    "C14": check({"limit": "all"}, ["Limits_a"], ["a size is a decimal number below 2^64"]),
    "C15": check({"strangers": "all", "table": {"C15", "C18"}}, ["Transfer_a", "Table_a"], ["the operating system delivers to a connected socket only packets of its peer"]),
    "C16": check({"table": {"C16"}, "silence": {"C16", "C18"}}, ["Table_live", "Table_a", "Silence_a", "Silence_b"],
                 ["the operating system reports no errors on the sockets of a vanished peer"]),
    "C18": check({"codec": {"C18"}, "hostile": {"C18"}, "hostkeys": {"C18"}, "hostile2": {"C18"}, "hostserved": {"C18"}}, ["MCWire"],
                 ["memory and threads suffice: floods of requests are the subject of C16"]),
    "C23": check({"codec": {"C23", "ORACLE"}, "hostile": {"C23"}, "hostile2": {"C23"}, "hostserved": {"C23"}}, ["MCWire"],
                 ["strings are UTF-8; in the build without heap, names, values and messages beyond its fixed sizes may be refused or cut"]),
    "C19": check({"rest": {"C19", "C18"}, "restserved": {"C19", "C18"}, "growkeys": {"C19", "C21"}}, ["MCAtRest"],
                 ["xchacha20-poly1305 is as strong as claimed; nonces of 19 random bytes do not repeat by chance"], technique=PROGRAM),
    "C21": check({"growserved": {"C21"}, "pipeserved": {"C21"}}, ["Growing"],
                 ["the writer never pauses longer than the request timeout; it appends only"], technique=PROGRAM),
    "C20": check({"sec": {"C20"}}, SEC, SECRET, deep=["Security_b"]),
}
