"""What each check runs (see check.py)."""

def codec(cfg, own=()):
    return [dict(name="codec", spec="CodecTrace", cfg=cfg, own=list(own))]

def archive(cfg):
    return [dict(name="archive", spec="ArchiveTrace", cfg=cfg, own=["harness"])]

def store(cfg):
    return [dict(name="store", spec="StoreTrace", cfg=cfg, own=["harness"])]

# what the generator of legal streams claims about its own streams
GEN = ["size", "checksum", "stream", "content"]

def update(cfg):
    return [dict(name="update", spec="UpdateTrace", cfg=cfg, own=["harness"])]

def extract(cfg):
    return [dict(name="extract", spec="ExtractTrace", cfg=cfg, own=["harness"])]

PLAN = {
    "C01": dict(traces=codec("CodecRound")),
    "C02": dict(traces=codec("CodecRound")),
    "C03": dict(traces=codec("CodecStored")),
    "C04": dict(traces=codec("CodecLegal")),
    "C05": dict(traces=codec("CodecRead", GEN)),
    "C06": dict(traces=codec("CodecRead", GEN)),
    "C07": dict(traces=codec("CodecRead", GEN)),
    "C08": dict(traces=store("StoreMeta")),
    "C09": dict(traces=archive("ArchiveHead")),
    "C10": dict(traces=archive("ArchiveSum")),
    "C11": dict(traces=archive("ArchiveCut")),
    "C12": dict(traces=archive("ArchiveAny")),
    "C13": dict(traces=store("StoreHist"), models=[dict(spec="StoreModel", cfg="StoreModel")],
                generate=[dict(name="histories", spec="StoreGen", cfg="StoreGen", quick=500, thorough=10000, depth=13)]),
    "C14": dict(traces=update("UpdateAtomic"), models=[dict(spec="UpdateModel", cfg="UpdateModel"), dict(spec="UpdateModel", cfg="UpdateCareless", expect=(12, 13))]),
    "C15": dict(traces=extract("ExtractIn"), models=[dict(spec="ExtractModel", cfg="ExtractModel")]
                + [dict(spec="ExtractModel", cfg="ExtractCareless_" + c, expect=(12,)) for c in ("dots", "links", "last")]),
    "C16": dict(traces=extract("ExtractPut"), models=[dict(spec="ExtractModel", cfg="ExtractModel")]),
    "C17": dict(traces=[dict(name="session", spec="Session", cfg="Session", own=["harness"])]),
    "C18": dict(traces=extract("ExtractNot")),
    "C19": dict(traces=[dict(name="cli", spec="CliTrace", cfg="CliTrace", own=["harness"])] + extract("ExtractCli") + store("StoreCli")),
    "C20": dict(traces=update("UpdateMove"), models=[dict(spec="UpdateModel", cfg="UpdateModel")]),
    "C21": dict(traces=[dict(name="release", spec="Release", cfg="Release", own=["harness"])]),
}

# the design of the coders and headers, for small constants
LZ = [dict(spec="LzModel", cfg="LzModel"), dict(spec="LzModel", cfg="LzCareless", expect=(12,))]
CANON = [dict(spec="CanonModel", cfg="CanonModel")]
HUFF = [dict(spec="HuffModel", cfg="HuffModel")]
GROW = [dict(spec="HuffModel", cfg="HuffModelGrow")]
HEAD = [dict(spec="HeaderModel", cfg="HeaderModel", tier="quick"), dict(spec="HeaderModel", cfg="HeaderModelFull", tier="thorough")]
for _p, _m in {"C01": LZ + CANON, "C02": LZ + HUFF, "C04": CANON + HUFF, "C05": LZ + CANON, "C06": LZ + HUFF + GROW,
               "C07": LZ + CANON, "C08": HEAD, "C09": HEAD, "C11": HEAD}.items():
    PLAN[_p]["models"] = _m

TRUST = " Trusts the specification's reading of the format, TLC, and the recording by the Go harness (public interface only); inputs are sampled (seeded), not exhausted."
NOTES = {
    "C01": ("TLA+ trace validation: TLC follows recorded members through Codec",
            "Every recorded round trip (contents aimed at window edges, match limits, table shapes, several blocks) must come back with its size and CRC as the specification computes them."),
    "C02": ("TLA+ trace validation: TLC follows recorded members through Codec",
            "As C01 for lh1, with contents that force long adaptive codes and several rebuilds of the tree."),
    "C03": ("TLA+ trace validation: TLC follows recorded members through Codec",
            "Members for every method number and level, compressible or not; those stored must be byte for byte the content."),
    "C04": ("TLA+ trace validation: TLC decodes the bytes written, code by code",
            "The packed bytes are read by the specification's own decoder (block tables, adaptive tree), independent of the implementation's."),
    "C05": ("TLA+ trace validation of streams made outside the implementation",
            "Legal lh4-lh7 streams from an independent generator of unusual constructs; the specification decides what they mean, the implementation must agree."),
    "C06": ("TLA+ trace validation of streams made outside the implementation", "As C05 for lh1, lh2 and lh3 (adaptive and static trees)."),
    "C07": ("TLA+ trace validation of streams made outside the implementation", "As C05 for lh0, lz4, pm0, lzs, lz5 and pm2."),
    "C08": ("TLA+ trace validation: TLC parses the headers written and compares them with the sources",
            "Names, sizes, times, modes at levels 0-2, generic or not; the header must be well formed by Header.tla and say what the source was."),
    "C09": ("TLA+ trace validation: TLC reads the same archives and compares the listing",
            "Well-formed and damaged headers of levels 0-3 with extensions in every order; verdicts free, bad and ok are the specification's."),
    "C10": ("TLA+ trace validation: TLC decides which members are sound and compares what was delivered",
            "Damage to packed data and checksums, through every decoding interface."),
    "C11": ("TLA+ trace validation: TLC decides what each cut leaves and compares what was delivered",
            "Cuts of archives of all methods and levels; small archives at every position."),
    "C12": ("TLA+ trace validation of hostile input", "Noise, splices, wrong tables and sizes: every operation must end, and write no more than is announced."),
    "C13": ("TLA+ model checking of Store; histories generated by TLC and at random, replayed and validated",
            "StoreModel is exhausted for 3 names, 2 contents and 2 times; the archive bytes after every step of each replayed history must be one Store allows."),
    "C14": ("TLA+ refinement check of the update protocol; system-call traces validated on Disk, with kills and failing calls",
            "UpdateModel (every call may fail, a kill before each) refines Update, exhaustively for its bounds; recorded calls are replayed on the specification's disk, where every state between two calls is a crash point. Crash means the process, not the power."),
    "C15": ("TLA+ model checking of extraction; recorded trees validated by Extract",
            "ExtractModel: all sequences of 3 members from a hostile set stay inside, and do not when one check is left out; the real code runs as an unprivileged user in a scratch cage."),
    "C16": ("TLA+ model checking of extraction; recorded trees validated by Extract",
            "Members, existing files, options, answers and file-size limits; the tree afterwards must be the one Extract gives."),
    "C17": ("TLA+ trace validation: a memo of first results judges every later one",
            "Operations in sequences of one process against the same operation alone in a fresh process."),
    "C18": ("TLA+ trace validation: trees before and after operations that only read", "All reading operations and no-execute runs on sound and damaged archives."),
    "C19": ("TLA+ trace validation of the built command: status, listing and effects judged by Archive, Extract and Store",
            "The command is run as a process; the listing is parsed by the specification."),
    "C20": ("TLA+ refinement check of the update protocol; system-call traces validated on Disk, with kills and failing calls",
            "As C14 for moves: no source goes before the archive that holds it is in place."),
    "C21": ("TLA+ state machine of the files a process has open, checked with TLC on recorded operations",
            "Open files are read from the process table before and after each operation, with the collector held off, over the operations of the other checks and additions that fail for lack of space or permission."),
}
for _p, (_t, _n) in NOTES.items():
    PLAN[_p].update(technique=_t, note=_n + TRUST)
