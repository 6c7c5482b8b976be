"""The queries of every property: harness, bounds, stand-ins.  See DESIGN.md."""
COMMON_ASSUMPTIONS = [
    "x86-64 Linux data model; allocation never fails up to 64 MiB and always fails above",
    "compiled without assertions (NDEBUG) and without rs_trace, as the build under /opt/vp does; log output and the clock are stubbed out except in the log queries",
    "the LLVM-18 -O0 IR (after sroa, early-cse, simplifycfg) has the semantics of the shipped gcc -O2 code",
    "engine, SMT solver and the reference models in harness/ are trusted; sampled paths of every query are re-run on the natively compiled code and must agree",
]
IHASH = "strong hashes are replaced by an injective stand-in (harness/ihash.c); the real ones are decided by C07"
PROPS = {}
def P(id, queries, assumptions=(), level="model_checking"):
    PROPS[id] = dict(queries=queries, assumptions=list(assumptions), level=level)
def Q(name, src, bounds, defs=(), wit=(), **kw):
    return dict(name=name, src=src, bounds=bounds, defs=list(defs), wit=list(wit), **kw)
def T(name, src, bounds, defs=(), wit=(), **kw):
    return Q(name, src, bounds, defs, wit, tier="thorough", **{"time": 1500, **kw})
IH = dict(stubs=["ihash.c"])
SEL = dict(IH, env={"LSYM_SELECT": "1"}) # minima written with ?: become branches

P("C01", [
  Q("oracle", "roundtrip.c", "basis <= 6, new <= 8 symbolic bytes, block length 2; block lookup replaced by its specification (C09)", ["NB=6", "NN=8", "ORACLE=1"], [2], **IH),
  Q("slices", "roundtrip.c", "basis 4, new 6 bytes, literal commands of at most 1 byte window so that all flush paths run; delta job called with arbitrary slices", ["NB=4", "NN=6", "ORACLE=1", "DM=S_ARB"], [2], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=4"], **IH),
  Q("pslices", "roundtrip.c", "basis 4, new 6 bytes; patch job called with arbitrary slices", ["NB=4", "NN=6", "ORACLE=1", "PM=S_ARB"], [2], **IH),
  Q("real", "roundtrip.c", "basis 4, new 4 bytes of a 2-letter alphabet, the real block lookup", ["NB=4", "NN=4", "ALPHA=2"], [2], **IH),
  Q("realnew", "roundtrip.c", "basis: concrete samples of 4 bytes; new: 4 arbitrary bytes; the real block lookup", ["NB=4", "NN=4", "CONCB=1"], [2], **IH),
  Q("realroll", "roundtrip.c", "as realnew with the rollsum formats and a 4-letter alphabet", ["NB=4", "NN=4", "CONCB=1", "MAGICS=0,1", "ALPHA=4"], [2], **IH),
  Q("full", "full.c", "files of up to 200 KB at the library's real limits: all formats, two block lengths, literal runs of 8 lengths around every limit; fixed contents", ["LENS=0,65536,1,32767,32768,65535,65537,100000", "L2MAX=1", "ICS=1000000", "OCS=1000000"], [], steps=400000000, time=400),
  T("oracle_large", "roundtrip.c", "basis <= 10, new <= 12 bytes, block length 3", ["NB=10", "NN=12", "BL=3", "ORACLE=1"], [2], **IH),
  T("real5", "roundtrip.c", "basis: concrete samples of 5 bytes; new: 5 arbitrary bytes; the real block lookup", ["NB=5", "NN=5", "CONCB=1"], [2], **IH),
], [IHASH, "strong sums collide only for equal blocks (stand-in hash is injective): the format's own probabilistic assumption"])

P("C02", [
  Q("patch", "patch.c", "4 delta bytes after the magic, every prefix length; first 2 calls arbitrary slices (input 0..all, output 0..4), callback may return short", ["N=4", "ANYLEN=1", "CBSHORT=1", "MODE=S_ARB"], [1, 2, 3], time=400),
  Q("patch_late", "patch.c", "6 delta bytes, end of input announced only after the last byte", ["N=6", "ANYLEN=1", "MODE=S_LATE"], [1, 2, 3]),
  Q("sig_bytes", "sig.c", "file <= 5 bytes, block length 0..3, byte at a time", ["N=5", "BLMIN=0", "BLMAX=3", "ANYLEN=1", "MODE=S_BYTE"], [1, 2], **IH),
  Q("sig_arb", "sig.c", "file <= 4 bytes, block length 1..3, arbitrary slices", ["N=4", "BLMIN=1", "BLMAX=3", "ANYLEN=1", "MODE=S_ARB"], [1, 2], **IH),
  Q("loadsig_bytes", "loadsig.c", "signature <= 22 bytes, strong sums <= 4, byte at a time", ["N=22", "ANYLEN=1", "GOOD=4", "MODE=S_BYTE"], [1, 2, 4]),
  Q("loadsig_arb", "loadsig.c", "signature <= 22 bytes, strong sums <= 2, arbitrary slices", ["N=22", "ANYLEN=1", "GOOD=2", "MODE=S_ARB"], [1, 2, 4]),
  Q("delta", "delta.c", "basis 4, new 8 bytes, literals flushed every 2 bytes, arbitrary slices", ["NB=4", "NN=8", "DM=S_ARB"], [1, 2, 3], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=5"], time=400, **IH),
  Q("delta_late", "delta.c", "as delta; end of input announced only after the last byte, output byte at a time or whole", ["NB=4", "NN=8", "DM=S_LATE"], [1, 2, 3], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=5"], **IH),
  Q("patch_wide", "patch.c", "two commands of any opcode with parameters, small values in every width, after one arbitrary cut", ["N=36", "CMDS=2", "WIDE=1", "MODE=S_IN2"], [1]),
  Q("patch_wide_bytes", "patch.c", "the same, end of input announced late", ["N=36", "CMDS=2", "WIDE=1", "MODE=S_LATE"], [1]),
  T("patch5", "patch.c", "5 delta bytes, otherwise as patch", ["N=5", "ANYLEN=1", "CBSHORT=1", "MODE=S_ARB"], [1, 2, 3]),
  T("patch_iters3", "patch.c", "4 delta bytes, first 3 calls arbitrary", ["N=4", "ANYLEN=1", "MODE=S_ARB", "ARB_ITERS=3"], [1, 2, 3]),
  T("sig_iters3", "sig.c", "file <= 4 bytes, first 3 calls arbitrary", ["N=4", "BLMIN=1", "BLMAX=3", "ANYLEN=1", "MODE=S_ARB", "ARB_ITERS=3"], [1, 2], **IH),
  T("loadsig_iters3", "loadsig.c", "signature <= 22 bytes, first 3 calls arbitrary", ["N=22", "ANYLEN=1", "GOOD=2", "MODE=S_ARB", "ARB_ITERS=3"], [1, 2, 4]),
], [IHASH, "delta with no signature (slack mode) is excluded: its literal commands follow the buffers; C08 and C20/C21 cover it"])

P("C03", [
  Q("any8", "patch.c", "magic plus 8 arbitrary delta bytes, basis 3, output <= 8 bytes", ["N=8"], [1, 2, 3]),
  Q("any10", "patch.c", "magic plus up to 10 arbitrary delta bytes", ["N=10", "ANYLEN=1"], [1, 2, 3]),
  Q("anymagic", "patch.c", "up to 8 bytes of delta, magic included, all arbitrary", ["N=4", "MAGIC=1", "ANYLEN=1"], [1, 2, 3, 4]),
  Q("bytes", "patch.c", "8 arbitrary delta bytes fed and drained byte by byte", ["N=8", "ANYLEN=1", "MODE=S_BYTE"], [1, 2, 3]),
  Q("ownbuf", "patch.c", "6 arbitrary delta bytes, callback returns its own buffer and short amounts", ["N=6", "CBPTR=1", "CBSHORT=1"], [1, 2, 3]),
  Q("literals", "patch.c", "one-byte literal commands of every length", ["N=70", "LITS=63", "OUTMAX=70"], [1, 2, 3]),
  Q("wide", "patch.c", "two commands of any opcode with parameters, small values in every width", ["N=36", "CMDS=2", "WIDE=1"], [1]),
  T("any12", "patch.c", "up to 12 arbitrary delta bytes, output <= 10", ["N=12", "ANYLEN=1", "OUTMAX=10"], [1, 2, 3]),
  T("any9b5", "patch.c", "9 arbitrary delta bytes, basis 5", ["N=9", "B=5", "OUTMAX=12"], [1, 2, 3]),
])

P("C04", [
  Q("any", "loadsig.c", "up to 18 arbitrary bytes", ["N=18", "ANYLEN=1"], [1, 3, 4]),
  Q("build", "loadsig.c", "up to 18 arbitrary bytes, then the hash table is built and searched", ["N=18", "ANYLEN=1", "BUILD=1"], [1, 3, 4]),
  Q("entries", "loadsig.c", "well-formed header (any format, strong sums 1..4), up to 16 arbitrary bytes of entries", ["N=28", "ANYLEN=1", "GOOD=4"], [1, 2, 4]),
  Q("bytes", "loadsig.c", "as entries with 10 bytes, byte at a time", ["N=22", "ANYLEN=1", "GOOD=4", "MODE=S_BYTE"], [1, 2, 4]),
  Q("grow", "stream.c", "signatures of 300 blocks of unknown total size, one arbitrary cut: every growth of the block table", ["KIND=2", "SL=5", "N=300", "GRAIN=90", "STEP=10", "CUTS=1"], [1], steps=100000000),
  T("entries_large", "loadsig.c", "as entries with 36 bytes, strong sums 1..8", ["N=48", "ANYLEN=1", "GOOD=8"], [1, 2, 4]),
])

P("C05", [
  Q("whole", "sig.c", "file <= 5 arbitrary bytes, block length 0..3, every format and several strong lengths", ["N=5", "BLMIN=0", "BLMAX=3", "ANYLEN=1"], [1, 2], **IH),
  Q("bytes", "sig.c", "as whole, byte at a time", ["N=5", "BLMIN=0", "BLMAX=3", "ANYLEN=1", "MODE=S_BYTE"], [1, 2], **IH),
  Q("slall", "sig.c", "file of 3 bytes, block length 2, every strong length", ["N=3", "BLMIN=2", "BLMAX=2", "SLALL=1"], [1], **IH),
  Q("badargs", "sigargs_err.c", "arbitrary 32-bit magic, 64-bit block length and strong length: the unusable ones are refused", [], [1, 2], **IH),
  T("large", "sig.c", "file <= 12 bytes, block length 0..6", ["N=12", "BLMIN=0", "BLMAX=6", "ANYLEN=1"], [1, 2], **IH),
], [IHASH])

P("C06", [
  Q("ops", "weak.c", "windows of up to 20 arbitrary bytes, any split into two updates, then 3 arbitrary roll operations", ["PART=1"], [1], time=400),
  Q("step", "weak.c", "one roll operation on a window of any length and content (inductive step)", ["PART=2"], [1, 2], optional=True),
  Q("long", "weak.c", "long windows of concrete data", ["PART=3"], [1], steps=200000000),
  T("ops40", "weak.c", "windows of up to 40 bytes, 4 operations", ["PART=1", "LMAX=40", "OPS=4"], [1]),
])

OP = dict(env={"LSYM_OPAQUE": "1"})
P("C07", [
  Q("md4", "hash.c", "MD4 of every message of 0..130 bytes, split in two updates around every block boundary (at every point up to 20 bytes)", ["PART=1", "LMAX=130"], [1], **OP),
  Q("blake_short", "hash.c", "BLAKE2b-256 of messages of 0..60 bytes, split in two around the block boundaries", ["PART=2", "LMAX=60"], [1], **OP),
  Q("blake_block", "hash.c", "BLAKE2b-256 of messages of 125..131 bytes, split in two around the block boundaries", ["PART=2", "LMIN=125", "LMAX=131"], [1], **OP),
  Q("blake_block2", "hash.c", "BLAKE2b-256 of messages of 254..258 bytes, split in two around the block boundaries", ["PART=2", "LMIN=254", "LMAX=258"], [1], **OP),
  Q("md4_count", "hash.c", "MD4 finalisation for any total length (64-bit count)", ["PART=3"], [1], optional=True, **OP),
  Q("vectors", "hash.c", "RFC test messages against the published digests", ["PART=4"], [], **OP),
  Q("md4_three", "hash.c", "MD4 of messages of 60..130 bytes in three updates, the first of any length", ["PART=1", "LMIN=60", "LMAX=130", "CUT3=0,1,2,55,62,63,64,65"], [1], **OP),
  Q("blake_three", "hash.c", "BLAKE2b-256 of messages of 125..131 bytes in three updates, the first of any length", ["PART=2", "LMIN=125", "LMAX=131", "CUT3=0,1,2,64,126,127,128,129"], [1], **OP),
  Q("blake_three2", "hash.c", "the same with 256..258 bytes", ["PART=2", "LMIN=256", "LMAX=258", "CUT3=1,127,128,129,256"], [1], **OP),
  Q("blake_count", "hash.c", "BLAKE2b-256 continued after any number of bytes below 2^62 (128-bit counter)", ["PART=5", "LMIN=1", "LMAX=130"], [1], optional=True, **OP),
  T("md4_long", "hash.c", "MD4 of messages of 131..200 bytes, split in two around the block boundaries", ["PART=1", "LMIN=131", "LMAX=200"], [1], **OP),
  T("blake_all", "hash.c", "BLAKE2b-256 of messages of 61..260 bytes, split in two around the block boundaries", ["PART=2", "LMIN=61", "LMAX=260"], [1], **OP),
], ["the compression functions' uninterpreted terms are compared structurally and by the solver; no cryptographic property is claimed"])

P("C08", [
  Q("copy", "codec.c", "copy commands with any 63-bit position and any length, decoded whole or byte by byte", ["PART=1"], [1, 2], optional=True),
  Q("literal", "codec.c", "literal commands of any length up to 2^31-1", ["PART=2"], [1, 2], optional=True),
  Q("ints", "codec.c", "integers of every width and value, split at any byte", ["PART=3"], [1], optional=True),
  Q("slack", "codec.c", "one delta call over an input area of 64 to 2^62 bytes", ["PART=4", "ROOM=16"], [1, 2]),
  Q("decode", "patch.c", "every opcode and parameter width in a delta of 10 bytes", ["N=10"], [1, 2, 3]),
  Q("runs", "bigrun.c", "runs of up to 5 adjacent matching blocks of any length below 2^31 at any position below 2^60 become one or two copy commands", [], [1, 2], optional=True, time=600, **SEL),
])

LK = dict(IH); 
P("C09", [
  Q("any2", "lookup.c", "2 blocks of any length with arbitrary weak and strong sums, one arbitrary lookup", ["IH_RAW=1", "K=2", "ANYK=1", "ANYBL=1"], [1, 2], **IH),
  Q("bucket4", "lookup.c", "4 blocks of any length in one bucket", ["IH_RAW=1", "K=4", "COLLIDE=1", "ANYBL=1"], [1, 2, 3], **IH),
  Q("probe4", "lookup.c", "4 blocks in neighbouring buckets (probe chains)", ["IH_RAW=1", "K=4", "COLLIDE=2"], [1, 2, 3], **IH),
  Q("edge4", "lookup.c", "4 blocks around the reserved key and the last bucket (wrap-around)", ["IH_RAW=1", "K=4", "COLLIDE=3", "SMALLSTRONG=1"], [1, 2, 3], **IH),
  Q("many", "many.c", "70000 blocks with concrete sums: every first byte of the block, at 10 positions of the table", ["IH_RAW=1", "MAGICS=0,3"], [1, 2], steps=400000000, **IH),
  T("many_more", "many.c", "700000 blocks, all formats", ["IH_RAW=1", "K=700000", "MAGICS=0,1,2,3"], [1, 2], steps=4000000000, **IH),
  T("edge5", "lookup.c", "5 blocks around the reserved key and the last bucket", ["IH_RAW=1", "K=5", "COLLIDE=3", "SMALLSTRONG=1"], [1, 2, 3], **IH),
  Q("tablesize", "hashsize.c", "table sizing for every number of blocks below 2^31", [], [1, 2], redirect=["malloc", "calloc"], optional=True),
  T("any3", "lookup.c", "3 blocks with arbitrary weak sums", ["IH_RAW=1", "K=3", "ANYK=1"], [1, 2], **IH),
], ["strong sum of a block is the block itself (stand-in hash)"])

D = dict(IH)
P("C10", [
  T("runs9", "bigrun.c", "runs of up to 9 adjacent matching blocks of any length below 2^31", ["M=9"], [1, 2], optional=True, **SEL),
  Q("greedy", "delta.c", "basis 6, new 8 arbitrary bytes, block length 2", ["NB=6", "NN=8"], [1, 2], **IH),
  Q("greedy3", "delta.c", "basis <= 8, new <= 12 bytes, block length 3 (short last block)", ["NB=8", "NN=12", "BL=3", "ANYLEN=1"], [1, 2, 4], **IH),
  Q("rollsum", "delta.c", "basis <= 9, new <= 12 bytes, block length 3, rollsum formats", ["MAGICS=0,1", "NB=9", "NN=12", "BL=3", "ANYLEN=1"], [1, 2], **IH),
  Q("flush", "delta.c", "literals flushed every 2 bytes, input byte at a time", ["NB=4", "NN=8", "DM=S_LATE"], [1, 2, 3], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=5"], **IH),
  Q("long", "delta.c", "basis 200, new 220 bytes (pattern with symbolic bytes), block length 64, byte at a time", ["PATTERN=70", "NB=200", "NN=220", "BL=64", "DM=S_BYTEIN"], [1, 2], steps=20000000, **IH),
  Q("runs", "bigrun.c", "runs of up to 5 adjacent matching blocks of any length below 2^31 are one copy command", [], [1, 2], optional=True, time=600, **SEL),
  T("greedy_large", "delta.c", "basis <= 12, new <= 16 bytes, block length 3", ["NB=12", "NN=16", "BL=3", "ANYLEN=1"], [1, 2, 4], **IH),
], [IHASH, "block lookup replaced by its specification, decided by C09"])

P("C11", [
  Q("recommended", "sigargs.c", "block length 0: every file size within 10 windows of 65536 values up to 2^62, and unknown size", ["PART=1", "WIN=16"], [1, 2, 3], time=400, steps=20000),
  Q("given", "sigargs.c", "every file size below 2^62 with given block and strong lengths", ["PART=2", "BLS=1,256,2147483647u,2147483648u,(size_t)-5", "SLS=0,(size_t)-1,17,33"], [2, 3, 4], time=400, steps=20000),
  T("recommended20", "sigargs.c", "windows of 2^20 values", ["PART=1", "WIN=20"], [1, 2, 3], time=3000),
  T("given_more", "sigargs.c", "more block lengths", ["PART=2", "BLS=2,3,1000,65536,1<<20", "SLS=0,(size_t)-1,8,12,13,32"], [2, 3], time=3000),
])

P("C12", [
  Q("sig", "stream.c", "250-byte file, block length 100, two arbitrary cuts on an 8-byte grid", ["KIND=1", "BL=100", "N=250", "IH_FOLD", "GRAIN=8", "STEP=0"], [], steps=30000000, **IH),
  Q("sig_pieces", "stream.c", "as sig, then 7-byte pieces", ["KIND=1", "BL=100", "N=250", "IH_FOLD", "GRAIN=8", "STEP=7"], [1], steps=30000000, **IH),
  Q("loadsig", "stream.c", "signature of 6 blocks, cuts on a 4-byte grid, then 5-byte pieces", ["KIND=2", "N=6", "GRAIN=4", "STEP=5"], [1], steps=30000000),
  Q("patch", "stream.c", "delta with long literals, cuts on an 8-byte grid, then 9-byte pieces", ["KIND=3", "GRAIN=8", "STEP=9"], [1], steps=30000000),
  Q("sig_one", "stream.c", "one arbitrary cut, then byte at a time", ["KIND=1", "BL=100", "N=250", "IH_FOLD", "CUTS=1", "STEP=1"], [1], steps=30000000, **IH),
  Q("delta", "delta.c", "basis 200, new 220 bytes, block length 64, byte at a time", ["PATTERN=70", "NB=200", "NN=220", "BL=64", "DM=S_BYTEIN"], [1, 2], steps=20000000, **IH),
  Q("delta_grow", "delta.c", "new file of 110 bytes, block length 2, 3 arbitrary cuts chosen so that the input buffer moves, grows while partly used, and grows when empty", ["MIX=12", "NB=8", "NN=110", "DM=S_CUTS", "CUT0=2,6", "CUT1=6,14", "CUT2=58,68"], [1, 3], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=5"], steps=20000000, **IH),
  Q("loadsig_grow", "stream.c", "signature of 300 blocks, two cuts on a 90-byte grid", ["KIND=2", "SL=5", "N=300", "GRAIN=90", "STEP=0"], [], steps=100000000),
  Q("full", "full.c", "files of up to 210 KB at the library's real buffer sizes: input pieces of 500..140000 bytes, output pieces of 3000 bytes or all", ["MAGLO=2", "LENS=100000,40000", "L2MAX=0", "ICS=500,32768,65535,70000,140000", "OCS=1000000,3000"], [1], steps=400000000, time=400),
  T("sig_fine", "stream.c", "two arbitrary cuts on a 2-byte grid", ["KIND=1", "BL=100", "N=250", "IH_FOLD", "GRAIN=2", "STEP=7"], [1], steps=30000000, **IH),
  T("patch_fine", "stream.c", "two cuts on a 3-byte grid", ["KIND=3", "GRAIN=3", "STEP=9"], [1], steps=30000000),
], [IHASH])

ST = ["STATS=1"]
P("C13", [
  Q("patch", "patch.c", "delta of up to 8 arbitrary bytes: counters equal the commands in it", ["N=8", "ANYLEN=1"] + ST, [1, 2, 3]),
  Q("patch_bytes", "patch.c", "the same, byte at a time", ["N=6", "ANYLEN=1", "MODE=S_BYTE"] + ST, [1, 2, 3]),
  Q("delta", "delta.c", "basis <= 8, new <= 12 bytes: counters equal the commands emitted", ["NB=8", "NN=12", "BL=3", "ANYLEN=1"] + ST, [1, 2, 4], **IH),
  Q("delta_flush", "delta.c", "literals flushed every 2 bytes", ["NB=4", "NN=8", "DM=S_LATE"] + ST, [1, 2, 3], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=5"], **IH),
  Q("sig", "sig.c", "block counts and bytes of files of up to 5 bytes", ["N=5", "BLMIN=0", "BLMAX=3", "ANYLEN=1"] + ST, [1, 2], **IH),
  Q("loadsig", "loadsig.c", "block counts of signatures of up to 28 bytes", ["N=28", "ANYLEN=1", "GOOD=4"] + ST, [1, 2, 4]),
  Q("copy", "codec.c", "copy counters for every position and length", ["PART=1"] + ST, [1, 2], optional=True),
  Q("literal", "codec.c", "literal counters for every length up to 2^31-1", ["PART=2"] + ST, [1, 2], optional=True),
  Q("sigfile", "whole.c", "whole-file signature with short reads and faults: bytes in and out", ["KIND=1"] + ST, [1, 2], redirect=["fread", "fwrite", "feof", "ferror", "fileno", "fseek", "fseeko", "fstat", "strerror"], **IH),
  Q("deltafile", "whole.c", "whole-file delta", ["KIND=3"] + ST, [1, 2], redirect=["fread", "fwrite", "feof", "ferror", "fileno", "fseek", "fseeko", "fstat", "strerror"], **IH),
  Q("patchfile", "whole.c", "whole-file patch", ["KIND=4"] + ST, [1, 2], redirect=["fread", "fwrite", "feof", "ferror", "fileno", "fseek", "fseeko", "fstat", "strerror"], **IH),
  Q("runs", "bigrun.c", "copy counters for runs of up to 5 blocks of any length", ["STATS=1"], [1, 2], optional=True, time=600, **SEL),
], [IHASH])

J = ["COARSE=1", "MS=1,JCAP", "JTEXT=0"]
P("C14", [
  Q("empty", "jobs.c", "each of the 5 kinds of job: 3 arbitrary calls with an empty call in between, then more calls after completion", ["PART=3", "CALLS=3"] + J, [1, 2], **IH),
  Q("empty_fine", "jobs.c", "2 arbitrary calls at every byte, more output sizes", ["PART=3", "CALLS=2"], [1, 2], **IH),
  Q("trailing", "patch.c", "data after the end command is left alone; zero-size areas", ["N=4", "ANYLEN=1", "MODE=S_ARB"], [1, 2, 3, 5], time=400),
  Q("ended", "jobs.c", "each kind of job on good, damaged or truncated input or with a failing callback, run to its end in any way (1 arbitrary call first), then called twice more with a new stream", ["PART=4", "CALLS=1"] + J, [1, 2, 3, 4, 5], **IH),
  T("ended2", "jobs.c", "as ended, 2 arbitrary calls first", ["PART=4", "CALLS=2"] + J, [1, 2, 3, 4, 5], **IH),
  T("empty4", "jobs.c", "4 arbitrary calls", ["PART=3", "CALLS=4"] + J, [1, 2], **IH),
], [IHASH])

P("C15", [
  Q("calls2", "copyreq.c", "a copy of any 63-bit position and length; 2 output areas of 0..3 bytes; callback short, own buffer or error", ["CALLS=2", "OUTM=3"], [1, 2, 3]),
  Q("calls3", "copyreq.c", "3 output areas of 0..2 bytes", ["CALLS=3", "OUTM=2"], [1, 2, 3], time=400),
  Q("bigout", "copyreq.c", "output areas of any size up to 2^62 bytes, the callback gives at most 2", ["CALLS=2", "OUTM=2", "BIGOUT=1"], [1, 2, 3]),
  T("calls3w", "copyreq.c", "3 output areas of 0..3 bytes", ["CALLS=3", "OUTM=3"], [1, 2, 3]),
])

VF = dict(redirect=["fread", "fwrite", "feof", "ferror", "fileno", "fseek", "fseeko", "fstat", "strerror"], **IH)
FB = "arbitrary short reads, one fault at any stdio call, buffer sizes 0..%s"
P("C16", [
  Q("sig", "whole.c", "signature of files of up to 5 bytes; " + FB % 3, ["KIND=1"], [1, 2], **VF),
  Q("loadsig", "whole.c", "loading a signature; " + FB % 3, ["KIND=2"], [1, 2], **VF),
  Q("delta", "whole.c", "delta; " + FB % 3, ["KIND=3"], [1, 2], **VF),
  Q("patch", "whole.c", "patch, random access to the basis; " + FB % 3, ["KIND=4"], [1, 2], **VF),
  Q("bigpos", "bigpos.c", "one copy of 1 to 3 bytes at any 63-bit position of a basis of any 63-bit size, one short read", [], [1, 2], **VF),
  Q("buflen", "buflen.c", "buffer lengths asked for by rs_sig_file and rs_delta_file for every block length", [], [1, 2], optional=True, **IH),
  Q("twice", "twice.c", "two operations of any kinds on the same streams, contents and positions changed in between, against the streaming job", [], [1, 2], **VF),
  T("sig2", "whole.c", "two short reads, 7 bytes; " + FB % 5, ["KIND=1", "SHORTS=2", "N=7", "BUFMAX=5"], [1, 2], **VF),
  T("loadsig2", "whole.c", "two short reads; " + FB % 5, ["KIND=2", "SHORTS=2", "N=7", "BUFMAX=5"], [1, 2], **VF),
  T("delta2", "whole.c", "two short reads, 7 bytes; " + FB % 5, ["KIND=3", "SHORTS=2", "N=7", "BUFMAX=5"], [1, 2], **VF),
  T("patch2", "whole.c", "two short reads; " + FB % 5, ["KIND=4", "SHORTS=2", "N=7", "BUFMAX=5"], [1, 2], **VF),
], [IHASH, "stdio is a model: fread and fwrite follow their contract, faults leave a partial transfer"])

P("C17", [
  Q("open", "fileopen.c", "names of up to 3 arbitrary characters or none, in any state (missing, unreadable, unwritable, bad directory), every mode and force flag, a transient failure at any open", [], [1, 2, 3, 4], redirect=["fopen", "fclose", "exit", "strerror", "fflush"]),
], ["the file system changes only through the calls modelled (no concurrent process)"])

P("C18", [
  Q("hex", "text.c", "hex of up to 40 arbitrary bytes", ["PART=1", "N=40"], [1]),
  Q("roundtrip", "text.c", "base64 of up to 8 arbitrary bytes and back", ["PART=2", "N=8"], [1]),
  Q("any", "text.c", "decoding any text of up to 4 characters", ["PART=3", "N=4"], [1, 2]),
  Q("alphabet", "text.c", "decoding base64 text of up to 12 characters", ["PART=4", "N=12"], [1]),
  T("roundtrip16", "text.c", "base64 of up to 16 bytes and back", ["PART=2", "N=16"], [1]),
  T("any5", "text.c", "decoding any text of up to 5 characters", ["PART=3", "N=5"], [1, 2]),
])

FM = dict(redirect=["snprintf", "vsnprintf", "sprintf", "vsprintf"])
P("C19", [
  Q("stats", "fmt.c", "formatting statistics into a buffer of any small size, any formatted length", ["PART=1"], [1, 2], **FM),
  Q("logstats", "fmt.c", "logging statistics", ["PART=2"], [1], **FM),
  Q("log", "fmt.c", "log messages of 11 lengths around the internal buffer, every level and threshold", ["PART=3", "NLENS=11"], [1, 2], **FM),
  Q("logtext", "fmt.c", "log messages really formatted: 14 text lengths up to 3000 and 7 function name lengths up to 1100, two arbitrary characters, every level", ["PART=4"], [1, 2], redirect=["snprintf", "vsnprintf", "sprintf", "vsprintf"], steps=5000000, time=300),
  Q("dump", "fmt.c", "dump of a signature of 0 to 2 blocks of every format and strong length, two arbitrary bytes", ["PART=5"], [1, 2], redirect=["snprintf", "vsnprintf", "sprintf", "vsprintf"], stubs=["ihash.c"], steps=5000000, time=300),
  Q("strerror", "strerr.c", "every 32-bit result code", [], [0, 1]),
  T("stats_more", "fmt.c", "formatted lengths of 6 sizes", ["PART=1", "NLENS=6"], [1, 2], **FM),
], ["formatting functions of the C library follow their contract (truncate, terminate, return the full length)"])

P("C20", [
  Q("abandon", "jobs.c", "each kind of job on damaged or good input, dropped after 0..2 arbitrary calls", ["PART=1", "CALLS=2", "MS=1,4,JCAP"], [1, 2, 3], time=400, **IH),
  Q("grow", "delta.c", "input buffer replaced by a larger one at 3 arbitrary cuts", ["MIX=12", "NB=8", "NN=110", "DM=S_CUTS", "CUT0=2,4", "CUT1=6,10", "CUT2=58,66"], [1, 3], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=5"], steps=20000000, **IH),
  T("abandon3", "jobs.c", "dropped after 0..3 arbitrary calls", ["PART=1", "CALLS=3", "MS=1,4,JCAP"], [1, 2, 3], **IH),
], [IHASH])

P("C21", [
  Q("two", "jobs.c", "two jobs of any kinds interleaved over 2 arbitrary calls each", ["PART=2", "CALLS=2"] + J, [1], **IH),
  Q("different", "jobs.c", "two jobs of any kinds on differently shaped data: 2 calls cut at any byte, 5 output sizes", ["PART=2", "CALLS=2", "ALT=1", "JTEXT=0", "MS=0,1,2,5,JCAP"], [1], time=400, **IH),
  Q("different3", "jobs.c", "the same, 3 calls with room for all output", ["PART=2", "CALLS=3", "ALT=1", "JTEXT=0", "MS=JCAP"], [1], time=400, **IH),
  Q("three", "jobs.c", "3 arbitrary calls", ["PART=2", "CALLS=3"] + J, [1], time=400, **IH),
], [IHASH, "calls of different jobs are interleaved, not concurrent: shared mutable state shows as a difference or an out-of-bounds access"])

P("C22", [
  Q("rdiff", "rdiff.c", "every command, option and number of file names; every library result; every close failure", [], [1, 2, 3, 4, 5, 6], redirect=["fopen", "fclose", "fflush", "ferror", "fprintf", "printf", "vsnprintf", "atoi", "exit", "strerror"], src_defs=["main=rdiff_main"], extra_src=["rdiff.c", "isprefix.c"], time=400),
  Q("names", "rdiff.c", "action, hash name or rolling sum name of up to 11 arbitrary characters", ["NLEN=11"], [2, 6], redirect=["fopen", "fclose", "fflush", "ferror", "fprintf", "printf", "vsnprintf", "atoi", "exit", "strerror"], src_defs=["main=rdiff_main"], extra_src=["rdiff.c", "isprefix.c"], time=400),
], ["popt, stdio and the whole-file library functions are models; C16 decides the latter"])

P("C23", [
  Q("any", "answers.c", "new file of up to 7 bytes; any window may match any of 2^31 blocks; block length 1 to 4 or more than the file", ["NN=7", "ANYLEN=1", "BL=1,2,3,4,20"], [1, 2, 3, 4], steps=20000000, time=400, **IH),
  Q("formats", "answers.c", "the other formats, new file of 8 bytes", ["NN=8", "BL=2,3", "MAGICS=0,1,3"], [1, 2, 3, 4], steps=20000000, **IH),
  Q("slices", "answers.c", "new file of 5 bytes, block length 2 or 3, job called with arbitrary slices", ["NN=5", "BL=2,3", "DM=S_ARB"], [1, 2, 3, 4], steps=20000000, time=400, **IH),
  Q("flush", "answers.c", "9 bytes, literals flushed every 2 bytes, end of input told late", ["NN=9", "BL=2,3", "DM=S_LATE"], [1, 2, 3, 4], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=5"], steps=20000000, time=400, **IH),
  Q("hostile", "hostile.c", "signature of 2 blocks with arbitrary sums, block length 2 or 2^31-1, new file of 3 bytes of a 2-letter alphabet; the real lookup", ["IH_RAW=1", "K=2", "NN=3", "ALPHA=2", "BLS=2,0x7fffffff"], [1, 2, 3, 4], steps=20000000, time=500, **IH),
  Q("hostile_bytes", "hostile.c", "block length 2, one byte at a time", ["IH_RAW=1", "K=2", "NN=3", "ALPHA=2", "DM=S_BYTE"], [1, 2, 3, 4], steps=20000000, time=400, **IH),
  T("any12", "answers.c", "12 bytes, one byte at a time", ["NN=12", "BL=2,3", "DM=S_BYTE"], [1, 2, 3, 4], steps=20000000, **IH),
  T("any10", "answers.c", "up to 10 bytes", ["NN=10", "ANYLEN=1", "BL=1,2,3,20"], [1, 2, 3, 4], steps=20000000, **IH),
  T("any8", "answers.c", "up to 8 bytes", ["NN=8", "ANYLEN=1", "BL=1,2,3,4,20"], [1, 2, 3, 4], steps=20000000, **IH),
  T("hostile1", "hostile.c", "block length 1", ["IH_RAW=1", "K=2", "NN=3", "ALPHA=2", "BLS=1"], [1, 2, 3, 4], steps=20000000, **IH),
  T("hostile4", "hostile.c", "new file of 4 bytes", ["IH_RAW=1", "K=2", "NN=4", "ALPHA=2"], [1, 2, 3, 4], steps=20000000, **IH),
], [IHASH + "; in the hostile queries it is the first byte of the block, so that blocks collide"])

P("C24", [
  Q("drive", "drive.c", "every kind of job on whole, halved and empty streams; 2 callback calls of each sort with arbitrary areas; a failure with any code at any of the first 5 calls", ["CALLS=2"], [1, 2, 3, 4], **IH),
  Q("drive3", "drive.c", "3 calls of each sort, any of the first 7 may fail", ["CALLS=3", "FAILS=7"], [1, 2, 3, 4], time=500, **IH),
], [IHASH])

AL = dict(redirect=["malloc", "calloc", "realloc", "free"], **IH)
P("C25", [
  Q("patch", "memory.c", "every delta of 9 bytes, whole and byte at a time: at most 4 KiB", ["PART=1", "N=9"], [1, 3], time=500, **AL),
  Q("loadsig", "memory.c", "every signature of 12 bytes behind any magic and header: at most 4 KiB and 64 per byte", ["PART=2", "N=12"], [1, 3], **AL),
  Q("streams", "memory.c", "streams of 8000 bytes, 4 input and 3 output area sizes, any set of windows matching: at most 4 KiB and 8 times the block length, command limit and input area", ["PART=3", "IH_FOLD", "LEN=8000"], [1, 2, 3, 4], lib_defs=["LIBRSYNC_VERIF_MAX_DELTA_CMD=100"], steps=50000000, time=400, **AL),
  Q("real", "memory.c", "streams of 150000 bytes with the library's own command limit", ["PART=3", "IH_FOLD", "LEN=150000", "NS=3000,70000", "MM=9000,100000"], [1, 2, 3, 4], steps=800000000, time=500, **AL),
], [IHASH, "output is taken as fast as input is offered (otherwise a delta job keeps the input it was given)"])

OM = dict(redirect=["malloc", "calloc", "realloc", "free", "abort"], **IH)
VM = dict(redirect=VF["redirect"] + OM["redirect"], **IH)
P("C26", [
  Q("jobs", "oom.c", "a job of any kind on whole or divided input; any one of its first 7 allocations fails", ["PART=1", "FAILS=7"], [1, 2], **OM),
  Q("table", "oom.c", "hash table of 1 to 6 blocks; any one of its allocations fails; a second try or none", ["PART=2", "FAILS=3", "BLOCKS=6"], [1, 2, 3], **OM),
  Q("files", "oom.c", "the whole-file functions with default and small buffers; any one of the first 9 allocations fails", ["PART=3", "FAILS=9"], [1, 2], **VM),
], [IHASH, "one allocation fails, later ones succeed"])
