#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import suite
props = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note, na=None):
    props.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/" + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])), note, na))
S = "src/"
prop("C01", "Round trip: patching the old file with its delta gives the new file",
 "For any old file, any new file and any signature parameters, applying to the old file the delta computed from its signature and the new file reproduces the new file byte for byte. This holds for every signature format and does not depend on how any of the jobs are fed.",
 ["inputs", "configurations", "schedules"], "all pairs of files, formats, block and strong lengths, call slicings",
 "tests run a few dozen fixed file pairs; an off-by-one in matching or rolling shows only for particular relations of the two files", ["delta.c", "patch.c", "mksum.c", "readsums.c", "sumset.c", "emit.c"],
 [("greedy matching loop", "rs_delta_s_scan, rs_findmatch, rs_appendmatch in src/delta.c"), ("command interpreter", "rs_patch_s_* in src/patch.c"), ("signature generation and loading", "src/mksum.c, src/readsums.c")], "output of the patch job",
 "bounded: all symbolic contents up to the stated sizes; strong hash replaced by an injective stand-in")
prop("C02", "Results do not depend on how the caller slices input and output",
 "A job's complete output and final result depend only on the bytes of its input, never on how many bytes of input or output space each call offers or when the end of input is announced. (A delta made without a signature may divide its literal data differently; what it stands for is the same.)",
 ["schedules", "inputs"], "all sequences of input and output area sizes for all inputs",
 "the test suite uses a handful of fixed buffer sizes; state kept across a block at a particular byte is reached only by particular slicings", ["job.c", "scoop.c", "tube.c", "delta.c", "patch.c", "mksum.c", "readsums.c"],
 [("saved partial input", "rs_scoop_* in src/scoop.c"), ("queued output", "rs_tube_* in src/tube.c"), ("state functions", "src/delta.c, src/patch.c, src/mksum.c, src/readsums.c")], "bytes written to the output areas and the last result of rs_job_iter",
 "bounded: first calls arbitrary, then the rest in one go or byte by byte")
prop("C03", "Applying any delta does exactly what the format says or reports an error",
 "For every byte string given as a delta, patching either produces exactly the output the documented format prescribes and succeeds, or stops with the error that describes the defect (bad magic, corrupt, ended early) after a prefix of that output. It never reads or writes outside its buffers and never loops.",
 ["inputs"], "all delta streams, valid or hostile, and all basis files", "tests feed a few hand-made bad deltas; the space of malformed parameters and truncation points is astronomically larger", ["patch.c", "prototab.c", "netint.c"],
 [("opcode table", "rs_prototab in src/prototab.c"), ("command parameters and validation", "rs_patch_s_params, rs_patch_s_literal, rs_patch_s_copy in src/patch.c")], "output and result of the patch job",
 "bounded: every delta of up to 8+4 (thorough 12+4) bytes against a reference interpreter of doc/format.md")
prop("C04", "Loading any signature is exact and safe",
 "For every byte string given as a signature, loading either yields exactly the format, block length, strong length and block sums it contains, or reports bad magic, corruption or early end. A truncated or nonsensical signature is never accepted and never causes an out-of-bounds access.",
 ["inputs"], "all signature streams, valid, truncated or hostile", "tests load only well-formed signatures and a few truncations", ["readsums.c", "sumset.c"],
 [("header and entry parsing", "rs_loadsig_s_* in src/readsums.c"), ("header validation", "rs_signature_init in src/sumset.c")], "result of the loadsig job, block count and stored sums",
 "bounded: every stream of up to 18 bytes, and up to 16 bytes of entries after any valid header")
prop("C05", "A signature describes the file exactly in the documented format",
 "The signature of any file is the requested magic, block length and strong length followed by the rolling and (truncated) strong sum of each consecutive block, the last one possibly short, and nothing else. Unusable parameters are refused before anything is written.",
 ["inputs", "configurations"], "all files, formats, block lengths and strong lengths", "golden-file tests cover a few parameter combinations", ["mksum.c", "sumset.c", "job.c"],
 [("header", "rs_sig_s_header in src/mksum.c"), ("block loop", "rs_sig_s_generate in src/mksum.c")], "output of the signature job",
 "bounded: files of up to 5 (thorough 12) bytes with block length up to 3 (6), compared with a reference writer")
prop("C06", "Rolling a checksum equals computing it afresh",
 "After any sequence of adding, removing and rotating bytes, each rolling checksum equals the checksum of the bytes in the window computed from scratch by its definition. This holds for both kinds and any split into updates.",
 ["inputs", "histories"], "all byte contents and all sequences of operations", "tests roll over a few fixed buffers; a wrong coefficient or overflow cancels for regular data", ["rollsum.c", "rollsum.h", "rabinkarp.c", "rabinkarp.h", "checksum.h", "checksum.c"],
 [("rollsum update and rotate", "src/rollsum.c, src/rollsum.h"), ("RabinKarp power table and update", "src/rabinkarp.c, src/rabinkarp.h")], "digest and count of the rolling sum",
 "one roll step decided for windows of any length (inductive); bulk update for windows of up to 20 (40) bytes")
prop("C07", "Strong sums are MD4 and BLAKE2b as published",
 "The strong sum of a block is the standard MD4 digest or the 32-byte BLAKE2b digest of its bytes, for every length and alignment and for every way of feeding the bytes in pieces.",
 ["inputs", "schedules"], "all messages and splits into updates", "test vectors check a few messages; a padding or carry fault shows at particular lengths or counts only", ["mdfour.c", "blake2b-ref.c", "checksum.c"],
 [("MD4 buffering and padding", "src/mdfour.c"), ("BLAKE2b", "src/blake2/blake2b-ref.c"), ("dispatch", "rs_calc_strong_sum in src/checksum.c")], "digest bytes",
 "bounded: all contents of all lengths 0..130 (200) bytes MD4, selected length ranges up to 258 (all to 260) BLAKE2b, against independent reference code")
prop("C08", "Every position and length survives encoding and decoding",
 "Every copy position and length and every literal length that the library can emit is encoded in the shortest form the format allows and decoded to the same value. Integers are big-endian of the stated width, also when they arrive in pieces.",
 ["inputs"], "all 63-bit positions and lengths, all input sizes", "values above 2^31 or 2^32 need files of that size, which tests do not make", ["emit.c", "netint.c", "prototab.c", "patch.c", "delta.c"],
 [("command writer", "rs_emit_* in src/emit.c"), ("integer coding", "rs_squirt_netint, rs_suck_netint, rs_int_len in src/netint.c")], "encoded bytes; decoded parameters seen by the copy callback",
 "complete over 64-bit values; each command on its own")
prop("C09", "Block lookup finds a matching block exactly when there is one",
 "Looking up a window's sums in a loaded signature reports a block only if its weak and strong sums both match, reports one whenever such a block exists, and prefers the earliest. Colliding weak sums, duplicates and any table layout make no difference.",
 ["inputs", "histories"], "all signatures and all windows", "collisions of 32-bit sums and wrap-around of the table almost never occur in test data", ["sumset.c", "hashtable.c", "hashtable.h"],
 [("hash table", "src/hashtable.c"), ("match comparison", "rs_block_match_cmp in src/sumset.c")], "rs_signature_find_match",
 "bounded: tables of 2 to 5 blocks with arbitrary and with deliberately colliding sums")
prop("C10", "A delta finds the matches a left-to-right scan finds and encodes them fully",
 "The delta of a new file is the canonical one: at each position, left to right, a window equal to an old block becomes a copy and otherwise one literal byte is emitted, adjoining copies and literals are merged, and the delta ends with one end command. An unchanged file therefore becomes copies only.",
 ["inputs", "schedules"], "all pairs of files", "tests compare sizes or round trips; a missed match still round-trips", ["delta.c", "emit.c"],
 [("scan and flush", "rs_delta_s_scan, rs_delta_s_flush in src/delta.c"), ("merging", "rs_appendmatch, rs_appendmiss, rs_appendflush in src/delta.c")], "output of the delta job",
 "bounded: new files up to 12 (16) bytes, block length 2 or 3; block lookup by its specification (C09)")
prop("C11", "Signature parameter advice is always usable",
 "For every file size, format and requested lengths, the advised parameters are accepted by the signature generator: a known format, a positive block length, and a strong length between the documented minimum and the hash length; impossible requests are refused. Recommended lengths grow with the file as documented.",
 ["inputs", "configurations"], "all file sizes below 2^62, all formats and requests", "tests sample a few sizes; rounding of square roots and logarithms goes wrong at isolated values", ["sumset.c", "util.c", "util.h"],
 [("advice", "rs_sig_args in src/sumset.c"), ("integer square root and logarithm", "rs_long_sqrt, rs_long_ln2 in src/util.c")], "rs_sig_args results",
 "recommended block length: 10 windows of 2^16 sizes (thorough 2^20); given block length: every size below 2^62")
prop("C12", "Nothing is lost or invented when streams outgrow internal buffers",
 "On streams longer than the library's internal buffers, fed in pieces smaller or larger than those buffers, every byte reaches the result exactly once and in order.",
 ["schedules", "inputs"], "all slicings of long streams", "buffer growth, shifting and carry-over depend on the history of piece sizes", ["scoop.c", "tube.c", "job.c", "delta.c"],
 [("input accumulation", "rs_scoop_input, rs_scoop_readahead in src/scoop.c"), ("output queue and copy-through", "src/tube.c")], "output of the jobs",
 "bounded: streams of 250 bytes of symbolic data, two arbitrary cuts on a grid, then fixed pieces")
prop("C13", "Statistics describe what was actually done",
 "The counts of commands, command bytes, literal and copied bytes, blocks and bytes read and written that a job or file operation reports equal those of the data it actually read and wrote.",
 ["inputs", "schedules"], "all inputs and slicings", "tests print statistics without checking them against the data", ["patch.c", "emit.c", "mksum.c", "readsums.c", "delta.c", "job.c", "whole.c"],
 [("counters", "stats updates in src/emit.c, src/patch.c, src/mksum.c, src/readsums.c, src/whole.c")], "rs_job_statistics and the statistics filled in by the file functions",
 "bounded: as the harnesses of C03, C04, C05, C08, C10, C16 with counters compared")
prop("C14", "Jobs make progress, finish once, and tolerate empty calls",
 "A call that has input and output space makes progress or ends the job; at end of input with space the job ends; a call with empty areas changes nothing. After the end, good or bad, every further call repeats the result and touches nothing, and data following the end of a delta is left unread.",
 ["histories", "schedules"], "all call histories including empty calls and calls after the end", "tests always offer sensible buffers and stop at the first final result", ["job.c", "scoop.c", "tube.c"],
 [("iteration loop", "rs_job_iter, rs_job_work in src/job.c")], "results of rs_job_iter and buffer counts",
 "bounded: up to 3 (4) arbitrary calls for every kind of job, then completion")
prop("C15", "The copy callback is asked for exactly the range of each copy command",
 "For each copy command the callback is asked for consecutive sub-ranges that start at the command's position, never exceed its remaining length or the output space, and add up to its length; whatever it returns, short, in its own buffer or with an error, reaches the output or the result unchanged.",
 ["inputs", "schedules", "fault_sequences"], "all 63-bit positions and lengths, callback behaviours and output areas", "tests use small files and a well-behaved callback", ["patch.c"],
 [("copy state", "rs_patch_s_copying in src/patch.c")], "arguments of the callback and output of the patch job",
 "complete over positions and lengths; up to 3 output areas of up to 3 bytes")
prop("C16", "Whole-file functions survive short reads and report every fault",
 "The file-to-file functions give the same result as the streaming jobs for any pattern of short reads and any buffer sizes, and if a read, write or seek fails at any point they return an error instead of success. They free everything they allocated.",
 ["fault_sequences", "inputs"], "all short reads and a fault at any call", "tests run on ordinary files where reads are full and never fail", ["whole.c", "buf.c", "fileutil.c"],
 [("buffer filling", "rs_infilebuf_fill, rs_outfilebuf_drain in src/buf.c"), ("drivers", "rs_whole_run and rs_*_file in src/whole.c"), ("random access", "rs_file_copy_cb in src/buf.c")], "result and contents of the output file",
 "bounded: small files, modelled stdio with one (two) short reads and one fault anywhere")
prop("C17", "Opening an output never destroys an existing file unless forced",
 "Without force, opening an output file whose name exists fails and leaves the file intact whatever its permissions; with force it is replaced; inputs are opened read-only. Standard streams are used for no name or a dash and are never closed, and every failure ends with the I/O error status and no stream left open.",
 ["configurations", "fault_sequences"], "all states of the name, modes, force flags and transient failures", "tests check the plain case of an existing readable file", ["fileutil.c"],
 [("open", "rs_file_open, rs_file_close in src/fileutil.c")], "file system calls made and exit status",
 "complete over the modelled states of one name")
prop("C18", "Hex and base64 text encodings are exact inverses and stay in bounds",
 "Hex text is two lower-case digits per byte; base64 text is the standard alphabet without padding, decoding it returns exactly the encoded bytes and their number, and decoding arbitrary text stops at the first foreign character without writing past the decoded length.",
 ["inputs"], "all byte strings and all texts", "the tests encode a few strings", ["hex.c", "base64.c"],
 [("codecs", "rs_hexify in src/hex.c, rs_base64 and rs_unbase64 in src/base64.c")], "texts and bytes",
 "bounded: up to 40 bytes hex, 8 (16) bytes base64, 4 (5) arbitrary characters")
prop("C19", "Messages stay inside their buffers and reach the log exactly when enabled",
 "Formatting statistics, log lines and error descriptions never writes outside the buffer given, always terminates the text, and truncates instead of overflowing. A log message is delivered once if and only if its level is enabled, and every result code has its own description.",
 ["inputs", "configurations"], "all buffer sizes, message lengths, levels and result codes", "tests use one comfortable buffer", ["stats.c", "trace.c", "msg.c"],
 [("statistics text", "rs_format_stats in src/stats.c"), ("log filter and formatting", "rs_log_va in src/trace.c"), ("descriptions", "rs_strerror in src/msg.c")], "caller's buffer, log callback",
 "bounded: C-library formatting replaced by its contract; selected message lengths around every buffer limit")
prop("C20", "Dropping a job at any point frees everything it held",
 "A job freed after any number of calls, on good or damaged input, releases all memory it allocated, exactly once, and touches none of the caller's buffers afterwards.",
 ["histories", "inputs"], "every point of every job's life", "tests free jobs after they finished", ["job.c", "scoop.c", "sumset.c", "delta.c"],
 [("job teardown", "rs_job_free in src/job.c")], "heap and caller's buffers",
 "bounded: up to 2 (3) arbitrary calls, one damaged byte")
prop("C21", "Jobs in progress do not influence one another",
 "Any number of jobs of any kinds interleaved call by call, including several that share one loaded signature, give the results each gives alone.",
 ["schedules"], "all interleavings of calls to two jobs", "tests run one job at a time", ["job.c", "delta.c", "patch.c", "scoop.c", "sumset.c"],
 [("per-job state", "struct rs_job in src/job.h")], "outputs and results of the two jobs",
 "bounded: two jobs, 2 or 3 arbitrary calls each")
prop("C22", "The rdiff command does what was asked and its exit status tells the truth",
 "Each rdiff command opens the named files in their proper roles, passes on the chosen formats and lengths, and exits zero exactly when the operation and the final write-out of the output succeeded; usage mistakes are reported and end with a failure status.",
 ["configurations", "fault_sequences"], "all commands, options, file name counts, library results and close failures", "the shell tests run a few command lines on a healthy disk", ["rdiff.c", "fileutil.c", "isprefix.c"],
 [("actions", "rdiff_sig, rdiff_delta, rdiff_patch in src/rdiff.c"), ("options", "rdiff_options in src/rdiff.c")], "library calls made, files opened, exit status",
 "popt, stdio and the library calls are models; option combinations of up to 3 options")
prop("C23", "A delta stands for exactly the new file whatever signature it was made from",
 "Whatever a signature claims, honest, damaged or hostile, and whichever windows of the new file match its blocks, the delta is well formed and covers every byte of the new file exactly once and in order: literals are the file's own bytes, and every copy consists of whole blocks that have the sums of exactly those windows. Making it never fails, loops or leaves its buffers.",
 ["inputs", "schedules"], "all signatures, all patterns of matching windows, all call slicings", "tests make signatures only from real files, so colliding, repeated or far-away blocks and most match patterns never occur", ["delta.c", "sumset.c", "emit.c"],
 [("matching loop and merging", "rs_findmatch, rs_appendmatch, rs_appendmiss, rs_appendflush in src/delta.c"), ("lookup", "rs_signature_find_match in src/sumset.c")], "decoded delta against the new file and the lookup's answers",
 "bounded: new files of up to 8 (12) bytes whose windows match any or no block below 2^31; 2 blocks with arbitrary sums through the real lookup")
prop("C24", "Driving a job by callbacks equals iterating it and passes errors back",
 "rs_job_drive asks the input callback for data until it announced the end of input, offers the output callback everything produced including the last of it, and returns the job's own result and output whatever areas the callbacks provide. The first error of a callback ends the drive at once and is returned unchanged.",
 ["schedules", "fault_sequences"], "all sequences of areas offered by the callbacks and every failing call and code", "tests drive jobs with the file callbacks on healthy files only", ["job.c", "buf.c"],
 [("pull mode loop", "rs_job_drive in src/job.c")], "calls of the callbacks, result of rs_job_drive, output",
 "bounded: 2 or 3 arbitrary calls of each callback on streams of up to 30 bytes, then everything at once")
prop("C25", "The memory a job needs does not depend on the length of its streams",
 "The heap a job holds is bounded by its block length, the command size limit and the areas it is offered (for loading: by the data received), however long the streams are and whatever lengths a delta or signature claims, as long as output is taken as fast as input is offered. When the job is freed nothing remains.",
 ["inputs", "histories"], "all streams, claimed lengths and area sizes", "tests use small files and do not look at memory, so a buffer that grows with the stream or with a claimed length passes", ["scoop.c", "tube.c", "delta.c", "patch.c", "mksum.c", "readsums.c", "sumset.c"],
 [("input buffer growth", "rs_scoop_input in src/scoop.c"), ("block table growth", "rs_signature_add_block in src/sumset.c")], "sizes of the library's live allocations",
 "bounded: deltas of 9 and signatures of 12 arbitrary bytes; streams of 8000 bytes (150000 with the real limits)")
prop("C26", "Running out of memory is never silent",
 "If any one of the library's allocations fails, the library never uses the missing memory and never reports success: the process is aborted after an error message, or the call returns RS_MEM_ERROR, releases what it had allocated so far and can be repeated.",
 ["fault_sequences", "inputs"], "every allocation of every kind of job, of the hash table and of the whole-file functions", "tests never run out of memory, so an unchecked allocation or a leak on the failure path passes", ["util.c", "hashtable.c", "sumset.c", "scoop.c", "job.c", "buf.c"],
 [("checked allocation", "rs_alloc, rs_realloc, rs_alloc_struct0 in src/util.c"), ("hash table allocation", "_hashtable_new in src/hashtable.c")], "abort, error messages, rs_result, live allocations",
 "bounded: any one of the first 7 to 9 allocations of an operation fails")
H = os.path.dirname(os.path.abspath(__file__))
checks = []; na = []
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p, note, n in props:
        f.write(json.dumps(p) + "\n"); assert len(p["title"]) <= 80, p["title"]
        if n: na.append(dict(property=p["id"], reason=n)); continue
        P = suite.PROPS[p["id"]]
        c = dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", technique="symbolic execution of the library's LLVM IR with SMT (Z3) deciding every branch and assertion", level=P["level"],
            level_note=note + ". Trusted: the executor, Z3, the reference models; assumptions are listed in the evidence.")
        c["thorough_cmd"] = f"python3 check.py {p['id']} --tier thorough"
        checks.append(c)
assert sorted(suite.PROPS) == sorted(p["id"] for p, _, n in props if not n)
json.dump(dict(version=1, setup_cmd="python3 check.py --build",
    hooks=dict(guard="LIBRSYNC_VERIF_MAX_DELTA_CMD", enable="the executor compiles /repo/src with -DLIBRSYNC_VERIF_MAX_DELTA_CMD=<n> for the queries whose lib_defs say so (suite.py)", source_commits=[subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^job: let LIBRSYNC_VERIF"], stdout=subprocess.PIPE, text=True).stdout.strip()]),
    checks=checks, not_applicable=na,
    notes="check.py regenerates the LLVM IR from /repo on every run; the executor is built by setup_cmd into .build (or on demand)."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
