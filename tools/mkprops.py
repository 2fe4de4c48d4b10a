#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Success implies the image described by the index",
  "Whenever a synchronization (csn or casync extract) exits successfully, the target's leading bytes are exactly the image its index describes: every chunk range hashes to the chunk id listed for it. This holds whatever the chunk sources delivered or did: corrupt, truncated, oversized, foreign, undecryptable or stale chunk data, bit rot, a local source that changes while or after it was scanned, a read-back of the target that returns something else, and an index with arbitrary entries.",
  ["fault_sequences","inputs","schedules","configurations"],
  "all indices, target contents, source configurations, and all sequences of bad data delivered at any point of a run",
  "The e2e tests corrupt one HTTP chunk once and one local chunk before start-up; they never change a source during a run, mix sources, repeat ids with other lengths, or corrupt encrypted or re-read data.",
  ["main.c","store.c","store-local.c","store-http.c","target.c","caibx.c","encrypt.c"],
  [("chunk id check of downloads","store-http.c:store_http_get_chunk"),("chunk id check of local chunks","store-local.c:store_local_get_chunk"),("chunk id check of chunks re-read from the target","target.c:target_get_chunk"),("resume check","target.c:target_check_chunk"),("length check and reuse of the last chunk","main.c:entry_cb"),("rejection of unrepresentable entries","caibx.c:caibx_iterate_entries")],
  [("buf / last_id","the chunk retrieved last, reused when the id repeats","main.c:entry_cb")],
  ["exit status","target contents after exit"])

p("C02", "Only verified image bytes are ever written to the target",
  "At every instant of every run, including runs that fail, are killed or were started without some of the standard descriptors, each byte written to the target is the byte the index's image has at that position: data that was not verified against its chunk id is never written, nothing is written beyond the end of the image, and target bytes outside the chunks written keep their previous content.",
  ["fault_sequences","crash_points","inputs","schedules"],
  "every write of every run, successful or not, under all store corruption, I/O faults and crash points",
  "Tests only look at the target after successful runs; a failing or interrupted run's writes and the bytes behind the image are never examined.",
  ["main.c","target.c","store-http.c","store-local.c","utils.c"],
  [("verification before target_write","main.c:entry_cb"),("positioned complete writes","utils.c:pwriteall")],
  [],["write calls on the target device","target bytes past the image end"])

p("C03", "Nothing but the existing target is modified",
  "A synchronization never modifies, truncates, creates, renames or deletes any file or device other than the target given on the command line: index, local sources, side-loaded indices and key files keep their content. A target that does not exist is never created and makes the run fail.",
  ["configurations","fault_sequences","crash_points","inputs"],
  "all configurations and fault sequences, in successful, failing and killed runs",
  "No test compares sources after a run or uses a missing target.",
  ["main.c","target.c","store-local.c","caibx.c","utils.c"],
  [("target opened without creation","target.c:target_new"),("sources opened read-only","store-local.c:store_local_new")],
  [],["all mutating calls on files and the file system name space"])

p("C04", "Successful synchronization is durable",
  "Once a synchronization has exited successfully, the complete image survives a power loss at any later moment, even if it consisted only of re-verifying data an interrupted earlier run had written. If the device reports that written data could not be committed to stable storage, the run does not report success.",
  ["crash_points","fault_sequences","histories"],
  "all histories of interrupted and completed runs, all delayed write-back failures, and every subset of uncommitted sectors lost at power loss",
  "Tests read the target back through the page cache of the same kernel; lost caches and failing write-back cannot happen there.",
  ["main.c","target.c"],
  [("flush of the target before success is reported","main.c:main, target.c:target_sync")],
  [],["durable target contents after exit status 0"])

p("C05", "Any interrupted synchronization can simply be re-run",
  "However earlier attempts ended - killed or power-cut at any instant with any part of the unsynced writes lost or torn, or failed because of I/O, network or memory errors - running the same command again in a working environment succeeds and yields the exact image.",
  ["crash_points","fault_sequences","histories"],
  "all sequences of interrupted or failed attempts, each cut at any operation with any unsynced subset surviving, followed by a healthy attempt",
  "test_resumption prepares one clean prefix by hand; no test interrupts a process, tears a chunk or loses writes.",
  ["main.c","target.c","caibx.c"],
  [("hash based resume check","main.c:entry_cb, target.c:target_check_chunk")],
  [("resuming","still inside the already intact prefix","main.c:entry_cb")],
  ["exit status and target after the last attempt"])

p("C06", "A re-run makes forward progress and redoes no intact prefix",
  "A run does not write again, nor fetch from any HTTP store, the chunks of the longest leading run of image chunks that is already intact on the target (except to serve the same content elsewhere in the image). Being killed at any moment never shortens that intact prefix, so repeatedly killed runs converge.",
  ["crash_points","histories","inputs"],
  "all initial target contents and all sequences of kills",
  "test_resumption checks a single two-chunk prefix prepared by the test.",
  ["main.c","target.c"],
  [("prefix check before fetching","main.c:entry_cb"),("strictly in-order writing","caibx.c:caibx_iterate_entries")],
  [("resuming","still inside the already intact prefix","main.c:entry_cb")],
  ["HTTP requests","target write ranges","intact prefix length before and after a kill"])

p("C07", "Short and interrupted I/O is invisible",
  "Reads and writes that transfer fewer bytes than asked for or are interrupted by a signal, in any number and combination, on the index, the local sources, the side-loaded indices, key files and the target, never change the outcome: the run ends exactly as it would have without them.",
  ["fault_sequences","inputs"],
  "all placements of short transfers and EINTR on every file and device used",
  "Regular files on a test machine never return short or interrupted transfers.",
  ["utils.c","chunker.c","caibx.c","target.c","store-local.c"],
  [("transfer loops","utils.c:readall, preadall, pwriteall"),("scan loop","chunker.c:chunker_scan_fd")],
  [],["exit status, target and request log compared with the fault-free expectation"])

p("C08", "HTTP delivery granularity is invisible, also when encrypted",
  "However the network splits a chunk's response into pieces (single bytes, pieces ending inside headers or blocks, large pieces, redirects, pauses shorter than the stall limit), and however the chunk was compressed, plain or encrypted, a chunk served correctly is accepted at the first request and written correctly. Encrypted stores are asked only for '.cacnk.enc' objects, plain ones only for '.cacnk', below '<base>/<first four hex digits>/<id>'.",
  ["schedules","inputs","configurations"],
  "all splits of the response body into delivery pieces, all compression settings, plain and encrypted stores, every mix of stores in one run",
  "A loopback server delivers each body in one fixed way; tests use four highly compressible chunks and one key.",
  ["store-http.c","encrypt.c"],
  [("carry-over buffer between deliveries","store-http.c:store_http_data_cb, decode_buffer_absorb"),("streaming decompression","store-http.c:handle_data"),("per-chunk keystream restart","encrypt.c:encrypt_restart"),("URL layout","store-http.c:set_url")],
  [("decode_buffer","bytes received but not yet decompressed","store-http.c")],
  ["HTTP requests","exit status","target"])

p("C09", "Transient download failures are retried from scratch with backoff",
  "A download that fails because the connection cannot be established, the host name cannot be resolved, or the transfer times out - before or in the middle of the body - is attempted again from the beginning, up to ten attempts in all, waiting 0.2 s before the second attempt and twice as long before each further one, but never longer than 10 s. If any of these attempts delivers the chunk, the chunk is used and the run proceeds as if the failures had not happened.",
  ["fault_sequences","schedules","inputs"],
  "all sequences of transient failures, including time-outs after any number of delivered bytes, plain and encrypted",
  "No test lets a connection fail or stall.",
  ["store-http.c"],
  [("retry loop","store-http.c:retried_curl_easy_perform"),("reset of the per-request state for each attempt","store-http.c"),("stall detection","store-http.c:store_http_new")],
  [],["HTTP attempts with their simulated times","exit status"])

p("C10", "A failing source never blocks another source that has the chunk",
  "If a chunk can be obtained from any configured store that works, the run does not fail because of any other store: after set-up, a store that reports errors, dies, lacks the chunk or delivers unusable data is passed over and the remaining stores are asked in order.",
  ["fault_sequences","configurations","schedules"],
  "all combinations of stores and all failures after set-up of all stores but one that can deliver the chunk",
  "Tests use at most one local and one HTTP store; the only failure they inject is bit rot in a side-loaded local store.",
  ["store.c","store-local.c","store-http.c","target.c","main.c"],
  [("fall-through and deactivation","store.c:store_chain_get_chunk")],
  [("active","store still in use","store.c:struct substore")],
  ["exit status","target"])

p("C11", "An HTTP store that keeps failing is abandoned, one that recovers is not",
  "Once more than ten downloads from an HTTP store have failed (by exhausted retries or by an HTTP error status other than 404 and 410) with no successful download from it in between, that store receives no further requests in this run. As long as that limit has not been exceeded and the store has not failed in another way, it is still asked, and a successful download starts the count afresh; answers that a chunk does not exist do not count.",
  ["fault_sequences","histories"],
  "all sequences of successes, absences and failures of a store over a run",
  "No test makes a server return anything but 200 and 404.",
  ["store-http.c","store.c"],
  [("error counter","store-http.c:increase_error_counter"),("deactivation","store.c:store_chain_get_chunk")],
  [("error_count","failed downloads since the last good one","store-http.c:struct store_http")],
  ["sequence of HTTP requests per store"])

p("C12", "Every run terminates",
  "Under any behaviour of servers (silent, stalling, trickling, refusing, redirecting endlessly), sources and devices, every run ends by itself within bounded time; in particular a transfer that stops making progress is given up after a bounded stall.",
  ["fault_sequences","schedules","inputs"],
  "all fault sequences, including permanent ones, and all index contents",
  "No test has an unresponsive server or a permanently failing device.",
  ["store-http.c","store-local.c","utils.c","chunker.c"],
  [("low-speed limit","store-http.c:store_http_new"),("bounded retries","store-http.c:retried_curl_easy_perform"),("single rescan","store-local.c:store_local_get_chunk")],
  [],["simulated time and number of operations until exit"])

p("C13", "Stores are used in the given order and nothing is downloaded needlessly",
  "Stores are asked in command-line order and a chunk that an earlier working store holds is never requested from a later HTTP store. A chunk repeated consecutively in the image is downloaded at most once, and when the target is itself listed as a store ahead of the HTTP stores, a chunk already present in the processed part of the target is never downloaded again.",
  ["inputs","configurations","histories","schedules"],
  "all images (with any repetition pattern), store orders and target contents",
  "Tests check single small examples of each and only with one local and one HTTP store.",
  ["main.c","store.c","store-local.c","target.c","index.c"],
  [("ordered walk","store.c:store_chain_get_chunk"),("last chunk reuse","main.c:entry_cb"),("index of written chunks","target.c:target_add_chunk")],
  [("idx","where a chunk is found in a local store or on the target","index.c")],
  ["HTTP request log"])

p("C14", "A wrong side-loaded index is harmless",
  "A side-loaded index that is missing, unreadable, malformed, made with other chunking parameters, stale, or not matching (longer than, or disagreeing with) the local store's content never causes wrong output or a failed run when the chunks are obtainable without it from the other stores. As soon as a chunk it promises turns out not to be there, it is discarded and the local store is chunked afresh, so that chunks really contained in the local store are still taken from it.",
  ["inputs","fault_sequences","configurations"],
  "all side-loaded index contents relative to all local store contents, and faults while reading them",
  "Tests use one exact index and one with four rotten bytes in one chunk.",
  ["store-local.c","caibx.c","index.c"],
  [("fallback to scanning","store-local.c:store_local_new"),("discard and rescan","store-local.c:store_local_get_chunk")],
  [],["exit status, target and HTTP request log"])

p("C15", "Chunking of local sources equals casync's, however they are read",
  "For any content and any valid chunking parameters in the index, scanning a local source finds exactly the chunks casync would have produced for it, independent of how the reads are split, so every image chunk that occurs as such a chunk in a local source is taken from there and never requested over HTTP.",
  ["inputs","fault_sequences","configurations"],
  "all source contents, chunking parameters and read splits",
  "The unit test checks one random 100 MiB stream with the default parameters and one feed size.",
  ["chunker.c","store-local.c","index.c"],
  [("rolling hash and break rule","chunker.c:chunker_scan, chunker_shall_break"),("carry-over across reads","chunker.c:chunker_scan_fd"),("chunk index growth","index.c:index_insert")],
  [("window / chunk_size","rolling hash state","chunker.h:struct chunker")],
  ["HTTP request log","exit status of runs without HTTP stores"])

p("C16", "Broken index files are refused before the target is touched",
  "An index that is truncated, extended, not a chunk index, has an inconsistent trailer, unsupported feature flags or unusable chunking parameters is refused with a failure status and the target is not modified. An index with entries that no image can have (empty, backwards or unrepresentably long chunks) or that do not fit the chunks' lengths never leads to success.",
  ["inputs","fault_sequences"],
  "all structural corruptions of index files, also combined with short reads and read errors",
  "No test feeds a malformed index.",
  ["caibx.c","chunker.c","main.c"],
  [("header, table and trailer validation","caibx.c:caibx_load_header"),("entry validation","caibx.c:caibx_iterate_entries"),("parameter validation","chunker.c:chunker_params_set")],
  [],["exit status","write calls on the target"])

p("C17", "No input or fault makes the tools crash or corrupt memory",
  "Whatever the index files, store responses, local sources, key files, chunk files and command lines contain, and whichever system call, library call or memory allocation fails at whatever point, csn, casync, csn-tool and patchdd end by exiting with success or failure; they never abort, crash, access memory out of bounds or after release, or execute undefined behaviour.",
  ["inputs","fault_sequences","configurations"],
  "all hostile inputs and all placements of failing calls and allocations",
  "The suite runs with sanitizers but only over well-formed inputs and without a failing call.",
  ["main.c","caibx.c","store-http.c","store-local.c","target.c","index.c","chunker.c","encrypt.c","csn-tool.c","patchdd.c","utils.c","sha.c"],
  [("length checks against the chunk buffer","main.c:entry_cb"),("error propagation","utils.h:checked, u_notnull")],
  [],["process end state","sanitizer reports"])

p("C18", "Kernel hash offloading never changes results",
  "With hashing offloaded to the kernel crypto API, any partial, interrupted or failing transfer to or from the kernel at any point, and the resulting permanent fallback to software hashing, leave every result unchanged: intact chunks are accepted and corrupt ones rejected exactly as without offloading.",
  ["fault_sequences","configurations","inputs"],
  "all placements of short, interrupted and failing kernel hash operations",
  "The kernel crypto API is unavailable to the test suite here, and where available it does not fail.",
  ["sha.c","main.c","chunk.h"],
  [("transfer loop and fallback","sha.c:sha_once")],
  [("kcapi_fd","offload handle, closed on first failure","sha.c")],
  ["exit status, target and request log"])

p("C19", "Chunk conversion is exact, all-or-nothing and never overwrites",
  "csn-tool crypt exits successfully only if every requested output (explicit path, derived path, or standard output) holds exactly the XChaCha20 conversion of its input under the given key and the chunk id's nonce, or existed before; existing outputs - also those another process creates while the conversion is under way - and all inputs are never modified. However a run is interrupted (killed, power cut, write or cipher failure), an output path holds either nothing or a complete conversion, so that re-running the same command completes the work.",
  ["crash_points","fault_sequences","inputs","histories"],
  "all chunk files, invocations, I/O and cipher failures and crash points, followed by re-runs",
  "No test runs csn-tool at all.",
  ["csn-tool.c","encrypt.c","utils.c"],
  [("skip of existing outputs","csn-tool.c:encrypt_one"),("complete output under a temporary name, then put in place without replacing anything","csn-tool.c:encrypt_one"),("file name to nonce","csn-tool.c:chunk_id_from_path")],
  [],["output files after every run and crash","standard output","exit status"])

p("C20", "patchdd makes the destination match, durably and minimally",
  "patchdd exits successfully only if the destination's leading bytes equal the source and are on stable storage; it writes nothing but source bytes at their own positions (even if started without some of the standard descriptors), never changes the source or destination bytes beyond the source's length, writes nothing at all if the destination already matches, and refuses a destination that is too small without modifying it. Short or interrupted transfers do not change its outcome, and after any interruption a re-run completes the copy.",
  ["crash_points","fault_sequences","inputs","histories"],
  "all source and destination contents, I/O faults, write-back failures and crash points",
  "No test runs patchdd.",
  ["patchdd.c","utils.c"],
  [("compare and write remainder","patchdd.c:main"),("fsync before success","patchdd.c:main")],
  [],["destination contents, cached and durable","write calls","exit status"])

p("C21", "The casync front end behaves like the native one",
  "An invocation as 'casync [options] extract INDEX TARGET' with stores and seeds in some order has exactly the same effect - exit status, target contents, HTTP requests - as the native invocation with the same index, target and stores in that order, under the same faults; seed-output options have no effect.",
  ["configurations","fault_sequences","inputs"],
  "all store lists and option spellings, under all fault sequences",
  "No test uses the casync command line.",
  ["main.c"],
  [("option parsing","main.c:casync, append_store_from_arg"),("native arguments","main.c:csn")],
  [],["exit status, target and request log of paired runs"])

p("C22", "Memory and descriptor use stay bounded",
  "The memory a run allocates is bounded by a fixed amount plus a small constant per entry of the indices and chunk of the local sources involved: it does not grow with the number of chunks downloaded, with retries or with what servers send. The number of files a run holds open is bounded by the number of its sources, and for chunk conversion is independent of the number of files converted.",
  ["inputs","fault_sequences","histories"],
  "all image lengths, response contents and fault sequences",
  "Tests transfer at most a handful of chunks and leaks in killed or failing requests are not visible in them.",
  ["store-http.c","index.c","target.c","csn-tool.c","utils.c"],
  [("reused buffers","store-http.c:decode_buffer_absorb"),("fixed chunk buffer","main.c:entry_cb")],
  [("decode_buffer_size","capacity of the carry-over buffer","store-http.c")],
  ["live allocated bytes and open descriptors over the run"])

p("C23", "A run that cannot be set up as asked fails without touching anything",
  "Whenever something a command line asks for cannot be used - missing arguments, an unknown command or option, an unknown program name, an index or seed that does not exist, cannot be opened or is structurally invalid, a store of an unsupported kind, unknown or malformed store parameters, a key that is missing, too short, too long or not hexadecimal, a missing or unopenable target (for patchdd also one that is too small), an unusable hashing driver - the command fails, and it does so before it sends a request or writes anything: the target of csn and patchdd is unmodified and csn-tool creates no file. A key or store that cannot be used is never ignored, replaced by a part of it, or left out in favour of the others.",
  ["inputs","configurations","fault_sequences"],
  "all unusable arguments in all positions of all command lines of the three programs, and all failing opens during set-up",
  "The tests only use command lines that work.",
  ["main.c","store-http.c","encrypt.c","csn-tool.c","patchdd.c","caibx.c","target.c","store-local.c"],
  [("every store is created before the first entry is processed","main.c:csn"),("strict key parsing","encrypt.c:encrypt_parse_keyspec"),("store parameters","store-http.c:store_handle_params"),("command table","csn-tool.c:main")],
  [],["exit status","writes to the target","requests","created files"])

p("C24", "Encryption keys stay secret",
  "An encryption key a command accepts (given on the command line, in the environment or in a file) never leaves the process: no run, however it fails, puts the key or a recognisable part of it (16 or more of its hexadecimal digits in either case, or 8 or more of its bytes) into the log, standard output, a request or its headers, the name or content of a file, or the target.",
  ["inputs","configurations","fault_sequences"],
  "all key forms, log levels, programs, and all failures at any point, including failing allocations and library calls",
  "No test looks at what is logged or sent, and keys would appear mostly in messages about failures.",
  ["store-http.c","main.c","encrypt.c","csn-tool.c","u_log"],
  [("URL parameters removed from base URL and store name","store-http.c:store_http_new"),("messages without the parameters","main.c:append_store_from_arg")],
  [("s.name","name of a store in all log messages","store-http.c")],
  ["standard error","standard output","requests","files written"])

p("C25", "Only the inputs decide the outcome",
  "Exit status (success or failure), target contents and the sequence of requested chunks of a synchronization are a function of its index, target, sources, servers' answers and faults alone. They do not depend on whether standard output is a terminal, on the log level, on whether log or progress output can be written or the standard descriptors are open at all, on process id, clock, locale or unrelated environment variables, on the previous contents of allocated or stack memory, or on how the network splits and delays well-formed answers that arrive in time.",
  ["schedules","configurations","inputs","fault_sequences"],
  "all pairs of histories that agree in inputs and faults and differ in surroundings",
  "Every test run has the same surroundings: no terminal, one log level, one allocator state, loopback timing.",
  ["main.c","store-http.c","store-local.c","index.c","chunker.c","ui.c","u_log"],
  [("progress and log are output only","main.c:entry_cb"),("state initialised per request","store-http.c:reset_request")],
  [("last_id / chunk_buf","reuse of the chunk retrieved last","main.c:entry_cb")],
  ["paired executions: exit status, target contents, request log"])

p("C26", "The progress display is truthful",
  "On a terminal (and unless debug logging replaces it) the percentage shown by a synchronization or patchdd never exceeds 100 and never goes back; at the moment a synchronization shows p percent, at least p percent of the index's chunks are on the target; patchdd shows 100 percent only after its last write; a successful run with something to do ends showing 100 percent. When standard output is not a terminal no progress is printed to it.",
  ["inputs","histories","fault_sequences","schedules"],
  "all chunk counts, initial target contents, interruptions, stores and faults",
  "No test has a terminal or reads the progress output.",
  ["main.c","patchdd.c","ui.c"],
  [("one count per index entry, whether resumed or fetched","main.c:entry_cb"),("percentage of the offset","patchdd.c:main"),("terminal check","ui.c:check_and_set_interactive")],
  [("handled_entries","entries finished","main.c:entry_cb")],
  ["standard output interleaved with writes to the target"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
