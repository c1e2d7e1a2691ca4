"""What check.py needs to know about each property's harness."""
import glob, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

SIM = "the simulated transport (harness/stub/experimental/net) keeps the Networking TS semantics listed at its top"
ONE = "the library runs its event loop on one thread, as it does itself"

CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


EXPL = "stateless exhaustive exploration of the real code (bounded model checking of the implementation)"
SIMT = EXPL + " over a simulated transport"
NOTE = "Every execution within the stated bounds was run on the real code under AddressSanitizer and compared with an independent oracle; nothing is claimed beyond the bounds."

check("W01", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "all compositions of streams up to 14 bytes (1-4 frames); payload lengths around 125/126, 8192 and 65535 with up to 3 cuts at header/frame/buffer boundaries and regular chunks; every legal sequence of <=4 frames over 8 kinds with every single interesting cut; messages of 2^17 to 2^24 bytes; histories of up to 70000 messages, fragments and control frames",
              "thorough": "as quick with streams up to 17 bytes, 50 lengths up to 200000 with 2-3 cuts, sequences of <=5 frames"})
check("W02", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "all 65536 pairs of first header bytes with 8/30 announced lengths per extended form, truncations and following data, whole, byte by byte or cut near the header; all pairs of 31 hostile byte strings with every single cut; floods; each of the pairs on the whole server next to a well-behaved client, and every single hostile string under all schedules with 1 deviation",
              "thorough": "as quick with triples of hostile strings, more cuts, schedules with 2 deviations"})
check("W03", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "single sends of 5 kinds and 18 sizes under every partial write within 2 deviations; all sequences of 2 sends (5 kinds x 7 sizes, 2 deviations) and 3 sends (1 deviation); 4-8 small sends (2 deviations); replies from handlers; a failure after every number of bytes; up to 70000 sends pending at once; payloads of up to 2^24 bytes",
              "thorough": "one more deviation, sequences of 4 sends"})
check("W04", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "all histories of <=4 events out of 15 in the default order with 9 handler behaviours; all histories of <=3 events under every interleaving with <=2 deviations; destruction at every point; an ending after every prefix of a conversation",
              "thorough": "5 events, 3 deviations"})
check("H01", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "19 requests: every segmentation with <=2 cuts and byte by byte; every schedule with 1 deviation for every cut; after every prefix of each other request on an earlier connection; every pair on two connections with all interleavings of 3 and 4 pieces; three at once with 2 deviations; heads up to 30000 bytes; 65535 to 70000 byte heads byte by byte",
              "thorough": "3 cuts, one more deviation"})
check("H02", level="model_checking", technique=EXPL + " against an independently written grammar", note=NOTE, assumptions=[ONE],
      bounds={"quick": "30 prefixes covering every parser state x every next byte x 26 completions, x every pair of next bytes; all edits at distance 1 of 6 heads, all pairs of replacements over 6 bytes; all strings of 4 symbols out of 9 after each prefix; 4 headers out of 9 names; bytewise through the server for every prefix and next byte; every element of a head of up to 2^17 bytes",
              "thorough": "pairs of bytes with every completion, pairs of replacements over 12 bytes, strings of 6 symbols"})
check("H03", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "13 requests: each alone with <=3 partial writes and 6 body sizes; every pair in flight with every transfer order within 2 deviations, with one client leaving within 1; every triple within 1; stalled clients; after every pair of earlier requests; every pair of 12 response objects copied, moved, swapped; bodies of 2^12 to 2^24 bytes",
              "thorough": "one more deviation, triples of earlier requests"})
check("H04", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "9 requests x 6 endings under all schedules with <=3 deviations; an ending after every byte of the request and of the answer; every pair of endings on two connections within 2 deviations; all mixes of 4 good or failing accepts; memory over 20 further rounds of 10 endings x 10 requests; up to 70000 connections in a row with 7 mixes of endings, up to 3000 at once",
              "thorough": "one more deviation, 5 accepts"})
check("H05", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE],
      bounds={"quick": "12 methods x 10 targets x 15 Connection x 13 Upgrade x 7 key forms; every order of the headers; keys of every length 0..200 with 6 contents and every printable character at every place; the exchange with 6 client behaviours under all schedules with <=4 deviations; a failure after every byte of the answer; all histories of 4 connections out of 7 kinds; 3 connections at once within 2 deviations; repeated keys, headers of up to 2^17 bytes",
              "thorough": "histories of 5 connections, one more deviation"})
INP = "exhaustive enumeration of a bounded input space on the real code (bounded explicit-state checking), compared with an independent oracle"
check("H06", level="exploration", technique=INP, note=NOTE, assumptions=["no symbolic links below the document root", "POSIX paths"],
      rule="a target counts when it names a different decoded path from the others",
      bounds={"quick": "all targets of up to 6 symbols out of 14 path and encoding metacharacters through the request handler (up to 4 through the whole server), every pair of percent-encoded bytes, and over a real tree with files outside the root all targets of 3 symbols with 4 tails and 25 ways out x 7 spellings x 14 leads x 7 tails x 4 forms of the root",
              "thorough": "7 symbols, 5 through the server, 4 over the real tree"})
check("H07", level="exploration", technique=INP, note=NOTE, assumptions=[SIM, ONE],
      rule="a request counts when its text differs from the others",
      bounds={"quick": "every file size 0..1099 (plain, encoded, zero bytes) and 14 larger ones; 17 methods x 36 targets x 15 Accept-Encoding x 4 stored encodings; 26 extensions x 6 names; every byte in a name; all sequences of 3 of 11 requests; all sequences of 4 changes of a file; native files of every size 0..1099",
              "thorough": "sizes up to 8200, sequences of 4"})
check("H08", level="exploration", technique=INP, note=NOTE, assumptions=[],
      rule="an extension counts when it has a type of its own",
      bounds={"quick": "every string of 1 to 4 lower-case letters, every insertion, removal, replacement and pair of replacements in the 16 known extensions, every mix of cases; about 2000 names served",
              "thorough": "every string of up to 5 letters, all pairs of replacements"})


JS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "js_client.js")


def _node(*a, timeout=600):
    r = subprocess.run(["node", "--max-old-space-size=4096", JS, *a], capture_output=True, text=True, errors="replace", timeout=timeout)
    return r.returncode, (r.stdout + r.stderr)[-3000:]


def client(exe, work, data, env):
    """The bundled client, as the sources under test embed it; returns (path, None) or (None, what failed)."""
    js = os.path.join(data, "WebFront.js")
    if os.path.exists(js):
        return js, None
    r = subprocess.run([exe, "--out", os.path.join(work, "pre.json"), "--data", data, "--only", "client-file"], capture_output=True, text=True, errors="replace", env=env)
    if r.returncode or not os.path.exists(os.path.join(data, "client.gz")):
        return None, "the bundled client cannot be read: " + (r.stdout + r.stderr)[-2000:]
    rc, text = _node("unpack", os.path.join(data, "client.gz"), js)
    return (None, "the bundled client does not unpack: " + text) if rc else (js, None)


def replay_in_client(exe, work, data, env, known):
    js, msg = client(exe, work, data, env)
    if msg:
        return msg, {}
    rc, text = _node("replay", js, *sorted(glob.glob(os.path.join(data, "replay.*.jsonl"))))
    m = re.search(r"REPLAYED (\d+)", text)
    if rc or not m:
        return "the bundled client does not do what the message asks: " + text, {}
    return None, {"counters": {"distinct_messages_replayed_in_the_bundled_client": int(m.group(1))}}


def calls_of_client(exe, work, data, env):
    js, msg = client(exe, work, data, env)
    if msg:
        return msg
    rc, text = _node("calls", js, os.path.join(data, "spec.jsonl"), os.path.join(data, "calls.bin"))
    return "the bundled client cannot make its calls: " + text if rc else None


CLIENT = "the bundled WebFront.js runs under node with a stand-in for the browser (tools/js_client.js)"
check("M01", level="model_checking", technique=SIMT + ", every distinct message replayed in the bundled Javascript client", note=NOTE, assumptions=[SIM, ONE, CLIENT], post=replay_in_client, opt="-Og",
      bounds={"quick": "functions of 0-3 arguments over 22 values of every kind and boundary string lengths; every sequence of 4 calls on one function object and of 4 over several objects, scripts and raw writes; chunked delivery within 2 deviations; up to 254 arguments; each of 13 long argument lists before and after 12 others; 70000 calls; objects made from temporary names, copied and moved",
              "thorough": "sequences of 5 calls, 3 deviations"})
check("M02", level="model_checking", technique=SIMT + ", messages made by the bundled Javascript client", note=NOTE, assumptions=[SIM, ONE, CLIENT], pre=calls_of_client, opt="-Og",
      bounds={"quick": "92 signatures (all of up to 3 parameters over bool, int, double, string and 7 others) x 2148 argument lists of up to 3 values over 28 boundary values, tuples and 12 parameters; 30 names; all sequences of 4 messages out of 10 on a connection, of 3 on two connections under all schedules within 1 deviation; up to 254 parameters; up to 70000 calls on a connection",
              "thorough": "sequences of 5 messages, 2 deviations"})
check("M03", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE], opt="-Og",
      bounds={"quick": "all messages of 1 and 2 bytes in 4 forms (alone, before a valid call in the same segment, fragmented, as text) and of 3 bytes with 4 last bytes; for 16 valid messages: every truncation, every byte changed into every value, every insertion/removal/repetition, every pair of structural bytes over 18 values, every structural change with every truncation, as first message of a connection; announced sizes up to 2^32-1; all sequences of 3 hostile messages out of 12; functions and start handlers which throw in 20 ways, in pairs, in 3 forms",
              "thorough": "3-byte messages with 11 last bytes and 2 forms, all forms of the pairs, sequences of 4"})
check("M04", level="model_checking", technique=SIMT + ", messages replayed in the bundled Javascript client", note=NOTE, assumptions=[SIM, ONE, CLIENT], opt="-Og", post=replay_in_client,
      bounds={"quick": "scripts and log lines of every length below 600 and of 70 boundary lengths up to 65535, every byte value; all sequences of 4 events out of 8 at 4 log levels with 3 start handlers; any partial transfers within 2 deviations; stalled client",
              "thorough": "sequences of 5 events, 3 deviations"})
check("U01", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE], opt="-Og",
      bounds={"quick": "all histories of 5 events out of 11 kinds over 3 clients from nothing, of 3 over 3 linked sessions, of 4 over 2; all sequences of 9 arrivals and departures; 48 mixes of concurrent messages under all schedules within 1 deviation; 2-3 sessions starting at once within 3; 65540 successive sessions; up to 1100 sessions at once in 4 orders of their handshakes",
              "thorough": "one more event and deviation"})
check("U02", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE], opt="-Og", uar=0,
      bounds={"quick": "5 kinds of loss at every place of histories of 4 activities out of 7 (3 with two sessions), at 3 log levels; loss with any two operations in flight, in any handler, and before the link under all schedules with 2 deviations; writes failing after each of 240 bytes; frames before and after a close in the same segment; destruction in 5184 states; memory over 48 sessions (linked, or never linked)",
              "thorough": "one more activity and deviation"})

check("S01", level="model_checking", technique=SIMT, note=NOTE, assumptions=[SIM, ONE], opt="-Og",
      bounds={"quick": "all histories of 5 events out of 15 kinds over two servers from one and nothing, of 4 from two servers with a linked client each; two messages, requests or upgrades cut at every pair of places; 6 mixes of concurrent work on 2-3 servers whose loops turn in any order, 4 deviations; 6 uses of one server inside a function of another; all sequences of 3 requests and replacements over two servers of native and bundled files; a server replaced 60 times in 5 conditions",
              "thorough": "histories of 6 events, 5 deviations, 300 replacements"})


ASSETS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "assets.js")


def decode_assets(exe, work, data, env, known):
    r = subprocess.run(["node", "--max-old-space-size=4096", ASSETS, data], capture_output=True, text=True, errors="replace", timeout=300)
    text = (r.stdout + r.stderr)[-3000:]
    m = re.search(r"ASSETS (\d+) of", text)
    if r.returncode or not m:
        return "an embedded asset is not what it claims to be: " + text, {}
    return None, {"counters": {"assets_decoded_and_used": int(m.group(1))}}


check("F01", level="exploration", technique=INP, note=NOTE, assumptions=["single-threaded use of a file"], opt="-Og",
      rule="a sequence of reads counts when it differs from the others in sizes or file length",
      bounds={"quick": "embedded files of every size 0..40 x every sequence of 5 reads over 10 sizes, then to the end; native files of even sizes 0..40 x sequences of 4; sizes 0..1099 x 11 read sizes x 4 contents; 18 sizes around 512..65536; files moved and read side by side; files of 16 to 20 MB",
              "thorough": "sizes 0..60 and sequences of 6 (native: every size, 5); sizes up to 4200"})
check("F02", level="exploration", technique=INP, note=NOTE, assumptions=["no change of the tree during one open"], opt="-Og",
      rule="a configuration or name counts when it differs from the others",
      bounds={"quick": "all assignments of 3 names to stacks of 1 to 4 providers, 14 names opened twice in each, 4 roots; a real tree with links, directories, fifo, dangling and circular links under 4 spellings of the root, alone and in 32 stacks; files that come and go",
              "thorough": "the same"})
check("F03", level="exploration", technique=INP + "; every asset decoded and used under node", note=NOTE, assumptions=["node's brotli and gzip decoders", "published releases named by their version never change"], opt="-Og", post=decode_assets,
      rule="a name counts when it differs from the others",
      bounds={"quick": "12 names by 7 read sizes with and without slash; every insertion, removal, replacement of one character and every truncation; each asset decoded whole, truncated by one byte (refused), parsed, executed",
              "thorough": "every pair of replacements"})
check("E01", level="exploration", technique=INP, note=NOTE, assumptions=["the C locale"], opt="-Og",
      rule="a string counts when it differs from the others",
      bounds={"quick": "all strings of up to 2 bytes, all pairs of bytes after '%' with 4 heads and 6 tails, all strings of up to 6 of 9 symbols, every length up to 319 with special bytes at 40 places; 17 sizes of up to 2^20 bytes",
              "thorough": "all strings of 3 bytes, 7 symbols, lengths up to 1219"})
check("E02", level="exploration", technique=INP, note=NOTE, assumptions=[], opt="-Og",
      rule="a URI counts when its text differs from the others",
      bounds={"quick": "the product of 6 schemes, 8 user infos, 6 hosts, 4 ports, 10 paths, 8 queries, 6 fragments; all strings of up to 6 of 6 symbols, alone and after two leads; all sequences of 3 of 29 URIs; fields of up to 65536 bytes; copies of each URI",
              "thorough": "8 symbols, sequences of 4"})
check("E03", level="exploration", technique=INP, note=NOTE, assumptions=["little-endian machine"], opt="-Og",
      rule="an input counts when its bytes differ from the others",
      bounds={"quick": "all strings of up to 2 bytes and 52 third bytes; every byte at every position of 3..12 bytes over 4 backgrounds in every kind of container; every length up to 335; elements of 2, 4 and 8 bytes with every byte at every place",
              "thorough": "all strings of 3 bytes, lengths up to 1055"})
check("E04", level="exploration", technique=INP, note=NOTE, assumptions=["digests of messages above 1 MB by coreutils' sha1sum"], opt="-O2",
      rule="a message counts when it differs from the others",
      bounds={"quick": "every length 0..1099 with 5 contents; every byte at every position of 10 lengths around block boundaries over 3 backgrounds; all sequences of 3 of 9 messages; 17 lengths at compile time; lengths up to 2^29 bytes; accept keys of 0..300 characters",
              "thorough": "lengths up to 4199, 2^32 bytes"})
check("L01", level="exploration", technique=INP, note=NOTE, assumptions=[ONE], opt="-Og",
      rule="a sequence of operations counts when it differs from the others",
      bounds={"quick": "all sequences of 5 operations out of 16 and one or two removals of every identifier given so far, all of 6 on the sinks alone, all 4 levels logged after each; every text length up to 299, every byte; 70 and 1500 sinks; lines of up to 10^6 bytes; sinks removing others or themselves, or logging, while called",
              "thorough": "6 operations, 7 on the sinks"})
check("L02", level="exploration", technique=INP, note=NOTE, assumptions=["byte 127 may be shown either way"], opt="-Og",
      rule="a buffer counts when its bytes or address differ from the others",
      bounds={"quick": "every length 0..133 at 7 addresses as elements of 1, 2, 4, 8 bytes; every byte in every column of 6 lengths; every split of every length up to 66 into two buffers of 7 kinds; 12288 states of the stream; dumps of up to 2^20 bytes",
              "thorough": "lengths up to 519, splits up to 100"})
check("T01", level="exploration", technique=INP, note=NOTE, assumptions=["arguments given as rvalues of their exact types"], opt="-Og",
      rule="a stored signature or sequence of calls counts when it differs from the others",
      bounds={"quick": "174 stored signatures (arity 0-2 over 5 types, 3 over 3 types, 3 results) x 314 calls including 24 of near types; 13 kinds of callables x all sequences of 5 calls of 8 kinds; callables which throw in 6 ways",
              "thorough": "sequences of 6 calls"})
check("N01", level="exploration", technique=INP, note=NOTE, assumptions=[], opt="-Og",
      rule="a size with a sequence of advances counts when it differs from the others",
      bounds={"quick": "every factory over elements of 1, 2, 3, 4 and 8 bytes, lengths 0..5 and others up to 40, requested sizes from 0 to beyond the end and huge, views of up to 2^47 bytes, all sequences of 3 advances out of 9 on each view",
              "thorough": "the same"})
