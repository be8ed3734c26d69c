def prog(src, **kw):
    d = dict(src=src if isinstance(src, list) else [src])
    d.update(kw)
    return d

CHECKS = {}


def check(pid, programs, bounds="", assumptions=(), **kw):
    CHECKS[pid] = dict(programs=programs, bounds=bounds, assumptions=list(assumptions), **kw)


check("C04", {"codec": prog("harness/c04.cpp")})
for k in ("01", "02", "03"):
    check("C" + k, {"codec": prog("harness/c%s.cpp" % k)})

MC = dict(own_san=["-fsanitize=thread"], lib_flags=["-fsanitize=thread"], plain_src=["lib/mc_rt.cpp"], 
    ldflags=["-rdynamic"]+["-Wl,--wrap=%s" % f for f in ("memcpy memmove memset memcmp ZSTD_compress ZSTD_compressCCtx ZSTD_compress2 LZ4_compress_default LZ4_compress_fast ZSTD_decompress LZ4_decompress_safe").split()], ldlibs=["-ldl"])
def mcprog(src, chunk=8, shards=61, **kw):
    d = dict(MC, shards=shards)
    d.update(kw)
    if chunk:
        h = ["-DCLOUDINI_VERIFICATION_POINTS_PER_CHUNK=%d" % chunk]
        d["lib_flags"] = d["lib_flags"] + h
        d["own_flags"] = d.get("own_flags", []) + h
    return prog(src, **d)


check("C07", {"interleavings": mcprog("harness/c07.cpp")})
CHECKS["C07"]["programs"]["real-chunks"] = mcprog("harness/c07.cpp", chunk=0)
check("C08", {"faults": mcprog("harness/c08.cpp")})
check("C13", {"wire": prog("harness/c13.cpp")})
HOOK8 = ["-DCLOUDINI_VERIFICATION_POINTS_PER_CHUNK=8"]
ASAN = ["-fsanitize=address"]
check("C05", {"codec": prog("harness/c05.cpp"), "small-chunks": prog("harness/c05b.cpp", lib_flags=HOOK8, own_flags=HOOK8)})
check("C12", {"small-chunks": prog("harness/c12.cpp", lib_flags=HOOK8, own_flags=HOOK8),
              "real-chunks": prog("harness/c12.cpp")})
check("C06", {"bounds": prog("harness/c06.cpp", san=ASAN)})
UBSAN = ["-fsanitize=undefined", "-fno-sanitize-recover=all"]
check("C11", {"hostile-input": prog("harness/c11.cpp", san=ASAN + UBSAN, own_san=ASAN)})
check("C09", {"small-chunks": prog("harness/c09.cpp", lib_flags=HOOK8, own_flags=HOOK8),
              "real-chunks": prog("harness/c09.cpp")})
check("C10", {"header": prog("harness/c10.cpp", san=ASAN)})
check("C14", {"messages": prog("harness/c14.cpp", san=ASAN)})
check("C16", {"voxels": prog("harness/c16.cpp", san=ASAN)})
check("C15", {"histories": prog("harness/c15.cpp", san=ASAN)})
check("C17", {"profiles": prog("harness/c17.cpp", san=ASAN)})
check("C18", {"entry-points": prog("harness/c18.cpp", san=ASAN, libs=["wasm"], shims=["lib/shim_emscripten"])})
check("C19", {"pcl": prog("harness/c19.cpp", san=ASAN, libs=["pcl"])})
ROS = dict(repo_includes=["cloudini_ros/include"], shims=["lib/shim_ros"])
def rossrc(*names):
    return ["pcl"] + ["file:cloudini_ros/src/%s.cpp" % n for n in names]
check("C22", {"transport": prog("harness/c22.cpp", san=ASAN, libs=rossrc("conversion_utils", "cloudini_publisher_plugin", "cloudini_subscriber_plugin", "topic_converter", "cloudini_subscriber_pcl"), **ROS)})
check("C23", {"histories": prog("harness/c23.cpp", san=ASAN, libs=rossrc("conversion_utils", "cloudini_subscriber_pcl"), **ROS),
              "interleavings": mcprog("harness/c23.cpp", own_flags=["-DMC"], libs=rossrc("conversion_utils", "cloudini_subscriber_pcl"), **ROS)})
MCAP = dict(san=ASAN, repo_includes=["cloudini_lib/tools/include"], shims=["lib/shim_mcap"])
TOOLS = dict(MCAP, shims=["lib/shim_mcap", "lib/shim_cxxopts"], lib_flags=["-Dmain=tool_main"])
def tool(*names):
    return ["file:cloudini_lib/tools/src/%s.cpp" % n for n in names]
check("C24", {"bags": prog("harness/c24.cpp", libs=tool("mcap_converter"), **MCAP),
              "command-line": prog("harness/c24cli.cpp", libs=tool("mcap_converter", "cloudini_rosbag_converter"), **TOOLS)})
check("C25", {"pcd": prog("harness/c25pcd.cpp", libs=["pcl"] + tool("pcd_to_cloudini_converter"), **TOOLS),
              "cutter": prog("harness/c25mcap.cpp", own_flags=["-DCUTTER"], libs=tool("mcap_cutter"), **TOOLS),
              "inspector": prog("harness/c25mcap.cpp", libs=tool("mcap_header_inspector"), **TOOLS)})
check("C20", {"instances": mcprog("harness/c20.cpp"),
              "ros": mcprog("harness/c20ros.cpp", libs=rossrc("conversion_utils", "cloudini_publisher_plugin", "cloudini_subscriber_plugin", "topic_converter", "cloudini_subscriber_pcl"), **ROS),
              "bags": mcprog("harness/c20ros.cpp", own_flags=["-DBAGS"], libs=tool("mcap_converter"), **{k: v for k, v in MCAP.items() if k != "san"})})
check("C26", {"python": prog("harness/c26.cpp", wasm_so=True, shards=16)})
check("C27", {"library": prog("harness/c27.cpp", san=ASAN, libs=["pcl", "wasm"], shims=["lib/shim_emscripten"], lib_flags=HOOK8, own_flags=HOOK8),
              "ros": prog("harness/c27ros.cpp", san=ASAN, libs=rossrc("conversion_utils", "cloudini_publisher_plugin", "cloudini_subscriber_plugin", "topic_converter", "cloudini_subscriber_pcl"), **ROS),
              "bags": prog("harness/c27mcap.cpp", libs=tool("mcap_converter"), **MCAP),
              "rosbag-tool": prog("harness/c27tool.cpp", own_flags=["-DTOOL=1"], libs=tool("mcap_converter", "cloudini_rosbag_converter"), **TOOLS),
              "cutter": prog("harness/c27tool.cpp", own_flags=["-DTOOL=2"], libs=tool("mcap_cutter"), **TOOLS)})
VARIANTS = {
    "sse41": ("g++", ["-O2", "-DNDEBUG", "-msse4.1"]),
    "sse2": ("g++", ["-O2", "-DNDEBUG"]),
    "portable": ("g++", ["-O2", "-DNDEBUG", "-U__SSE__", "-U__SSE4_1__", "-U__AVX__"]),
    "avx2": ("g++", ["-O3", "-DNDEBUG", "-mavx2", "-mfma"]),
    "debug": ("g++", ["-O0", "-msse4.1"]),
    "clang": ("clang++", ["-O2", "-DNDEBUG", "-U__SSE__", "-U__SSE4_1__", "-U__AVX__"]),
}
check("C21", {"builds": prog("harness/c21.cpp", variants=VARIANTS, ldlibs=["-ldl"])})

# ---------------------------------------------------------------------------------------------------------------------
# technique, bounds (copied into the evidence) and assumptions
ENUM = "explicit-state bounded model checking of the real code: exhaustive enumeration of "
META = {
    "C01": (ENUM + "value sequences, executed through encoder and decoder, compared state by state with the identity",
            "all sequences of length up to 5 (thorough 6) over a boundary alphabet of each of the 8 integer types; one walk through all ordered pairs of boundary values (also after a prefix that makes version 5 choose each of its four codings); every value of the 8/16-bit types; all versions 3-5 x options x compressions",
            []),
    "C02": (ENUM + "value sequences and scans over the float range against a written-down error law",
            "all sequences of length up to 3 (thorough 4; 2 with second-stage compression) over an alphabet of zero, (half) multiples of the resolution, extremes, NaN, infinities, unquantizable values, for scalar fields and for every component of a leading group; scans over all exponents with selected mantissas; several resolutions; all configurations",
            ["the error law has the slack of a rounding of the stored float (2^-21 / 2^-49 relative), as documented for float arithmetic",
             "values beyond 2^31 (leading group) or 2^61 quanta (scalar) are outside of the guarantee, they must only not disturb others"]),
    "C03": (ENUM + "value sequences and of all pairs of significant-bit windows",
            "all sequences of length up to 5 (thorough 6; 3 with second-stage compression) over an alphabet of special bit patterns; every (leading, width) window followed by every other one, for XOR and Gorilla coding, 32 and 64 bit; all configurations in which floats are stored losslessly",
            []),
    "C04": (ENUM + "field layouts, cloud sizes and configurations; every byte of the output is compared",
            "all ordered lists of up to 3 (thorough 4) of 12 field kinds in 3 memory layouts; leading groups of 0..6 floats; cloud sizes 0..70 and around 1 and 2 chunk boundaries; all configurations including the worker thread; 8..300 (thorough 7..300 and 1000) fields of one kind or all kinds in turn, offsets and point sizes beyond 8 and 16 bits, chunks whose coded size exceeds 16 and 24 bits, clouds of up to 2^20+1 (thorough 3*2^23) points",
            []),
    "C05": (ENUM + "column histories (pattern before x pattern after each decision point), checked against the input and an independent reference decoder",
            "13 column patterns in all ordered pairs around every decision point, all pairs of columns, palettes of 1..300 values, run counts and lengths around all limits, all short columns over a small alphabet, chunk-crossing sizes; with 8 points per chunk (hook): all sequences of up to 5 (thorough 6) chunk patterns out of 8, histories of 1100 and 70000 chunks",
            ["the reference decoder (lib/ref.hpp) was written from the format description; C13 and the self test keep it bound to the implementation"]),
    "C06": (ENUM + "adversarial clouds and of every buffer size, with guard bytes and AddressSanitizer as monitors",
            "all lists of up to 2 (thorough 3) field kinds x 6 adversarial contents x cloud sizes around every limit; every buffer size from 0 to the bound + 8 for small clouds; 9..300 fields",
            []),
    "C07": ("stateless model checking of the real code: dynamic partial-order reduction (source sets / sleep sets) under a controlled scheduler with happens-before race detection",
            "histories of 1..4 encode calls with 0..4 chunks (hook: 8 points per chunk) in both output forms, construction and destruction included; unbounded preemptions for small scenarios, preemption bounds 1..3 and up to 1 spurious wake-up for the larger ones (per case label: pb/sp); a second program with real chunk sizes",
            ["the schedule points are the pthread operations, atomics and all instrumented memory accesses that conflict (compiler instrumentation of -fsanitize=thread with an own runtime, lib/mc_rt.cpp)", "sequentially consistent executions; weaker orders are covered by reporting every data race"]),
    "C08": ("stateless model checking with fault injection: every placement of a failure x the interleavings under a controlled scheduler",
            "every placement of one failure (two in small scenarios, thorough: two everywhere) over all allocations, compressor calls and thread creations of histories of up to 3 calls, preemption bound 1 (thorough 2)",
            ["failures are: operator new throws bad_alloc, compressor returns an error, pthread_create returns EAGAIN"]),
    "C09": (ENUM + "operation histories on one encoder / decoder / vector, each compared with fresh objects",
            "all sequences of up to 2-3 (thorough 3-4) operations over alphabets of clouds, descriptions and failing calls covering every field codec, with 8 points per chunk (hook) and real chunks",
            []),
    "C10": (ENUM + "header contents, written and read by the library and by an independent reader/writer",
            "product of boundary values of the numeric members; all one- and two-character names over a critical alphabet, every byte in every position; resolutions over all float exponents; 0..70 fields; every truncation and single-byte change must be rejected or give a valid description",
            ["resolutions <= 0, NaN or denormal, unknown types, reordered keys and negative numbers are outside of the claim"]),
    "C11": (ENUM + "inputs (truncations, byte replacements, extreme header values, all short strings) under AddressSanitizer, UndefinedBehaviorSanitizer and a memory/time monitor",
            "every truncation and every single-byte replacement by 9 values of streams of all configurations and layouts, selected pairs, all byte strings of length <= 2 (thorough 3) as header/payload/message, all extreme header values, output buffers of all near sizes",
            ["memory bound: 1 MB + a constant multiple of input, declared output and declared values", "uninitialised reads are observed only through their effect"]),
    "C12": (ENUM + "crash points: every cut and every edit of the chunk structure, with an independent reader deciding which of them are incomplete",
            "every truncation of streams of all configurations with 1..3 chunks (hook: 8 points per chunk) and of real chunks around their structure; every removal, duplication, extension of chunks; declared number of points -3..+3 and multiples",
            ["format version 2 has no chunk accounting and is outside of the claim", "excess bytes inside of a chunk of versions 3 and 4 are outside of the claim"]),
    "C13": ("conformance checking against an executable reference model of the wire format, in both directions, over an exhaustively enumerated set of streams",
            "all field kinds in lists of up to 3, leading groups of 0..6, all legal codings per column and chunk, 1..3 chunks, all configurations, versions 2..5 (reading) and 3..5 (writing)",
            ["the reference model is lib/ref.hpp"]),
    "C14": (ENUM + "messages; produced messages are read by an independent CDR reader",
            "string lengths 0..9 in every combination, strings with every byte value (zero bytes included), 8 field lists x 3 layouts, 7 dimensions, both byte orders, all configurations, cloud sizes around chunk boundaries; foreign messages (versions 2..5, both header forms); 8..300 fields; up to 2^20 points",
            ["is_bigendian and field counts other than 1 are outside of the claim (the library documents them as not used)"]),
    "C15": (ENUM + "operation histories on up to 3 objects against a model with value semantics, under AddressSanitizer",
            "all legal sequences of up to 5 (thorough 6) operations out of 14 kinds on 3 objects and 3 source messages (slots are used in order)",
            ["a moved-from object may only be assigned to or destroyed"]),
    "C16": (ENUM + "clouds against a reference model of voxel occupancy (the model accepts both outcomes where single precision decides)",
            "all sequences of up to 4 (thorough 5) points over 4 alphabets x 8 resolutions, all ordered pairs of 250 values on each axis, products of extreme voxel coordinates, dense scans of up to 64000 points, every way in which a triple can be missing; 8..300 other fields; long scans",
            ["points that differ from a voxel edge by less than the precision of a float may go either way"]),
    "C17": (ENUM + "field lists x profiles against a specification; end-to-end decoding of the reduced clouds",
            "all field lists of up to 4 fields over 4 names and 3 types (thorough 10) x 512 profiles x 3 defaults; all subsets of removed fields of 151 lists x 3 layouts x all configurations; lists and profiles of 8..300 fields",
            []),
    "C18": (ENUM + "messages, mutations and call histories through the C entry points, with exactly sized inputs (AddressSanitizer) and outputs (guard pages)",
            "valid messages: 8 field lists x 3 layouts x 8 dimensions x all configurations; every truncation and single-byte replacement of 6 streams/messages/headers (thorough: all configurations); products of extreme dimensions; all histories of up to 3 (thorough 4) calls; messages with 8..300 fields",
            ["the functions are compiled natively (64 bit) with a stand-in for emscripten.h", "output buffers have the size the documentation implies: announced size, header size, size of the input"]),
    "C19": (ENUM + "PCL clouds, source descriptions, PCD spellings and files",
            "all lists of up to 3 of 8 field kinds x 3 layouts x 6 dimensions x 4 resolutions; all ordered lists of up to 5 of 8 named fields as sources for XYZ and XYZI; 256 spellings x all lists of up to 3 types; 200 pairs of types in ascii and binary files; 8..300 fields, offsets beyond 16 bits",
            ["fields with count != 1 are outside of the claim", "64-bit integers only through files, as documented"]),
    "C20": ("stateless model checking of the real code: dynamic partial-order reduction under a controlled scheduler with happens-before race detection",
            "all unordered pairs of 19 operations in two threads, 35 triples in three; unbounded preemptions unless two of the operations have worker threads of their own (quick: bound 0..1; thorough: pairs unbounded, triples 1..2); the ROS 2 package and PCL functions: all pairs and triples of 7 operations on objects of their own (publish, receive, serialize, two converter nodes, PCL subscriber, PCL functions), the bag converter: all pairs of 3 conversions; bounds 0..2 (thorough 1..unbounded)",
            ["sequentially consistent executions; weaker orders are covered by reporting every data race"]),
    "C21": (ENUM + "clouds and streams, every one executed by every build of the library (each build writes, all builds read)",
            "six builds (SSE4.1, SSE2, portable, AVX2+FMA, unoptimised with assertions, clang portable); all lists of up to 2 (thorough 3) field kinds x 3 layouts x 3 contents x all configurations; all sequences of up to 2 (thorough 3) points over 22 values in leading groups of 1..5 floats; every truncation and 7 replacements of each byte of 216 streams; messages through all pairs of builds",
            ["the builds are made on x86-64: the portable code paths are executed, other processors are not"]),
    "C22": (ENUM + "messages and message histories through all senders and receivers of the ROS 2 package, compared with the published message by an independent CDR reader",
            "all lists of up to 3 (thorough 4) of 8 field kinds x up to 3 layouts x 8 dimensions x 5 resolutions x 2 ways of configuring them, leading groups of 3..6, sizes around chunk boundaries; each through 3 senders x 3 receivers that live through the whole case; all single contradictions of members, all truncations and 5 replacements of each byte; all combinations of up to 4 (thorough 6) publishers with 4 quality-of-service settings; messages with 9..257 (thorough 513) fields, fields at 10 distances around 8 and 16 bits; every member of every field changed in messages of 9..257 fields",
            ["rclcpp, point_cloud_transport and the generated message types are stand-ins (lib/shim_ros) that keep messages in memory", "exceptions of the topic converter and the subscriber plugin for damaged messages are allowed"]),
    "C23": ("explicit-state enumeration of operation histories on the real subscriber, and stateless model checking (dynamic partial-order reduction, race detection) of its use from several threads",
            "all sequences of up to 6 (thorough 7) of 7 operations, pools of up to 10 clouds in 3 release orders; up to 3 (thorough 4) clouds given to 1..2 threads while up to 2 more arrive, subscriber destroyed before or after; unbounded preemptions for up to 3 clouds, else 2 (thorough 3); 16..257 clouds held at once, released in every order",
            ["rclcpp is a stand-in (lib/shim_ros); callbacks of one subscription do not run concurrently (as in a mutually exclusive callback group)", "sequentially consistent executions; weaker orders are covered by reporting every data race"]),
    "C24": (ENUM + "bags, converter histories and command lines, executed by the real converter on files in a scratch directory, compared with the input record by record",
            "all lists of up to 3 (thorough 4) of 6 kinds of channels with all message orders of up to 2-3 (thorough 5) messages, encoded, decoded, and decoded again, under 5 profiles, 3 resolutions, 3 writer compressions and both settings of viz; every combination of these options on one bag; all histories of 4 (thorough 5) of 8 operations on one converter; 9 x 9 profile keys x values x blanks, profiles of 8..257 entries; the command line tool: 8 ways to name the input x 4 outputs x 6 (thorough 12) option sets, 27 refusals, consent to overwriting, profile files; bags that are large in one respect: 400 (thorough 3000) channels, 3000 (70000) messages, 9..300 fields, clouds of 32767..100000 points, names of up to 70000 characters, 300 metadata records and attachments, ids and times of all widths; metadata.yaml that cannot be written",
            ["the MCAP library and cxxopts are stand-ins (lib/shim_mcap: reads and writes uncompressed MCAP files with indexes; lib/shim_cxxopts)", "truncated bags, compressed messages of other formats and malformed profile numbers are outside of the claim"]),
    "C25": (ENUM + "command lines and files, executed by the real main functions in a scratch directory",
            "PCD converter: 6 files x 4 sizes (thorough 6, one with several chunks) x 4 encodings x 4 compressions x 4 resolutions x 4 intensity resolutions x 4 outputs; all directories of 3 entries (good, damaged, foreign, already converted) x consent; cutter and inspector: all lists of up to 3 (thorough 4) of 6 kinds of channels with all message orders of up to 3-5 messages x 4 limits; refusals; files with 9..257 fields or 65535..100000 points, directories of up to 300 files; the large bags of C24; the disk full after every number of bytes",
            ["the MCAP library and cxxopts are stand-ins (lib/shim_mcap, lib/shim_cxxopts)", "float fields other than x, y, z and intensity may be stored with the resolution of the coordinates or exactly", "the cutter replaces the definition of the schema and drops channel metadata, as it is written"]),
    "C27": (ENUM + "failing allocations: every operation is re-executed with each of its allocations failing, and followed by calls with memory",
            "every allocation of: encoder, decoder, header, message conversions, preprocessing and copies (5 layouts x versions 3-5 x options x compressions), PCL conversion, 9 C entry points; publisher and subscriber plugin, conversion helpers, topic converter, PCL subscriber with 0..6 held clouds (5 layouts x 4 sizes); bag converter (8 conversions x 2, thorough 6 bags); rosbag converter tool and cutter. Each failing alone, with the next, with all following; all pairs for copies and small preprocessed clouds (thorough: everywhere); new and used objects; 2 further calls",
            ["failures are those of operator new in the calling thread (C08 covers the worker thread); malloc in zstd and lz4 is not failed", "allocations inside of the stand-ins for rclcpp, MCAP and cxxopts fail, too", "pcd_to_cloudini_converter is left out: PCL's reader hangs without memory"]),
    "C26": (ENUM + "messages, operations on one decoder, truncations and failing allocations, executed by the real Python code; results compared with the C++ decoder",
            "all lists of up to 2 (thorough 3) of the field kinds with layouts, 6 dimensions, all configurations; all ordered pairs of 58 names; up to 1000 fields or names of 300 characters; 6 sizes around 32 MB; all sequences of up to 4 (thorough 5) of 8 operations; every truncation of 4 messages; allocation 1..8 failing",
            ["wasmtime is replaced by a stand-in (lib/pywasm) that calls the natively compiled entry points on a guarded memory region", "names are distinct, not empty and valid UTF-8", "the WebAssembly binary itself and decode_mcap.py are not covered"]),
}
for _k, (_t, _b, _a) in META.items():
    if _k in CHECKS:
        CHECKS[_k].update(technique=_t, bounds=_b, assumptions=_a)
