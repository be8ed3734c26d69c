"""Texts of the properties (source of properties.jsonl and, together with checks.py, of MANIFEST.json; see tools/gen.py)."""
L = "cloudini_lib/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, hook=None, note="", technique="", state=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith(("cloudini_", "@")) else L + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = hook
    P.append((d, note, technique))


prop("C01", "Integer fields survive encoding and decoding bit for bit",
     "For every integer field type, every sequence of values and every combination of format version, encoding option and compression, "
     "decoding what was encoded returns exactly the same integers in the same order.",
     ["inputs", "configurations"],
     "all sequences of integer values (every value of the 8/16-bit types, all boundary patterns of the 32/64-bit types), all ordered pairs of "
     "boundary values as neighbours, all configurations",
     "The tests encode a few smooth ramps and random values; overflow of a delta, a sign boundary or the most negative value depends on the "
     "exact pair of neighbouring values.",
     ["include/cloudini_lib/encoding_utils.hpp", "include/cloudini_lib/field_encoder.hpp", "include/cloudini_lib/field_decoder.hpp", "src/v4_codec.cpp", "src/v5_codec.cpp"],
     [("delta + zigzag varint", L + "include/cloudini_lib/encoding_utils.hpp encodeVarint64/decodeVarint"),
      ("integer field encoder/decoder", L + "include/cloudini_lib/field_encoder.hpp FieldEncoderInt, field_decoder.hpp FieldDecoderInt"),
      ("adaptive integer columns", L + "src/v5_codec.cpp")])
prop("C02", "Lossy float fields stay within half the resolution",
     "With lossy encoding, every finite value of a floating-point field that has a resolution (and whose quantum fits the format) is decoded with an error "
     "of at most half the resolution, and NaN is decoded as NaN. Values that cannot be quantized (infinite or out of range) never disturb any other point or field.",
     ["inputs", "configurations"],
     "all sequences over an alphabet with zero, multiples and half multiples of the resolution, extremes, NaN, infinities and unquantizable values; scans over the float "
     "range; every group length of leading float fields; several resolutions; all configurations",
     "The error bound quantifies over every value and every predecessor (the coding is differential); the tests check some clouds without NaN/inf mixtures.",
     ["include/cloudini_lib/field_encoder.hpp", "src/field_encoder.cpp", "include/cloudini_lib/field_decoder.hpp", "src/field_decoder.cpp", "include/cloudini_lib/intrinsics.hpp"],
     [("quantization of a leading xyz/xyzi group (SIMD)", L + "src/field_encoder.cpp FieldEncoderFloatN_Lossy"),
      ("scalar quantization", L + "include/cloudini_lib/field_encoder.hpp FieldEncoderFloat_Lossy"),
      ("NaN marker", L + "include/cloudini_lib/encoding_utils.hpp")])
prop("C03", "Lossless float fields are restored bit for bit",
     "With lossless or no first-stage encoding, and for any floating-point field without a resolution, every value (including NaN payloads, infinities, denormals and negative zero) is decoded bit for bit.",
     ["inputs", "configurations"],
     "all sequences over an alphabet of special bit patterns; every position and width of the window of changed bits between neighbours, in every order of two windows; all configurations",
     "The XOR coders keep a window of significant bits between points: correctness depends on pairs of neighbouring windows, which a few sample values do not cover.",
     ["include/cloudini_lib/field_encoder.hpp", "include/cloudini_lib/field_decoder.hpp", "src/v4_codec.cpp"],
     [("XOR coding", L + "include/cloudini_lib/field_encoder.hpp FieldEncoderFloat_XOR"), ("Gorilla bit packing", L + "include/cloudini_lib/field_encoder.hpp FieldEncoderFloat_Gorilla")])
prop("C04", "Whole clouds round-trip for every layout, size and configuration",
     "For every list of fields (any types, order, offsets, padding) and every number of points, encoding and decoding gives back every field of every point, in order, each within its own guarantee, together with the description of the cloud. "
     "Bytes of the output that belong to no field, or lie outside of the cloud, are never written.",
     ["inputs", "configurations"],
     "all ordered lists of up to 3 (thorough: 4) field kinds in 3 memory layouts, leading float groups of length 0..6 followed by all kinds, all cloud sizes around the chunk boundaries, all configurations (threads on and off)",
     "The tests use three or four layouts and two sizes; a wrong offset or chunk boundary shows up only in particular combinations.",
     ["src/cloudini.cpp", "src/codec_common.cpp", "src/v4_codec.cpp", "src/v5_codec.cpp", "src/chunk_writer.cpp"],
     [("chunking", L + "src/cloudini.cpp PointcloudEncoder::encode"), ("selection of the field codecs", L + "src/v4_codec.cpp BuildV4Encoders/BuildV4Decoders"),
      ("chunk loop of the decoder", L + "src/cloudini.cpp PointcloudDecoder::decode")])
prop("C05", "The adaptive choice of an integer coding is invisible in the data",
     "Whatever an integer column looked like when its coding was chosen, and however it changes afterwards (within a chunk, across chunks, in any number of columns), "
     "the decoded values equal the encoded ones and the produced stream follows the documented format.",
     ["inputs", "histories"],
     "all ordered pairs of 13 column patterns before/after every decision point, all pairs of columns, all palette sizes and run counts around their limits, every short column over a small alphabet; decoded by the library and by an independent reference decoder",
     "The choice depends on statistics of the first points of the column; a data change after the decision, or a column at the limit of a palette, is a history the sample clouds never contain.",
     ["src/v5_codec.cpp", "src/v5_codec.hpp"],
     [("mode probing and selection", L + "src/v5_codec.cpp"), ("palette / RLE / delta-RLE coders", L + "src/v5_codec.cpp")])
prop("C06", "Encoding never writes past the advertised worst-case size",
     "The advertised worst-case size is never smaller than what encoding any cloud of that many points produces; encoding into a caller's buffer of at least that size always succeeds and never writes outside of it. "
     "With a smaller buffer the call fails with an exception and no byte outside of the buffer is written.",
     ["inputs", "configurations"],
     "adversarial clouds for every field kind and coding (maximal varints, incompressible data, window changes, palette/run extremes) in every layout of the enumeration, all point counts around the chunk limits, every buffer size from 0 to the bound for small clouds; buffers framed by guard bytes and run under AddressSanitizer",
     "Only clouds that expand maximally under one particular coding come near the bound; the tests compress well-behaved clouds.",
     ["src/codec_common.cpp", "src/v5_codec.cpp", "src/v4_codec.cpp", "src/chunk_writer.cpp", "src/cloudini.cpp"],
     [("worst-case size", L + "src/codec_common.cpp MaxCompressedSize, MaxSerializedPointSize"), ("stage buffers", L + "src/v5_codec.cpp V5StageBufferSize"), ("buffer check in encode", L + "src/cloudini.cpp PointcloudEncoder::encode")])
prop("C07", "Encoding with the worker thread equals encoding without it",
     "Under every interleaving of the calling thread and the compression thread, encoding produces exactly the bytes that single-threaded encoding produces, for every sequence of clouds given to the same encoder. "
     "There is no data race and no deadlock, construction and destruction at any moment are safe, and after a call has returned nothing touches the caller's buffers any more.",
     ["schedules", "histories", "configurations"],
     "all interleavings (optimal partial-order reduction without a preemption bound for the small scenarios, preemption bounds and spurious wake-ups for the larger ones) of histories of up to 4 calls with 0..4 chunks each",
     "The tests run one schedule, the one the operating system happens to choose.",
     ["src/cloudini.cpp", "include/cloudini_lib/cloudini.hpp", "src/chunk_writer.cpp"],
     [("hand-over of stage-1 buffers", L + "src/cloudini.cpp PointcloudEncoder::encode write_stage1_chunk"), ("worker loop", L + "src/cloudini.cpp PointcloudEncoder::compressionWorker"), ("shutdown", L + "src/cloudini.cpp ~PointcloudEncoder")],
     hook="CLOUDINI_VERIFICATION_POINTS_PER_CHUNK (smaller chunks, so that a history has several hand-overs)",
     state=[("has_data_to_compress_/compression_done_/should_exit_/worker_failed_", "protocol between the caller and the worker", L + "include/cloudini_lib/cloudini.hpp")])
prop("C08", "A failure during encoding leaves the encoder usable and hangs nobody",
     "If an allocation, the compressor or the creation of a thread fails at any point of an encode call, under any interleaving, the call either completes correctly or throws: it never hangs, leaks, races or keeps using the caller's memory. "
     "The encoder remains usable: the next call without a failure gives the correct bytes, and destruction always completes.",
     ["fault_sequences", "schedules", "histories"],
     "every placement of one failure (two in the thorough tier and in small scenarios) over all allocation, compression and thread-creation points of histories of up to 3 calls, combined with all interleavings up to a preemption bound",
     "The tests inject no failures at all; the recovery paths of the worker are only reached by a failure in a particular chunk under a particular interleaving.",
     ["src/cloudini.cpp", "src/chunk_writer.cpp", "src/codec_common.cpp"],
     [("propagation of worker exceptions", L + "src/cloudini.cpp compressionWorker, waitForCompressionComplete"), ("restart of the worker", L + "src/cloudini.cpp PointcloudEncoder::encode need_respawn"), ("worker guard", L + "src/cloudini.cpp WorkerGuard")],
     hook="CLOUDINI_VERIFICATION_POINTS_PER_CHUNK")
prop("C09", "Encoders, decoders and buffers can be reused in any order",
     "Encoding or decoding with an object that was used before (with any other clouds, headers, versions, output buffers, successful or failed calls) gives exactly the result that a fresh object gives. "
     "No state of one cloud ever leaks into the next one.",
     ["histories", "configurations"],
     "all sequences of up to 3 (thorough: 4) operations on the same encoder / decoder / output vector, drawn from an alphabet of clouds, cloud descriptions and failing calls that use every kind of field codec",
     "Each test uses a fresh encoder and decoder once, or repeats the same cloud.",
     ["src/cloudini.cpp", "src/v4_codec.cpp", "src/v5_codec.cpp", "include/cloudini_lib/field_encoder.hpp", "include/cloudini_lib/field_decoder.hpp"],
     [("reset of the field codecs", L + "include/cloudini_lib/field_encoder.hpp reset()"), ("rebuilding of decoders", L + "src/cloudini.cpp PointcloudDecoder::updateDecoders"), ("scratch buffers", L + "src/cloudini.cpp ensureScratchBuffer")])
prop("C10", "The header describes the cloud faithfully in both of its forms",
     "Every description of a cloud (dimensions, point size, options, version, any field names, offsets, types and resolutions) that is written in the textual or the binary header is read back identical, and reading consumes exactly the header. "
     "Headers written by an independent implementation of the documented format are understood, and a malformed one is rejected with an exception.",
     ["inputs", "configurations"],
     "product of boundary values of all numeric members, every printable and special character in names at every position, all short names over a critical alphabet, resolutions over the whole float range, 0..N fields, both forms, payload following the header",
     "The tests write two headers with plain names and round numbers.",
     ["src/cloudini.cpp", "include/cloudini_lib/yaml_parser.hpp", "include/cloudini_lib/encoding_utils.hpp"],
     [("YAML writer/reader", L + "src/cloudini.cpp EncodingInfoToYAML/EncodingInfoFromYAML"), ("YAML parser", L + "include/cloudini_lib/yaml_parser.hpp"), ("binary header", L + "src/cloudini.cpp EncodeHeader/DecodeHeader")])
prop("C11", "Decoding any bytes is memory safe and terminates",
     "Whatever bytes are given as header, payload, cloud description or ROS message, reading and decoding them either succeeds or throws an exception derived from std::exception. "
     "It never reads or writes outside of the given buffers, never executes undefined behaviour, and needs time and memory in proportion to the input, the declared output and the declared number of values.",
     ["inputs", "configurations"],
     "all byte strings up to a small length, every truncation, every single-byte (and selected multi-byte) replacement of valid streams of every configuration, all combinations of extreme header values, inconsistent output sizes; executed under AddressSanitizer and UndefinedBehaviorSanitizer",
     "The tests only decode valid streams and a handful of hand-made corruptions.",
     ["src/cloudini.cpp", "src/codec_common.cpp", "src/v4_codec.cpp", "src/v5_codec.cpp", "include/cloudini_lib/field_decoder.hpp", "src/field_decoder.cpp", "include/cloudini_lib/contrib/nanocdr.hpp", "include/cloudini_lib/yaml_parser.hpp"],
     [("bounds checks of the field decoders", L + "include/cloudini_lib/field_decoder.hpp"), ("layout validation", L + "src/codec_common.cpp CheckFieldsLayout"), ("bounded decompression", L + "src/codec_common.cpp DecompressChunk"), ("CDR reader", L + "include/cloudini_lib/contrib/nanocdr.hpp")])
prop("C12", "Incomplete or excess data is never accepted as a complete cloud",
     "Decoding (format version 3 and later) a stream that was cut anywhere, that lacks a chunk, has a chunk too many, or declares more points than it holds, throws an exception instead of returning a cloud.",
     ["inputs", "crash_points"],
     "every truncation point of streams of every configuration with 1..3 chunks, every removal, duplication and extension of a chunk, every change of the declared number of points around the true one",
     "A handful of truncations are tested for one configuration.",
     ["src/cloudini.cpp", "src/v4_codec.cpp", "src/v5_codec.cpp", "src/codec_common.cpp"],
     [("point accounting across chunks", L + "src/cloudini.cpp PointcloudDecoder::decode"), ("chunk completeness", L + "src/v4_codec.cpp DecodeV4Stage1Chunk, src/v5_codec.cpp DecodeV5Stage1Chunk")])
prop("C13", "All format versions stay readable, and the written format stays as specified",
     "Streams of format versions 2 to 5, as an independent implementation of the documented format writes them (any legal choice of coding), are decoded to the same points. "
     "What the encoder writes for versions 3 to 5 is decoded by that independent implementation to the same points.",
     ["inputs", "configurations"],
     "both directions between the library and an independent reference codec for all versions, options, compressions, field kinds, leading groups, every legal coding mode per column and chunk, non-maximal runs, both header forms, 1..3 chunks",
     "The tests decode with the same code that encoded: a matching change on both sides breaks every stored recording but no test.",
     ["src/cloudini.cpp", "src/v4_codec.cpp", "src/v5_codec.cpp", "include/cloudini_lib/field_encoder.hpp", "include/cloudini_lib/field_decoder.hpp"],
     [("version dispatch", L + "src/cloudini.cpp decode, src/v4_codec.cpp, src/v5_codec.cpp UsesV5Codec"), ("wire format", "CLOUDINI_ALGORITHM_ANALYSIS.md")])
prop("C14", "ROS messages are converted and restored without loss",
     "A serialized PointCloud2 message (either byte order of the envelope) that is compressed and decompressed again gives back the message: header, dimensions, the names, offsets and types of the fields, steps, is_dense and, within the guarantee of each field, the points; empty clouds included. "
     "The produced messages are well-formed serialized messages that an independent reader understands.",
     ["inputs", "configurations"],
     "product of frame ids of every length modulo the alignment, field lists, dimensions, stamps, flags, both byte orders, all versions/options; checked with an independent CDR reader and writer",
     "One recorded message is tested; alignment and byte order errors depend on string lengths and field counts modulo 8.",
     ["src/ros_msg_utils.cpp", "include/cloudini_lib/ros_msg_utils.hpp", "include/cloudini_lib/contrib/nanocdr.hpp"],
     [("CDR coder", L + "include/cloudini_lib/contrib/nanocdr.hpp"), ("message conversion", L + "src/ros_msg_utils.cpp convertPointCloud2ToCompressedCloud/convertCompressedCloudToPointCloud2")])
prop("C15", "Copies and moves of a ROS cloud always see valid data",
     "After any sequence of copies, moves, assignments (self assignment included), preprocessing and destructions of ROS cloud objects, the data and members of each live object (other than a moved-from one) equal what a model with value semantics predicts, and never refer to memory of another or a destroyed object.",
     ["histories"],
     "all sequences of up to 4 (thorough: 5) operations on 3 objects, drawn from construction, copy, move, assignment, preprocessing and destruction, under AddressSanitizer",
     "The tests perform one copy and one move each.",
     ["include/cloudini_lib/ros_msg_utils.hpp"],
     [("rebinding of the view", L + "include/cloudini_lib/ros_msg_utils.hpp RosPointCloud2 copy/move members")])
prop("C16", "Visualization preprocessing keeps exactly one point per occupied voxel",
     "The lossy preprocessing for visualization drops exactly the points with a non-finite coordinate and those whose voxel already holds an earlier point; the survivors are unchanged, in order, and the description of the cloud matches them. "
     "64-bit floats without a resolution get a resolution of 1e-6. Clouds without a leading coordinate triple (three 32-bit floats of equal positive resolution at consecutive offsets within the point) are left untouched, whatever the message claims.",
     ["inputs", "histories"],
     "all clouds of up to 5 points over an alphabet of coordinates (voxel edges, ties, extremes, NaN, infinities), products of triple layouts and resolutions, repeated application; compared with a reference model",
     "The tests use four clouds with coordinates near the origin.",
     ["src/ros_msg_utils.cpp"],
     [("voxel key", L + "src/ros_msg_utils.cpp packVoxelKey21"), ("preprocessing", L + "src/ros_msg_utils.cpp applyVizLossyPreprocessing")])
prop("C17", "A resolution profile changes exactly the fields it names",
     "Applying a profile removes exactly the fields whose resolution is zero, sets the resolution of every other named field, gives the default resolution only to the remaining 32-bit float fields, and leaves names, offsets, types and order alone. "
     "A cloud compressed with removed fields decodes to the same points with those bytes untouched.",
     ["inputs", "configurations"],
     "all field lists of up to 4 fields over names and types, all profiles over those names with values {absent, 0, small, large}, default present or absent; end-to-end decode of the reduced clouds",
     "One profile is tested.",
     ["src/ros_msg_utils.cpp"],
     [("profile", L + "src/ros_msg_utils.cpp applyResolutionProfile")])
prop("C18", "The WebAssembly entry points never overrun buffers and never throw",
     "Every exported function, given any message or data, returns the size of a correct result or 0, never lets an exception escape and never writes more than the documented size of the caller's buffer. "
     "For valid messages the results agree with the C++ API, and the sizes announced in advance are the sizes written.",
     ["inputs", "configurations"],
     "valid messages over layouts, sizes and versions; every truncation and single-byte mutation of valid messages; mismatched declared sizes; output buffers framed by guards, under AddressSanitizer",
     "The entry points have no test at all.",
     ["src/wasm_functions.cpp", "include/cloudini_lib/wasm_functions.h"],
     [("C entry points", L + "src/wasm_functions.cpp")])
prop("C19", "PCL clouds and PCD files are converted without loss",
     "A PCL cloud (generic, XYZ or XYZI) or PCD file that is encoded and decoded gives back dimensions, fields and points, each field within its guarantee. "
     "Decoding into a point type with other fields or another layout stores exactly the common fields, and the header of a PCD file is understood for every legal spelling.",
     ["inputs", "configurations"],
     "field lists over all PCL types, organized and unorganized sizes, all pairs of source description and destination point type, PCD headers over comments, line ends, blank runs, field types and sizes, ascii and binary data",
     "Two clouds are tested.",
     ["src/pcl_conversion.cpp", "include/cloudini_lib/pcl_conversion.hpp"],
     [("description of a PCL cloud", L + "src/pcl_conversion.cpp ConvertToEncodingInfo"), ("PCD header", L + "src/pcl_conversion.cpp ReadEncodingInfoFromPCD"), ("templated decode", L + "include/cloudini_lib/pcl_conversion.hpp PointcloudDecode")])
prop("C20", "Independent objects can be used from several threads at once",
     "Encoders, decoders, headers, message, PCL and bag conversions and the objects of the ROS 2 package that share no object may run concurrently in any number of threads: under every interleaving each gives the result it gives alone, without data races.",
     ["schedules", "programs"],
     "all pairs (and selected triples) of operations run in two (three) threads, under all interleavings of their synchronization and shared accesses up to the bounds stated in the evidence, with a happens-before race detector",
     "No test uses the library from two threads.",
     ["src/cloudini.cpp", "src/codec_common.cpp", "src/v5_codec.cpp", "src/ros_msg_utils.cpp"],
     [("no shared mutable state", L + "src/*.cpp"), ("thread-local scratch memory", L + "src/ros_msg_utils.cpp, src/v5_codec.cpp")],
     hook="CLOUDINI_VERIFICATION_POINTS_PER_CHUNK")
prop("C21", "Every build of the library reads and writes the same format",
     "Whatever instruction set (SSE4.1, other SIMD, none), compiler or optimisation level the library was built with: a stream or message written by one build is decoded by every other build, to the same bytes, within the guarantee of each field; and a damaged stream gets the same verdict from all of them.",
     ["configurations", "inputs"],
     "six builds; field lists, configurations and contents; sequences of points over ties, extremes and values that cannot be quantized in leading groups; truncations and replacements of streams; converted messages; every build writes, every build reads",
     "Tests run in the build at hand; code for other instruction sets is never even compiled by them.",
     ["include/cloudini_lib/intrinsics.hpp", "src/field_encoder.cpp", "src/field_decoder.cpp", "src/*.cpp"],
     [("SIMD and portable paths", L + "include/cloudini_lib/intrinsics.hpp"), ("leading group", L + "src/field_encoder.cpp FieldEncoderFloatN_Lossy::encode")])
prop("C22", "The ROS 2 package delivers the cloud that was published",
     "Every cloud compressed by the ROS 2 publisher plugin, the serialization helper or the topic converter is restored by the subscriber plugin, the topic converter and the PCL subscriber: same header, dimensions, fields and flags, points within the guarantee of the configured resolution, in any number of successive messages. "
     "Every compressed message states its format, so that its description can be read back. The subscriber plugin refuses a message whose members contradict the data inside of it, and damaged messages do not affect the following ones.",
     ["inputs", "histories", "configurations"],
     "field lists, layouts, dimensions, resolutions (declared or changed later), both byte orders, all three senders x all three receivers, long histories on the same objects; contradicting members, truncations and replacements; all combinations of the quality of service of up to four publishers",
     "The ROS package has no tests, and none of it is compiled by the tests of the library.",
     ["cloudini_ros/src/conversion_utils.cpp", "cloudini_ros/src/cloudini_publisher_plugin.cpp", "cloudini_ros/src/cloudini_subscriber_plugin.cpp", "cloudini_ros/src/topic_converter.cpp", "cloudini_ros/src/cloudini_subscriber_pcl.cpp"],
     [("publisher plugin", "cloudini_ros/src/cloudini_publisher_plugin.cpp encodeTyped"), ("subscriber plugin", "cloudini_ros/src/cloudini_subscriber_plugin.cpp decodeTyped"),
      ("topic converter", "cloudini_ros/src/topic_converter.cpp callback"), ("PCL subscriber", "cloudini_ros/src/cloudini_subscriber_pcl.cpp messageCallback"),
      ("helpers", "cloudini_ros/src/conversion_utils.cpp")])
prop("C23", "Clouds of the PCL subscriber belong to the application as long as it holds them",
     "A cloud that the PCL subscriber handed to the application keeps its contents until the application has released its last reference: later messages, failed messages, exceptions of the application and the destruction of the subscriber do not touch it, no cloud is handed out twice, all memory is given back in the end, and the application may hold and release clouds in other threads while messages arrive.",
     ["histories", "schedules"],
     "all sequences of up to 6 (thorough: 7) receptions, releases, failures and the destruction of the subscriber, under AddressSanitizer; one receiving thread and one or two releasing threads under all interleavings up to the stated preemption bounds, with race detection",
     "A pool that recycles memory fails only in particular orders of receptions and releases, and across threads only in particular schedules; nothing of it is tested.",
     ["cloudini_ros/src/cloudini_subscriber_pcl.cpp", "cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp"],
     [("pool of clouds", "cloudini_ros/src/cloudini_subscriber_pcl.cpp acquireCloudFromPool")],
     state=[("free list of clouds", "clouds that nobody holds, under a mutex", "cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp")])

prop("C24", "Converting a bag changes its point clouds and leaves everything else as it was",
     "McapConverter and the command line tool cloudini_rosbag_converter turn every sensor_msgs/msg/PointCloud2 message of an MCAP file into a point_cloud_interfaces/msg/CompressedPointCloud2 message whose decoded points keep the guarantee of the given resolution, profile and options (or, decoding, every compressed message into the PointCloud2 message it stands for), with the schema and type of their channels changed accordingly. Everything else of the file is kept: topics, encodings, channel and file metadata, attachments, other schemas and messages (bytes, times, sequence numbers, order), channels without schema or without messages. Profiles mean what the documentation says, whether given as text or as a file, and one converter may be used for any number of files. The tool writes output and metadata.yaml to the documented place, never changes its input, and overwrites other files only with consent.",
     ["inputs", "histories"],
     "all lists of up to 3 (thorough 4) of 6 kinds of channels with all short message orders x options x profiles, encoded, decoded and decoded again; all histories of up to 4 (thorough 5) operations on one converter; products of profile spellings; the tool with 8 ways to name the input x 4 outputs x options, and its refusals",
     "No test runs the converter; its users convert recordings that they then delete. A lost attachment, a swapped channel or a stale state from the file before shows only for particular compositions of a bag.",
     ["cloudini_lib/tools/src/mcap_converter.cpp", "cloudini_lib/tools/include/mcap_converter.hpp", "cloudini_lib/tools/src/cloudini_rosbag_converter.cpp"],
     [("conversion", "cloudini_lib/tools/src/mcap_converter.cpp encodePointClouds / decodePointClouds"), ("schemas and channels", "cloudini_lib/tools/src/mcap_converter.cpp duplicateSchemasAndChannels"), ("paths", "cloudini_lib/tools/src/cloudini_rosbag_converter.cpp main")],
     state=[("id maps and statistics of the converter", "belong to the open file and the running conversion", "cloudini_lib/tools/include/mcap_converter.hpp")])

prop("C25", "The command line tools do what their options say",
     "pcd_to_cloudini_converter writes for every PCD file (named, or found in a directory) a .cldn file at the documented place, from which the points are decoded within the guarantee of the given --encoding, --compression, --resolution and --intensity-resolution (exactly, for lossless); mcap_cutter writes exactly the first N PointCloud2 messages of each channel, unchanged and in order; mcap_header_inspector shows the description of the first compressed message. No tool changes its input, overwrites another file without consent (where it asks) or writes anything else; refused command lines change nothing and end with an exit code.",
     ["inputs"],
     "all encodings x compressions x resolutions x intensity resolutions x outputs x 6 files x 4 (thorough 6) sizes; all directories of 3 entries of 4 kinds x consent; all lists of up to 3 (thorough 4) of 6 kinds of channels with all short message orders x limits; refusals",
     "No test runs the tools; an option that is parsed but ignored changes nothing that a conversion with default options shows.",
     ["cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp", "cloudini_lib/tools/src/mcap_cutter.cpp", "cloudini_lib/tools/src/mcap_header_inspector.cpp"],
     [("PCD converter", "cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp main"), ("cutter", "cloudini_lib/tools/src/mcap_cutter.cpp McapCutter::cut"), ("inspector", "cloudini_lib/tools/src/mcap_header_inspector.cpp main")])
prop("C26", "The Python decoder returns the points and the header of the message",
     "CloudiniDecoder (cloudini_py) returns for every legal compressed message an array of width*height points whose named fields have the types, offsets and values that the C++ decoder yields, "
     "and a header dictionary with the dimensions, options and fields of the message (any distinct, non-empty UTF-8 names); whatever messages it handled before, without changing earlier results. For an incomplete message, or when "
     "memory is lacking, it raises an exception; it never writes outside the memory it allocated and releases all of it.",
     ["inputs", "histories", "fault_sequences"],
     "all lists of up to 2 (thorough 3) field kinds x layouts x dimensions x configurations; all ordered pairs of 58 awkward names; large headers; clouds around the size of the output buffer; all sequences of up to 4 (thorough 5) of 8 operations on one decoder; every truncation; every allocation failing in turn",
     "No test runs the Python package; field names, 64-bit types, clouds beyond 32 MB and failed allocations do not occur in the sample bag its examples use.",
     ["cloudini_py/cloudini_decoder.py", "src/ros_msg_utils.cpp", "src/wasm_functions.cpp"],
     [("decoding", "cloudini_py/cloudini_decoder.py CloudiniDecoder.decode_message"), ("parsing of the header", "cloudini_py/cloudini_decoder.py get_header_info"), ("arrays", "cloudini_py/cloudini_decoder.py bytes_to_numpy")])

prop("C27", "Running out of memory is an error without consequences",
     "If any allocation (operator new) of an operation fails, alone or together with others, the operation reports an error: an exception, a result of 0 from the C entry points, no published message or delivered cloud from the ROS 2 classes, "
     "an exit code other than 0 from the command line tools. It never reports success with a result that differs from the one it has with enough memory. The objects stay usable: later calls on the same encoder, decoder, buffers, plugin, subscriber or "
     "converter succeed with the same result as ever; sources and clouds that the application holds are unchanged, a RosPointCloud2 whose assignment failed can still be read, an McapConverter whose open() failed converts nothing wrong, "
     "nothing is leaked, and clouds are released without needing memory.",
     ["fault_sequences", "histories"],
     "every allocation of every operation of the library, the C entry points, the PCL conversion, the ROS 2 package and the bag converter failing (alone, with the next one, with all following ones; pairs for small operations), on new and on used objects, followed by two calls with memory; every allocation of the rosbag converter and the cutter tool",
     "Tests never run out of memory; the failing allocation has to be a particular one, and the damage (a dangling view, a leaked buffer, a half-updated cache) shows only in a later call.",
     ["include/cloudini_lib/ros_msg_utils.hpp", "src/cloudini.cpp", "src/pcl_conversion.cpp", "src/wasm_functions.cpp", "cloudini_ros/src/cloudini_subscriber_pcl.cpp", "cloudini_lib/tools/src/mcap_converter.cpp"],
     [("codec", "src/cloudini.cpp PointcloudEncoder / PointcloudDecoder"), ("copies", "include/cloudini_lib/ros_msg_utils.hpp RosPointCloud2"), ("C entry points", "src/wasm_functions.cpp"), ("PCD header", "src/pcl_conversion.cpp ReadEncodingInfoFromPCD"), ("bag", "cloudini_lib/tools/src/mcap_converter.cpp open")])

BY_ID = {p[0]["id"]: p for p in P}
