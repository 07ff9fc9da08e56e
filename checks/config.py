"""One entry per property: what is analysed and how the result is to be read."""

KNOWN_SRC = {"capability_inquiry.cpp", "jitter_reduction_timestamps.cpp", "midi1_byte_stream.cpp", "sysex.cpp",
             "sysex_collector.cpp", "universal_packet.cpp", "universal_sysex.cpp"}

PACKET_SCOPE = "packets are all 2^128 word values unless the obligation names a message kind"
API_SCOPE = "arguments outside the documented range of a parameter are only covered where the obligation says so"


def prop(harness, rule, lib=False, level="proof", **kw):
    d = {"harness": [harness + ".cpp"], "flags": ["--mem", "--ub", "--abort"], "level": level, "rule": rule, "lib": lib}
    d.update(kw)
    return d


PROPERTIES = {
    "P01": prop("P01", "every accessor / mutator of universal_packet, interpreted over all 2^128 packets, equals the UMP field map; "
                "mutators are framed (all other bits keep their provenance)", assumptions=[PACKET_SCOPE]),
    "P02": prop("P02", "every utility / system / channel voice / data factory, interpreted over all argument values, yields exactly the "
                "words of the UMP message table; group and channel arguments only contribute their low nibble",
                assumptions=[API_SCOPE]),
    "P03": prop("P03", "every stream and flex data factory yields the words of the UMP stream / flex table for all argument values, and the "
                "view of the result reads the arguments back", assumptions=[API_SCOPE]),
    "P04": prop("P04", "every is_...() predicate and as_..._view() over all 2^128 packets is true exactly on its message kind",
                assumptions=[PACKET_SCOPE]),
    "P05": prop("P05", "every view and protocol independent getter over every packet of its kind reads the specified bits",
                assumptions=[PACKET_SCOPE]),
    "P06": prop("P06", "the translation of every MIDI 1 / MIDI 2 channel voice packet equals the default translation table; everything "
                "without a counterpart is refused; MIDI 1 -> 2 -> 1 is the identity", assumptions=[PACKET_SCOPE]),
    "P07": prop("P07", "up and down scaling of every value at every width: extremes and centre preserved, monotone, down(up(x)) = x, sibling "
                "implementations agree"),
    "P08": prop("P08", "value arithmetic over all operand values saturates at its limits and performs no undefined arithmetic; float and "
                "double inputs clamp", assumptions=["NaN inputs are excluded (the library asserts on them nowhere and documents none)",
                                                    "the rounding of float inputs inside the range is decided by P29"]),
    "P09": prop("P09", "sysex container and 7 bit codec over all values: the encoder's and the decoder's byte order agree, bytes are 7 bit "
                "clean, queries equal their definition", lib=["sysex.cpp"]),
    "P10": prop("P10", "validate / classify / every accessor over received sysex messages of every size in the obligation's list with all "
                "contents unknown: accepted iff complete, every access inside the message's bytes", level="other", lib=True,
                assumptions=["message sizes are those listed by the obligations (every size up to each format's fixed part plus list "
                             "lengths up to the stated bound); contents are unrestricted"]),
    "P11": prop("P11", "every Capability Inquiry / identity factory over all argument values: the result is 7 bit clean, accepted by its own "
                "view and read back unchanged", level="other", lib=True,
                assumptions=["lists and strings have the lengths named in the obligations; their contents are unrestricted", API_SCOPE]),
    "P12": prop("P12", "packets of one sysex message of every length in the list: statuses start/continue/end or complete, sizes, groups, "
                "stream id and payload concatenation equal to the message", level="other", lib=["sysex.cpp"],
                assumptions=["lengths: every length named in the obligations; contents, group and stream id unrestricted"]),
    "P13": prop("P13", "the sysex7 collector over every sequence of n arbitrary packets delivers exactly what the reference automaton "
                "delivers", level="other", lib=["sysex.cpp", "sysex_collector.cpp"],
                assumptions=["sequence length bound of the obligation (5 quick, 7 thorough) plus long single messages"]),
    "P14": prop("P14", "the sysex8 collector over every sequence of n arbitrary packets delivers exactly what the reference automaton "
                "delivers", level="other", lib=["sysex.cpp", "sysex_collector.cpp"],
                assumptions=["sequence length bound of the obligation (4 quick, 5 thorough) plus long single messages"]),
    "P15": prop("P15", "the byte stream parser over every sequence of n arbitrary bytes emits exactly the packets / messages of the MIDI 1.0 "
                "grammar", level="other", lib=["midi1_byte_stream.cpp", "sysex.cpp"],
                assumptions=["sequence length bound of the obligation (16 quick, 26 thorough) plus long sysex runs"]),
    "P16": prop("P16", "bytes of every MIDI 1 packet and packet of every MIDI 1 byte triple equal the MIDI 1.0 message table",
                lib=["midi1_byte_stream.cpp", "sysex.cpp"], assumptions=["data bytes are 7 bit"]),
    "P17": prop("P17", "endpoint name, product instance id and function block name packets of every text length in the list: formats, full packets, "
                "padding and the concatenated text equal the given text; the last packet is recognised", level="other",
                assumptions=["text lengths are those of the obligations; every byte of the text is unrestricted (non zero where the format pads with zeros)"]),
    "P18": prop("P18", "JR timestamp differences and ticks over all values; the follower schedules messages in order and never before the clock that "
                "carries them, over every history of the bounded number of clocks", level="other", lib=["jitter_reduction_timestamps.cpp"],
                assumptions=["histories of up to 4 clock messages; receive times within the window named in the obligation; system_clock::now is an "
                             "arbitrary non decreasing value"]),
    "P19": prop("P19", "collector applied to the packets of the sender, both in the analysed program: exactly one message, equal to the one sent",
                level="other", lib=["sysex.cpp", "sysex_collector.cpp"],
                assumptions=["message lengths are those of the obligations; contents, groups and stream ids unrestricted"]),
    "P20": prop("P20", "byte parser applied to the bytes of the packets of a message: exactly the message sent (both delivery modes), and packets of "
                "short messages come back unchanged", level="other", lib=["midi1_byte_stream.cpp", "sysex.cpp", "sysex_collector.cpp"],
                assumptions=["message lengths are those of the obligations; contents and groups unrestricted, data bytes 7 bit"]),
    "P21": {"rule": "interprocedural effect analysis of every function of the library: no writes to static objects outside once-only "
                    "initialisation, no calls of functions with process wide state, no writes through const objects or const arguments",
            "level": "proof", "rules": [("rules_effects", "shared_state")],
            "technique": "interprocedural effect (mod) analysis over LLVM IR: points-to bases per address, parameter write summaries to a fixpoint",
            "assumptions": ["calls through pointers (user callbacks, std::function) are the user's code", "templates are analysed as instantiated by the obligation files"]},
    "P22": {"rule": "type level witnesses decided by the compiler's type checker and constant evaluator on the current headers", "level": "proof",
            "rules": [("rules_types", "contracts")], "technique": "type-level witnesses (static_assert / detection idiom / compile-fail) checked by the C++ front end"},
    "P23": prop("P23", "no function of the packet layer can reach a heap allocation or blocking call in the call graph; byte stream parser, collectors, senders and "
                "clock follower request no memory for any packet / byte of the obligations", level="other", lib=True, rules=[("rules_effects", "real_time")],
                technique="call graph reachability over LLVM IR, plus abstract interpretation with allocation regions",
                assumptions=["functions that take or return owning containers (std::string, std::vector, sysex messages) are not packet functions",
                             "byte sequences of 12 (packets) and 8 (messages) arbitrary bytes and one long sysex"]),
    "P24": {"rule": "abstract interpretation of the assertion-enabled build over the entries of the other properties: no assertion (or other abort) is reachable",
            "level": "other", "rules": [("rules_assert", "assertions")],
            "assumptions": ["inputs are those of the obligations of P02-P08 and P10-P20: all received packets, bytes and sysex messages, arguments in their documented range"]},
    "P25": prop("P25", "every named constant, default value and default argument of the public interface equals the number the specifications and the documentation "
                "assign (constant evaluator for constants, abstract interpretation for the message factories)", lib=True, rules=[("rules_types", "constants")],
                technique="compile-time witnesses over the public constants (constant evaluation), plus abstract interpretation of the factories with and without default arguments",
                assumptions=["constants of the public headers; positions inside private field_offsets tables are decided by P10 / P11"]),
    "P26": {"rule": "the stream operators of universal_packet, interpreted over all packets and stream states against a model of the standard streams: the text is 8 hexadecimal digits per "
                    "word, reading it returns the packet, incomplete text fails, the stream's format is restored", "level": "proof", "rules": [("rules_text", "text")],
            "assumptions": ["standard streams as modelled in model/ ([ostream], [istream], [facet.num.put], [facet.num.get], \"C\" locale); upper case output (std::uppercase) is not covered"]},
    "P27": prop("P27", "interpretation of the three allocator configurations with an instrumented source of memory: every request for sysex data goes to the configured source, everything is returned to it once and with "
                "its size, nothing else is requested; in the default configuration no allocation outlives its object", level="other", lib=True, variants=["default", "custom", "pmr"],
                assumptions=["operations and lengths listed by the obligations: construction, copy, move, assignment, growth, clear; collectors (3 arbitrary packets), parser (1100 data bytes, any end byte), senders, factories"]),
    "P28": {"rule": "the front end accepts every public header alone, twice, in any order and in every configuration; the linker finds no second definition when several translation units include them", "level": "proof",
            "rules": [("rules_headers", "headers")], "technique": "compilation witnesses: front end and module linker over generated translation units (accept / reject), nothing is run",
            "assumptions": ["clang 18 with libstdc++"]},
    "P29": prop("P29", "conversions between floating point and fixed point over all values: nearest / proportional result against an integer oracle computed from the bits, order, range, agreement of float and double, "
                "round trips; product of pitch bend and sensitivity", technique="abstract interpretation of the compiler's IR with bit-precise IEEE 754 transfer functions in a canonical decision-diagram domain, "
                "monotone compositions with thresholds and affine forms with error bounds where that is too large",
                assumptions=["NaN inputs are excluded (nothing is documented for them)", "round to nearest even, as clang's IR semantics fix it", "the upper half of velocity(double) / controller_value(double): bounds only for doubles that are not floats"]),
    "P30": prop("P30", "property exchange header text over all contents of keys, values and options equals the JSON object they describe: names in order, strings quoted, numbers plain, integers in decimal", level="other", lib=True,
                assumptions=["keys of 0..4 and values of 0..8 characters (any characters), up to two options of 0..4 characters; integers -9999..9999 and selected larger ones",
                             "characters that JSON would need escaped are passed through as they are (the library documents no escaping)"]),
}

# the thorough tier repeats the analysis for the other build configurations
for _id, _conf in PROPERTIES.items():
    if _conf.get("harness") and "variants" not in _conf:
        _conf["thorough_variants"] = ["cxx20", "pmr"] if _conf.get("lib") else ["cxx20"]
