#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below and checks/config.py (not used by any check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import config

INC = "inc/midi/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                                 "observe_at": observe or []}})


prop("P01", "Packet accessors and mutators touch exactly their own bits",
     "Reading type, group, status, channel, any byte or any 7-bit byte of a universal packet returns exactly the bits the UMP format assigns to that "
     "field, and setting a field or byte changes those bits and no other bit of the packet. Packet size in words follows from the message type for all "
     "16 types, and equality compares exactly the words that belong to the packet type's size.",
     ["inputs"], "all 2^128 packet values, all field values and all byte indices",
     "The tests sample a few dozen packets; a mask or shift that is wrong for one field value, one byte index or one reserved message type, or that "
     "clobbers a neighbouring bit, survives them.",
     [INC + "universal_packet.h"],
     [("universal_packet", INC + "universal_packet.h")])
prop("P02", "Channel voice, system, utility and data factories build the specified words",
     "Every factory for utility, system, MIDI 1 and MIDI 2 channel voice and data (sysex7/sysex8) messages produces exactly the words the UMP "
     "specification gives for its arguments, for all argument values. Group and channel arguments contribute only their low four bits, MIDI 1 data bytes and MIDI 2 controller, bank and program numbers only "
     "seven, and unused bits are zero. Adding payload bytes to sysex packets never exceeds the packet's payload capacity or disturbs other bytes.",
     ["inputs"], "all argument values of all factories",
     "Tests compare a few literal packets per factory; leakage of out of range bits into neighbouring fields and corner values are never exercised.",
     [INC + "midi1_channel_voice_message.h", INC + "midi2_channel_voice_message.h", INC + "system_message.h", INC + "utility_message.h", INC + "data_message.h", INC + "extended_data_message.h"],
     [("make_..._message factories", INC), ("sysex7_packet / sysex8_packet", INC + "data_message.h, extended_data_message.h")])
prop("P03", "Stream and flex data messages carry and return their fields unchanged",
     "Every stream (endpoint discovery/info, device identity, names, stream configuration, function block) and flex data (tempo, time signature, "
     "metronome, key signature, chord name, text) factory produces the specified words for all arguments, and the corresponding view or accessor of the "
     "produced packet returns every argument unchanged. Text payloads of up to a packet's capacity, including non-ASCII UTF-8 bytes, are returned byte for byte.",
     ["inputs"], "all argument values; all text contents of every length up to the packet capacity",
     "Tests use a handful of ASCII names and typical values; a field truncated, shifted or masked for other values passes them (bit 7 of UTF-8 text "
     "was in fact lost).",
     [INC + "stream_message.h", INC + "flex_data_message.h"],
     [("stream/flex factories and views", INC + "stream_message.h")])
prop("P04", "Packet classification is exact for every packet",
     "Every predicate asking whether a packet is of some kind, and every conversion of a packet to an optional view, is true (has a value) exactly for "
     "the packets of that kind according to message type, status and format bits, for every possible packet. A MIDI 1 note on with velocity zero is classified as "
     "a note off and never as a note on.",
     ["inputs"], "all 2^128 packets",
     "Tests try one or two accepted and a few rejected packets per predicate; the complement of a class is 2^128 packets.",
     [INC + "universal_packet.h", INC + "channel_voice_message.h", INC + "data_message.h", INC + "stream_message.h", INC + "system_message.h", INC + "utility_message.h"],
     [("is_..._message / as_..._view", INC)])
prop("P05", "Views and protocol independent getters read the right bits of any packet",
     "For every packet accepted by a view, each accessor of the view returns the value of the field it is named after. The protocol independent getters "
     "(note number, velocity, pitch, controller value, pressure, pitch bend, program) return for MIDI 1 and MIDI 2 packets the respective field, scaled to the common "
     "value type, including 7.9 pitch attributes and velocity-zero note offs.",
     ["inputs"], "every packet of the kind the view or getter accepts",
     "Tests read back a few literal messages; wrong masks and MIDI 1/MIDI 2 mix-ups at other values go unnoticed.",
     [INC + "channel_voice_message.h", INC + "midi1_channel_voice_message.h", INC + "midi2_channel_voice_message.h", INC + "data_message.h", INC + "stream_message.h", INC + "system_message.h"],
     [("..._view accessors, get_...()", INC)])
prop("P06", "MIDI 1 / MIDI 2 translation keeps message meaning",
     "Translating any MIDI 1 channel voice packet to MIDI 2, or any MIDI 2 one to MIDI 1, yields the same group, channel, kind of message, note or "
     "controller index and the value scaled up or down, or no result when the message has no counterpart; a MIDI 2 note on never becomes velocity 0 and a MIDI 1 "
     "note on with velocity 0 becomes a note off with velocity 64. Translating MIDI 1 to MIDI 2 and back is the identity on everything translatable (apart from that note off).",
     ["inputs"], "all MIDI 1 and MIDI 2 channel voice packets",
     "Tests translate single literals per status; the value space is 2^64 and the refusal set is only sampled.",
     [INC + "channel_voice_message.h"],
     [("as_midi1_channel_voice_message / as_midi2_channel_voice_message", INC + "channel_voice_message.h")])
prop("P07", "Value scaling preserves extremes, centre, order and round trips",
     "Scaling a value up from any width to any larger width (and the 7/14/16/32-bit conversions of velocity, controller and pitch bend values) maps "
     "minimum to minimum, centre to centre and maximum to maximum and is strictly monotone. Scaling down is truncation, so scaling up and down again returns the original value for "
     "every value of every width.",
     ["inputs"], "every value of every width",
     "Tests check tables of selected values for 7, 14 and 16 bits; other widths and the values between are not looked at.",
     [INC + "types.h"],
     [("upsample / downsample functions", INC + "types.h")])
prop("P08", "Value arithmetic saturates, never wraps, and floats clamp",
     "Adding or subtracting controller values, pitches, pitch increments and pitch bends yields the mathematically exact result when representable and "
     "otherwise the nearest limit of the type, for all operands, with no undefined arithmetic. Constructing values from float or double clamps out of range "
     "inputs to the type's limits and maps the documented end and centre points exactly.",
     ["inputs"], "all operand values; all non-NaN float / double inputs for the clamping clause",
     "Tests add a few pairs; wrap-around appears only at particular operand combinations, and undefined arithmetic does not show in test results at all.",
     [INC + "types.h"],
     [("operator+ / operator- and constructors of value types", INC + "types.h")])
prop("P09", "Sysex container and its 7-bit codec agree with each other",
     "Whatever 7-, 14-, 28- or 32-bit value or device identity is appended to a sysex message in the library's encoding is read back unchanged from the "
     "same position, and everything written by the 7-bit encoders has bit 7 clear. Manufacturer id, type queries, total size, equality and clearing report "
     "exactly what the message contains.",
     ["inputs"], "all values, all bytes of messages up to the analysed sizes",
     "Tests round trip a few numbers; byte order or shift errors in one of the widths at large values are not reached.",
     [INC + "sysex.h", "src/sysex.cpp"],
     [("sysex7 / sysex8, add_* / make_uint*", INC + "sysex.h")])
prop("P10", "Received Capability Inquiry messages are validated before they are read",
     "A received universal sysex or MIDI-CI message of any size and content is accepted by a typed view exactly when it is of that kind and complete "
     "including its embedded lengths, and every accessor of an accepted view only reads bytes inside the message and returns the specified field. "
     "Validation of any message, however short or malformed, never reads outside it.",
     ["inputs", "histories"], "all contents of received messages; all sizes up to the format's fixed part plus bounded lists",
     "Tests feed well formed messages and a few truncations; length fields that disagree with the size are the attack surface and are unbounded in number.",
     [INC + "capability_inquiry.h", INC + "universal_sysex.h", "src/capability_inquiry.cpp", "src/universal_sysex.cpp"],
     [("validate() / as<view>() / view accessors", INC + "capability_inquiry.h")])
prop("P11", "MIDI-CI factories make valid messages that read back",
     "Every message made by an identity or Capability Inquiry factory contains only 7-bit data bytes, carries the right sub ids and message version, is accepted "
     "by its own typed view, and the view returns every argument the message was made from (MUIDs, ids, lists, header and body). Embedded lengths equal the lengths "
     "of the data that follows, and property header text is the JSON for the given options.",
     ["inputs"], "all argument values; lists and strings of the analysed lengths with arbitrary contents",
     "Tests compare a literal byte dump for one argument set per factory; other values, empty lists and strings and large data are not covered.",
     [INC + "capability_inquiry.h", INC + "universal_sysex.h", "src/capability_inquiry.cpp", "src/universal_sysex.cpp"],
     [("make_..._message factories", INC + "capability_inquiry.h")])
prop("P12", "Sysex segmentation sends the whole message in well-formed packets",
     "Sending a sysex7 or sysex8 message of any length emits packets whose payloads concatenated are exactly the message (manufacturer id and data), a "
     "single complete packet when it fits and otherwise one start, any number of full continue packets and one end. Every packet carries the given group (and stream "
     "id) and a payload size equal to the bytes it holds, and no packet is emitted empty except for an empty message.",
     ["inputs"], "all message lengths and contents, groups and stream ids",
     "Tests send a few lengths; off by one errors appear only at particular lengths around packet limits combined with the manufacturer id size.",
     [INC + "sysex.h", INC + "data_message.h", INC + "extended_data_message.h", "src/sysex.cpp"],
     [("send_sysex7 / send_sysex8", INC + "sysex.h")])
prop("P13", "Sysex7 reassembly delivers exactly the messages contained in the packets",
     "For every sequence of packets the sysex7 collector invokes its callback once per correctly framed sysex7 message with exactly its manufacturer id and data, "
     "and never for unfinished, out of order or oversized messages, whose data never shows up in a later message. Packets of other kinds do not disturb it, a reset "
     "forgets everything collected, and memory used stays within the configured limit.",
     ["inputs", "histories"], "every sequence of packets",
     "Tests send a few scripted sequences; the framing state machine's behaviour depends on the history of statuses, sizes and limits.",
     [INC + "sysex_collector.h", "src/sysex_collector.cpp"],
     [("sysex7_collector::feed", "src/sysex_collector.cpp")])
prop("P14", "Sysex8 reassembly delivers exactly the messages contained in the packets",
     "For every sequence of packets the sysex8 collector invokes its callback once per correctly framed sysex8 message with its stream id, manufacturer id and "
     "data, and never for unfinished, mixed-stream, out of order or oversized messages, whose data never shows up in a later message. Packets of other kinds do not disturb it, a "
     "reset forgets everything collected, and memory used stays within the configured limit.",
     ["inputs", "histories"], "every sequence of packets",
     "Tests send a few scripted sequences; stream ids, statuses, sizes and limits interact over histories.",
     [INC + "sysex_collector.h", "src/sysex_collector.cpp"],
     [("sysex8_collector::feed", "src/sysex_collector.cpp")])
prop("P15", "MIDI 1 byte stream parsing follows the MIDI 1.0 grammar",
     "For every sequence of bytes the byte stream parser emits exactly the channel voice, system and sysex messages of the MIDI 1.0 grammar (running status, "
     "interleaved real time bytes, undefined status bytes, aborted messages), in order and with the configured group, never a message with stale or missing data bytes. "
     "The result does not depend on how the bytes are split over feed calls, and sysex delivery follows the chosen mode (packets, whole messages or none).",
     ["inputs", "histories"], "every sequence of bytes, every split, every mode",
     "Tests parse a few dozen scripted streams; the parser is a state machine over an unbounded alphabet of histories.",
     [INC + "midi1_byte_stream.h", "src/midi1_byte_stream.cpp"],
     [("midi1_byte_stream_parser::feed", "src/midi1_byte_stream.cpp")])
prop("P16", "Packets and MIDI 1 bytes convert into each other",
     "For every packet that has a MIDI 1 byte form (system, MIDI 1 channel voice, sysex7) the conversion writes exactly the bytes of the MIDI 1.0 message, the reported "
     "size equals the number of bytes written, and packets without a byte form write nothing. Making a packet from the bytes of a message and converting it back is the identity.",
     ["inputs"], "all packets and all valid byte triples",
     "Tests convert one literal per status.",
     [INC + "midi1_byte_stream.h", "src/midi1_byte_stream.cpp"],
     [("to_midi1_byte_stream / from_midi1_byte_stream", INC + "midi1_byte_stream.h")])

prop("P17", "Long names survive segmentation into stream messages",
     "Sending an endpoint name or function block name of any length, or a product instance id of up to 16 characters, emits packets whose texts concatenated are exactly the given text: one complete packet "
     "when it fits, otherwise start, full continue packets and end, each with the right status and function block number and zero padding only behind the end of the text. "
     "Reading the payload of every packet back yields the text again, including non-ASCII UTF-8.",
     ["inputs"], "all texts of the analysed lengths",
     "Tests send a few names; wrong splitting shows only at lengths around multiples of the packet capacity.",
     [INC + "stream_message.h"],
     [("send_endpoint_name / send_product_instance_id / send_function_block_name", INC + "stream_message.h")])
prop("P18", "Jitter reduction timestamps keep messages in order",
     "The difference of two JR timestamps is the number of ticks from the second to the first modulo 2^16, the JR clock counts them modulo 2^16, and JR clock and timestamp messages carry every timestamp unchanged. "
     "As long as the sender's timestamps do not run backwards, the follower schedules messages in the order of their timestamps for every history of early or late clock messages: "
     "at receive time before the first clock, afterwards at the clock's reference time plus the timestamp distance, always plus the security offset, which is at least 2 ms (unless set) and grows to "
     "1.2 times the observed jitter (the longest minus the shortest delay of the clocks). Reset forgets all of it.",
     ["inputs", "histories"], "all timestamps and all bounded histories of clock arrivals",
     "Tests replay a few scripted clock sequences; reordering needs a particular early / late pattern (one was found and repaired).",
     [INC + "jitter_reduction_timestamps.h", "src/jitter_reduction_timestamps.cpp"],
     [("jr_clock_follower", "src/jitter_reduction_timestamps.cpp"), ("jr_timestamp arithmetic", INC + "jitter_reduction_timestamps.h")])
prop("P19", "What one side sends as sysex the other side collects",
     "Feeding the packets sent for any sysex7 or sysex8 message to a collector delivers exactly one message, equal to the one sent (manufacturer id, data, group and stream id). "
     "Messages sent one after the other arrive one after the other, each complete.",
     ["inputs", "histories"], "all message lengths, contents, groups and stream ids",
     "Sender and collector are tested apart with literal packets; an error shared by both sides or a mismatch between them at particular lengths is not seen.",
     [INC + "sysex.h", INC + "sysex_collector.h", "src/sysex.cpp", "src/sysex_collector.cpp"],
     [("send_sysex7/8 and sysex7/8_collector", "src/sysex_collector.cpp")])
prop("P20", "Messages survive the way through a MIDI 1 byte stream",
     "Converting the packets of any sysex7 message, system message or MIDI 1 channel voice message to MIDI 1 bytes and parsing the bytes yields exactly the message "
     "again, both as packets and as whole sysex messages.",
     ["inputs", "histories"], "all messages of the analysed lengths",
     "The two directions are tested apart with literals.",
     [INC + "midi1_byte_stream.h", "src/midi1_byte_stream.cpp"],
     [("to_midi1_byte_stream and midi1_byte_stream_parser", "src/midi1_byte_stream.cpp")])


prop("P21", "The library keeps no hidden mutable state and const access never writes",
     "No library function modifies anything but the objects it is given: there is no static, global or thread local variable that changes after its once-only initialisation and no use of "
     "process wide state, so that distinct parsers, collectors, followers and messages can be used from different threads and in any interleaving without influencing each other. Const member functions do not modify their "
     "object and const arguments are not modified, so that concurrent reading is safe.",
     ["schedules", "histories"], "all interleavings of operations on distinct objects and of const operations on shared ones",
     "Tests are single threaded and use one object at a time; a shared scratch buffer or a lazily cached field passes all of them.",
     [INC, "src/"],
     [("all functions", INC + ", src/")])
prop("P22", "The types keep units, protocols and packets apart",
     "Numbers, velocities, controller values, pitches, pitch bends and increments never convert into each other without being asked to, an integer of unknown width does not choose a scaling, and only matching kinds are added, "
     "multiplied or compared. Typed messages are plain 16 byte packets without additional state, groupless messages offer no group, checked views are optional, and factories, views, translation and arithmetic are usable in "
     "constant expressions.",
     ["inputs"], "all programs using the library",
     "A test can only contain code that compiles; that misuse does not compile is not testable by running anything.",
     [INC + "types.h", INC + "universal_packet.h", INC + "stream_message.h", INC + "utility_message.h"],
     [("explicit constructors, deleted functions, operators", INC + "types.h")])
prop("P23", "Packets are handled without dynamic memory",
     "Creating, inspecting, translating and scaling packets and values, converting packets to bytes, parsing a byte stream into packets, sending an existing sysex message as packets, skipping foreign packets in collectors and "
     "following JR clocks requests no dynamic memory and does not block, for any packet or byte. Only text, list and sysex message objects own memory.",
     ["inputs", "histories"], "all packets; all byte sequences up to the bound",
     "An allocation on a rare path is invisible to a test of the result.",
     [INC + "universal_packet.h", INC + "midi1_byte_stream.h", INC + "sysex.h", "src/midi1_byte_stream.cpp", "src/sysex_collector.cpp", "src/jitter_reduction_timestamps.cpp"],
     [("packet functions", INC + "universal_packet.h"), ("midi1_byte_stream_parser::feed", "src/midi1_byte_stream.cpp")])

prop("P24", "Assertions never fire on received data or documented arguments",
     "In a build with assertions enabled, no assertion of the library fails and nothing aborts for any received packet, byte sequence or sysex message that is inspected through the checked interfaces, nor for factory arguments in "
     "their documented range, for any history of the stateful parts (parser, collectors, senders, clock follower).",
     ["inputs", "histories"], "all received packets, bytes and messages, and all argument values, within the bounds of the other properties",
     "An assertion that is too strict by one, or that holds only for typical sizes, aborts an application on the first unusual input; tests contain the usual ones.",
     [INC, "src/"],
     [("assert() conditions", INC + ", src/")])

prop("P25", "Named protocol constants and defaults have their specified values",
     "Every named constant of the public interface (message types, status bytes, controllers and registered parameters, manufacturer ids, device ids, universal sysex and MIDI-CI sub ids, stream and flex statuses, value "
     "limits) has the number the MIDI specifications assign to it, default constructed values have the documented value, and a factory called without an optional argument produces the message it produces for the documented "
     "default.",
     ["inputs"], "all named constants; all values of the remaining arguments of every factory",
     "Tests use the same names on both sides of a comparison, so that a wrong number behind a name agrees with itself.",
     [INC + "universal_packet.h", INC + "manufacturer.h", INC + "universal_sysex.h", INC + "capability_inquiry.h", INC + "stream_message.h", INC + "types.h"],
     [("enumerations and constants", INC), ("default arguments", INC + "capability_inquiry.h, stream_message.h")])

prop("P26", "Packets written as text read back unchanged",
     "Writing a packet to a stream produces eight hexadecimal digits (lower case unless the stream asks for upper case) for each word of its size, separated by single spaces, whatever base, alignment, fill and width the stream is set to, and reading that text returns the same packet and consumes "
     "nothing else. Text that ends before the last word of its packet, or is no hexadecimal number of 32 bits, makes the read fail. Both leave the format flags and fill character of the stream as they were.",
     ["inputs"], "all packets of all message types, all base/adjustment/showbase/showpos settings and fill characters, all truncations at word boundaries",
     "Tests write a few packets to a default formatted stream and never check the stream afterwards; truncated text and foreign formats are not tried.",
     ["src/" + "universal_packet.cpp", INC + "universal_packet.h"],
     [("operator<<, operator>>", "src/" + "universal_packet.cpp")])

prop("P27", "Sysex memory comes from the configured allocator and is given back",
     "With a custom sysex allocator or a memory resource, the data of every sysex message (built, copied, moved, collected from packets or parsed from bytes) is requested from that source and from nowhere else. "
     "In every configuration all memory a message, collector or parser has requested is released exactly once, to its source and with its size, when it is destroyed, also when it is destroyed in the middle of a message.",
     ["inputs", "histories", "configurations"], "three allocator configurations; container operations, any 3 packets per collector, any end of a parsed message",
     "The tests do not watch the allocator, and leaks or memory from the wrong source do not change any result they compare.",
     [INC + "sysex.h", "src/" + "sysex.cpp", "src/" + "sysex_collector.cpp", "src/" + "midi1_byte_stream.cpp"],
     [("sysex constructors, data_allocator", INC + "sysex.h"), ("sysex7_collector, sysex8_collector", "src/" + "sysex_collector.cpp"), ("midi1_byte_stream_parser::sysex_*", "src/" + "midi1_byte_stream.cpp")])

prop("P28", "Public headers stand alone in every configuration",
     "Every public header compiles when it is the first or only one a translation unit includes, when it is included twice and in any order with the others, as C++17 and C++20, with and without assertions, exceptions and "
     "RTTI, and with each sysex memory configuration. Any number of translation units of one program can include the headers and be linked with the library.",
     ["configurations"], "all headers x 6 configurations, all ordered pairs of headers, two translation units plus the library sources",
     "Every test source includes several headers in one order and is built in one configuration at a time.",
     [INC],
     [("include directives, inline definitions", INC)])

prop("P29", "Float conversions are accurate, ordered and reversible",
     "Pitches and pitch increments constructed from float or double are the nearest representable value and velocities, controller values and pitch bends the proportional one with exact ends and centre, so that a larger number never gives a smaller value and double and float "
     "agree on the same number. as_float() and as_double() stay inside the documented range, keep the order of the values, and converting a velocity, pitch or controller value to double (16-bit values also to float) and back returns it unchanged, "
     "a pitch bend within one step. Multiplying a pitch bend with a sensitivity gives the exact product rounded towards zero and limited to the range, and moving a pitch by a number of semitones moves it by the nearest step, limited to the range.",
     ["inputs"], "all float / double inputs other than NaN, all 16-bit and 32-bit values, all pairs of pitch bend and sensitivity",
     "2^32 to 2^64 values; tests check a few with a tolerance, and rounding errors show at single values only.",
     [INC + "types.h"], [("float and double constructors, as_float / as_double", INC + "types.h"), ("impl::from_float_0_1, impl::to_float_0_1", INC + "types.h"), ("operator* of pitch_bend, operator+ / += of pitch_7_25", INC + "types.h")])

prop("P30", "Property exchange headers are the JSON their arguments describe",
     "The header text built from a key, a value and a list of options is one JSON object that contains exactly these members in the given order, with every name and string value in quotes and unchanged. Integer values appear in decimal, and an option "
     "value is written without quotes exactly when it is an optional minus sign followed by one or more digits.",
     ["inputs"], "all contents of keys, values and options; all integers",
     "Tests compare seven fixed headers; the decision between number and string depends on every character of an option.",
     [INC + "capability_inquiry.h", "src/" + "capability_inquiry.cpp"],
     [("property_exchange::make_rjson", "src/" + "capability_inquiry.cpp"), ("is_number", "src/" + "capability_inquiry.cpp"), ("make_rjson inline overloads", INC + "capability_inquiry.h")])

# ---- properties this family cannot decide here (see NOT_APPLICABLE) -------------------------------------------------------
prop("N03", "Jitter reduction actually reduces jitter",
     "With a sender that stamps its messages and sends regular clocks, the scheduled times of received messages deviate from the sent ones by less than the arrival times do, for realistic delay distributions and clock drift.",
     ["schedules", "histories"], "all delay sequences of a given distribution, unbounded running time",
     "A statistical statement about timing over long runs.",
     [INC + "jitter_reduction_timestamps.h", "src/jitter_reduction_timestamps.cpp"], [("jr_clock_follower", "src/jitter_reduction_timestamps.cpp")])
prop("N04", "Concurrent use of one object by several threads is free of races",
     "Feeding one parser or collector from several threads gives the result of some serial order.",
     ["schedules"], "all interleavings",
     "Interleavings are not controlled by the tests.",
     [INC + "midi1_byte_stream.h", INC + "sysex_collector.h"], [("parser and collector state", INC)])

# ---------------------------------------------------------------------------------------------------------------------
NOT_APPLICABLE = {
    "N03": "a statistical quality over real-time behaviour and unbounded histories, not a fact about the program text; order, monotonicity and the scheduling formula are decided by P18.",
    "N04": "the library does not promise it (objects are unsynchronised by design); that separate objects share no state is decided by P21.",
}

TECH = "abstract interpretation of the compiler's IR in a canonical decision-diagram value domain (gated joins) against per-field obligations"
NOTE = {
    "proof": "Decided for every value of the inputs named in the obligations on the IR of the current tree; trusts clang's IR generation, the analyser in engine/ and the "
             "obligations in harness/. An obligation the analyser cannot decide is reported as INCONCLUSIVE in the evidence, never as a pass or a violation.",
    "other": "Decided for every content of the inputs, within the stated bounds on lengths (sizes / sequence lengths listed in the evidence); trusts clang's IR generation, the "
             "analyser in engine/ and the obligations in harness/. Undecided obligations are reported as INCONCLUSIVE.",
}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"] in NOT_APPLICABLE:
            continue
        c = config.PROPERTIES[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/check.py " + p["id"],
                       "technique": c.get("technique", TECH), "level": c["level"],
                       "level_note": c.get("level_note", NOTE[c["level"]] + (" Assumes: " + "; ".join(c["assumptions"]) if c.get("assumptions") else ""))})
    m = {"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
         "notes": "No hooks in /repo. VP_REPO overrides the analysed tree for experiments only."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

    design()


def design():
    """Fills the generated sections of DESIGN.md."""
    import re
    path = os.path.join(V, "DESIGN.md")
    s = open(path).read()
    find = open(os.path.join(V, "known_findings.txt")).read().split("\n")
    fixes = "\n".join("* %s (commit %s): %s" % re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in find if l.startswith("fixed:"))
    known = "\n".join("* " + re.sub(r'match="[^"]*" ', "", l[len("known: property="):]) for l in find if l.startswith("known:"))
    title = {p["id"]: p["title"] for p in P}
    na = "\n".join("* **%s %s**: %s" % (k, title[k], v) for k, v in NOT_APPLICABLE.items())
    rows = ["| planted bug | property | what it breaks | needs | caught by |", "|----|----|----|----|----|"]
    sd = os.path.join(V, "seeded")
    caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), ", ".join(caught.get(d, [])) or m["property"]))
    for k, v in (("NA", na), ("FIXES", fixes), ("KNOWN", known), ("SEEDS", "\n".join(rows))):
        s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda x: x.group(1) + v + "\n" + x.group(2), s, flags=re.S)
    open(path, "w").write(s)


main()
