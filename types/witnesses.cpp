// Type level contracts: every line R("rule", condition) is decided by the compiler's type checker and constant evaluator.
// Never linked, never run. checks/rules_types.py maps every diagnostic to the rule of its line.
#include <midi/capability_inquiry.h>
#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/midi1_byte_stream.h>
#include <midi/stream_message.h>
#include <midi/sysex_collector.h>
#include <midi/system_message.h>
#include <midi/types.h>
#include <midi/universal_sysex.h>
#include <midi/utility_message.h>
#include <type_traits>
using namespace midi;
#define R(rule, ...) static_assert(__VA_ARGS__, "@" rule)

// detection
template<typename T, typename = void> struct has_group : std::false_type {};
template<typename T> struct has_group<T, std::void_t<decltype(std::declval<const T&>().group())>> : std::true_type {};
template<typename T, typename = void> struct has_set_group : std::false_type {};
template<typename T> struct has_set_group<T, std::void_t<decltype(std::declval<T&>().set_group(group_t{}))>> : std::true_type {};
template<typename A, typename B, typename = void> struct can_add : std::false_type {};
template<typename A, typename B> struct can_add<A, B, std::void_t<decltype(std::declval<const A&>() + std::declval<const B&>())>> : std::true_type {};
template<typename A, typename B, typename = void> struct can_mul : std::false_type {};
template<typename A, typename B> struct can_mul<A, B, std::void_t<decltype(std::declval<const A&>() * std::declval<const B&>())>> : std::true_type {};
template<typename A, typename B, typename = void> struct can_compare : std::false_type {};
template<typename A, typename B> struct can_compare<A, B, std::void_t<decltype(std::declval<const A&>() == std::declval<const B&>())>> : std::true_type {};
template<typename T, typename... From> constexpr bool only_explicit = (!std::is_convertible_v<From, T> && ...);
template<typename T> constexpr bool no_implicit_numbers = only_explicit<T, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t, float, double, bool>;
template<typename T, typename... From> constexpr bool makes = (std::is_constructible_v<T, From> && ...);

// ---- numbers do not turn into values silently
R("velocity is not converted from a number implicitly", no_implicit_numbers<velocity>);
R("pitch_bend is not converted from a number implicitly", no_implicit_numbers<pitch_bend>);
R("pitch_increment is not converted from a number implicitly", no_implicit_numbers<pitch_increment>);
R("pitch_7_9 is not converted from a number implicitly", no_implicit_numbers<pitch_7_9>);
R("pitch_7_25 is not converted from a number implicitly", no_implicit_numbers<pitch_7_25>);
R("pitch_bend_sensitivity is not converted from a number implicitly", no_implicit_numbers<pitch_bend_sensitivity>);
R("controller_increment is not converted from a number implicitly", no_implicit_numbers<controller_increment>);
R("controller_value is not converted from a number implicitly", no_implicit_numbers<controller_value>);
R("jr_timestamp_t is not converted from a number implicitly", no_implicit_numbers<jr_timestamp_t>);
R("a packet is not converted from a number implicitly", no_implicit_numbers<universal_packet>);
R("values do not turn into numbers implicitly", only_explicit<uint32_t, velocity, pitch_bend, pitch_increment, pitch_7_9, pitch_7_25, controller_increment, controller_value, jr_timestamp_t>);
R("values do not turn into floating point numbers implicitly", only_explicit<double, velocity, pitch_bend, pitch_increment, pitch_7_9, pitch_7_25, controller_increment, controller_value>);
R("velocity is constructed from 7 and 16 bit integers and floats", makes<velocity, uint7_t, uint16_t, float, double>);
R("pitch_bend is constructed from 14 and 32 bit integers and floats", makes<pitch_bend, uint14_t, uint32_t, float, double>);
R("controller_value is constructed from 7, 14 and 32 bit integers, pitches and floats", makes<controller_value, uint7_t, uint14_t, uint32_t, pitch_7_25, float, double>);
R("pitch_7_9 is constructed from note numbers, 16 bit integers and floats", makes<pitch_7_9, note_nr_t, uint16_t, float, double>);
R("pitch_7_25 is constructed from note numbers, pitches, controller values, 32 bit integers and floats", makes<pitch_7_25, note_nr_t, pitch_7_9, controller_value, uint32_t, float, double>);
R("an int without a width does not choose a scaling: velocity", !std::is_constructible_v<velocity, int>);
R("an int without a width does not choose a scaling: pitch_bend", !std::is_constructible_v<pitch_bend, int>);
R("an int without a width does not choose a scaling: controller_value", !std::is_constructible_v<controller_value, int>);
R("an int without a width does not choose a scaling: pitch_7_9", !std::is_constructible_v<pitch_7_9, int>);
R("an int without a width does not choose a scaling: pitch_7_25", !std::is_constructible_v<pitch_7_25, int>);

// ---- kinds of values are not mixed
R("a velocity is no controller value", only_explicit<controller_value, velocity, pitch_bend, pitch_7_9, pitch_7_25, pitch_increment, controller_increment>);
R("nothing else is a velocity", only_explicit<velocity, controller_value, pitch_bend, pitch_7_9, pitch_7_25, pitch_increment, controller_increment>);
R("nothing else is a pitch bend", only_explicit<pitch_bend, controller_value, velocity, pitch_7_9, pitch_7_25, pitch_increment, controller_increment>);
R("nothing else is a pitch", only_explicit<pitch_7_25, controller_value, velocity, pitch_bend, pitch_7_9, pitch_increment, controller_increment>);
R("nothing else is a 7.9 pitch", only_explicit<pitch_7_9, controller_value, velocity, pitch_bend, pitch_7_25, pitch_increment, controller_increment>);
R("increments of pitches and controllers are not mixed", only_explicit<pitch_increment, controller_increment, controller_value, pitch_7_25, pitch_bend, velocity>);
R("increments of controllers and pitches are not mixed", only_explicit<controller_increment, pitch_increment, controller_value, pitch_7_25, pitch_bend, velocity>);
R("a pitch takes pitch increments only", can_add<pitch_7_25, pitch_increment>::value && !can_add<pitch_7_25, controller_increment>::value && !can_add<pitch_7_25, controller_value>::value && !can_add<pitch_7_25, pitch_bend>::value && !can_add<pitch_7_25, pitch_7_25>::value);
R("a controller value takes controller increments only", can_add<controller_value, controller_increment>::value && !can_add<controller_value, pitch_increment>::value && !can_add<controller_value, controller_value>::value && !can_add<controller_value, uint32_t>::value);
R("velocities and pitch bends are not added", !can_add<velocity, velocity>::value && !can_add<pitch_bend, pitch_bend>::value && !can_add<velocity, controller_increment>::value);
R("a pitch bend is scaled by a sensitivity only", can_mul<pitch_bend, pitch_bend_sensitivity>::value && can_mul<pitch_bend_sensitivity, pitch_bend>::value && !can_mul<pitch_bend, pitch_7_25>::value && !can_mul<pitch_bend, float>::value && !can_mul<controller_value, pitch_bend_sensitivity>::value);
R("a scaled pitch bend is a pitch increment", std::is_same_v<decltype(pitch_bend{} * pitch_bend_sensitivity{}), pitch_increment> && std::is_same_v<decltype(pitch_bend_sensitivity{} * pitch_bend{}), pitch_increment>);
R("different kinds of values are not compared", !can_compare<velocity, controller_value>::value && !can_compare<pitch_bend, controller_value>::value && !can_compare<pitch_7_9, pitch_7_25>::value && !can_compare<velocity, uint16_t>::value);

// ---- storage
template<typename T> constexpr bool plain_value = std::is_trivially_copyable_v<T> && std::is_standard_layout_v<T> && std::is_nothrow_move_constructible_v<T>;
template<typename T> constexpr bool packet_like = std::is_base_of_v<universal_packet, T> && sizeof(T) == 16 && alignof(T) == 4 && plain_value<T> && !std::is_polymorphic_v<T>;
R("a packet is four 32 bit words and nothing else", sizeof(universal_packet) == 16 && alignof(universal_packet) == 4 && plain_value<universal_packet> && std::is_same_v<decltype(universal_packet::data), std::array<uint32_t, 4>> ? true : sizeof(universal_packet::data) == 16 && sizeof(universal_packet) == 16);
R("a packet is a plain value", plain_value<universal_packet> && !std::is_polymorphic_v<universal_packet>);
R("typed messages add nothing to a packet: utility", packet_like<utility_message>);
R("typed messages add nothing to a packet: system", packet_like<system_message>);
R("typed messages add nothing to a packet: MIDI 1 channel voice", packet_like<midi1_channel_voice_message>);
R("typed messages add nothing to a packet: MIDI 2 channel voice", packet_like<midi2_channel_voice_message>);
R("typed messages add nothing to a packet: data", packet_like<data_message> && packet_like<sysex7_packet>);
R("typed messages add nothing to a packet: extended data", packet_like<extended_data_message> && packet_like<sysex8_packet>);
R("typed messages add nothing to a packet: flex data", packet_like<flex_data_message>);
R("typed messages add nothing to a packet: stream", packet_like<stream_message>);
R("typed messages add nothing to a packet: JR clock and timestamp", packet_like<jr_clock_message> && packet_like<jr_timestamp_message>);
R("values have the size of their wire field", sizeof(velocity) == 2 && sizeof(pitch_7_9) == 2 && sizeof(pitch_bend) == 4 && sizeof(pitch_7_25) == 4 && sizeof(pitch_bend_sensitivity) == 4 && sizeof(pitch_increment) == 4 && sizeof(controller_value) == 4 && sizeof(controller_increment) == 4 && sizeof(jr_timestamp_t) == 2);
R("values are plain values", plain_value<velocity> && plain_value<pitch_7_9> && plain_value<pitch_bend> && plain_value<pitch_7_25> && plain_value<pitch_increment> && plain_value<controller_value> && plain_value<controller_increment> && plain_value<jr_timestamp_t>);
R("increments are signed, values unsigned", std::is_signed_v<decltype(pitch_increment::value)> && std::is_signed_v<decltype(controller_increment::value)> && std::is_unsigned_v<decltype(controller_value::value)> && std::is_unsigned_v<decltype(pitch_7_25::value)> && std::is_unsigned_v<decltype(velocity::value)> && std::is_unsigned_v<decltype(pitch_bend::value)>);
R("sysex messages can be copied and are moved without exceptions", std::is_copy_constructible_v<sysex7> && std::is_copy_constructible_v<sysex8> && std::is_nothrow_move_constructible_v<sysex7> && std::is_nothrow_move_constructible_v<sysex8>);
R("7 bit and 8 bit sysex are different types", !std::is_convertible_v<sysex7, sysex8> && !std::is_convertible_v<sysex8, sysex7> && !std::is_constructible_v<sysex7, sysex8>);
R("a manufacturer id alone is no sysex message", !std::is_convertible_v<manufacturer_t, sysex7> && !std::is_convertible_v<manufacturer_t, sysex8>);

// ---- groupless messages
R("utility messages have no group", !has_group<utility_message>::value && !has_set_group<utility_message>::value);
R("stream messages have no group", !has_group<stream_message>::value && !has_set_group<stream_message>::value);
R("messages with a group have one", has_group<system_message>::value && has_group<midi1_channel_voice_message>::value && has_group<midi2_channel_voice_message>::value && has_group<data_message>::value && has_group<extended_data_message>::value && has_group<flex_data_message>::value);

// ---- packets and views are not confused
template<typename T> constexpr bool not_from_packet = !std::is_convertible_v<universal_packet, T>;
R("a packet does not become a typed message implicitly", not_from_packet<utility_message> && not_from_packet<system_message> && not_from_packet<midi1_channel_voice_message> && not_from_packet<midi2_channel_voice_message> && not_from_packet<data_message> && not_from_packet<extended_data_message> && not_from_packet<flex_data_message> && not_from_packet<stream_message>);
R("MIDI 1 and MIDI 2 channel voice messages are different types", !std::is_convertible_v<midi1_channel_voice_message, midi2_channel_voice_message> && !std::is_convertible_v<midi2_channel_voice_message, midi1_channel_voice_message>);
R("a packet does not become a view implicitly", not_from_packet<utility_message_view> && not_from_packet<system_message_view> && not_from_packet<midi1_channel_voice_message_view> && not_from_packet<midi2_channel_voice_message_view> && not_from_packet<sysex7_packet_view> && not_from_packet<sysex8_packet_view> && not_from_packet<flex_data_message_view>);
R("a packet does not become a stream view implicitly", not_from_packet<endpoint_discovery_view> && not_from_packet<endpoint_info_view> && not_from_packet<device_identity_view> && not_from_packet<endpoint_name_view> && not_from_packet<product_instance_id_view> && not_from_packet<stream_configuration_view> && not_from_packet<function_block_discovery_view> && not_from_packet<function_block_info_view> && not_from_packet<function_block_name_view>);
R("a sysex message does not become a capability inquiry view implicitly", !std::is_convertible_v<sysex7, capability_inquiry_view> && !std::is_convertible_v<sysex7, universal_sysex::message_view> && !std::is_convertible_v<sysex7, ci::discovery_reply_view>);
template<typename V, typename F> constexpr bool gives_optional = std::is_same_v<std::invoke_result_t<F, const universal_packet&>, std::optional<V>>;
R("checked access yields an optional view: system", gives_optional<system_message_view, decltype(&as_system_message_view)>);
R("checked access yields an optional view: channel voice", gives_optional<midi1_channel_voice_message_view, decltype(&as_midi1_channel_voice_message_view)> && gives_optional<midi2_channel_voice_message_view, decltype(&as_midi2_channel_voice_message_view)>);
R("checked access yields an optional view: sysex packets", gives_optional<sysex7_packet_view, decltype(&as_sysex7_packet_view)> && gives_optional<sysex8_packet_view, decltype(&as_sysex8_packet_view)>);
R("checked access yields an optional view: flex and stream", gives_optional<flex_data_message_view, decltype(&as_flex_data_message_view)> && gives_optional<endpoint_info_view, decltype(&as_endpoint_info_view)> && gives_optional<function_block_info_view, decltype(&as_function_block_info_view)> && gives_optional<device_identity_view, decltype(&as_device_identity_view)>);
R("packet types and formats are scoped", !std::is_convertible_v<packet_type, int> && !std::is_convertible_v<packet_format, int> && !std::is_convertible_v<int, packet_type> && !std::is_convertible_v<packet_type, packet_format>);
R("a translation yields an optional message", std::is_same_v<decltype(as_midi1_channel_voice_message(std::declval<const midi2_channel_voice_message_view&>())), std::optional<midi1_channel_voice_message>> && std::is_same_v<decltype(as_midi2_channel_voice_message(std::declval<const midi1_channel_voice_message_view&>())), std::optional<midi2_channel_voice_message>>);

// ---- compile time use: the factories and views are constant expressions
R("packets are usable at compile time", [] { universal_packet p{ 0x20903C40 }; p.set_group(5); p.set_byte(3, 1); p.set_byte_7bit(2, 0xFF); p.set_type(packet_type::system); return p == universal_packet{ 0x15907F01 }; }());
R("utility and system messages are usable at compile time", make_utility_message(0x10, 0x1234).data[0] == 0x00101234 && make_system_message(3, 0xF3, 7).data[0] == 0x13F30700 && make_song_position_message(1, 0x81).data[0] == 0x11F20101);
R("MIDI 1 messages are usable at compile time", make_midi1_note_on_message(1, 2, 60, velocity{ uint7_t{ 100 } }).data[0] == 0x21923C64 && make_midi1_note_off_message(1, 2, 60, velocity{ uint7_t{ 0 } }).data[0] == 0x21823C00 && make_midi1_program_change_message(0, 0, 5).data[0] == 0x20C00500);
R("MIDI 1 controllers are usable at compile time", make_midi1_control_change_message(0, 0, 7, controller_value{ uint7_t{ 127 } }).data[0] == 0x20B0077F && make_midi1_poly_pressure_message(0, 0, 7, controller_value{ uint7_t{ 1 } }).data[0] == 0x20A00701 && make_midi1_channel_pressure_message(0, 0, controller_value{ uint7_t{ 64 } }).data[0] == 0x20D04000 && make_midi1_pitch_bend_message(0, 0, pitch_bend{}).data[0] == 0x20E00040);
R("MIDI 2 messages are usable at compile time", make_midi2_note_on_message(1, 2, 60, velocity{ uint16_t{ 0x1234 } }).data[1] == 0x12340000 && make_midi2_program_change_message(0, 0, 3, 0x81).data[1] == 0x03000101 && make_midi2_pitch_bend_message(0, 0, pitch_bend{}).data[1] == 0x80000000 && make_per_note_pitch_bend_message(0, 1, 2, pitch_bend{}).data[0] == 0x40610200);
R("sysex packets are usable at compile time", [] { auto p = make_sysex7_complete_packet(2); p.add_payload_byte(0x7E); return p.data[0] == 0x32017E00; }() && make_sysex8_start_packet(9, 1).data[0] == 0x51110900);
R("flex and stream messages are usable at compile time", make_set_tempo_message(0, 50000000).data[1] == 50000000 && make_stream_configuration_request(2).data[0] == 0xF0050200 && make_function_block_discovery_message(1, 2).data[0] == 0xF0100102);
R("texts are usable at compile time", make_endpoint_name_message(packet_format::complete, "ab").data[0] == 0xF0036162);
R("classification and views are usable at compile time", [] { const universal_packet p{ 0x21923C64 }; return is_note_on_message(p) && as_midi1_channel_voice_message_view(p)->channel() == 2 && get_note_nr(p) == 60 && !as_system_message_view(p); }());
R("translation is usable at compile time", [] { const universal_packet p{ 0x21923C64 }; const auto t = as_midi2_channel_voice_message(midi1_channel_voice_message_view{ p }); return t && t->data[0] == 0x41923C00; }());
R("byte conversion is usable at compile time", from_midi1_byte_stream(0x92, 60, 100).data[0] == 0x20923C64 && midi1_byte_stream_size(universal_packet{ 0x20C00500 }) == 2);
R("value arithmetic is usable at compile time", (controller_value{ uint32_t{ 0xFFFFFFFF } } + controller_increment{ 1 }).value == 0xFFFFFFFF && (pitch_7_25{ note_nr_t{ 60 } } + pitch_increment{ int32_t{ 1 << 25 } }).note_nr() == 61 && upsample_7_to_16bit(127) == 0xFFFF);
R("defaults: velocity and pitch bend at the centre, other values zero", velocity{}.value == 0x8000 && pitch_bend{}.value == 0x80000000 && controller_value{}.value == 0 && pitch_7_9{}.value == 0 && pitch_7_25{}.value == 0 && pitch_increment{}.value == 0 && controller_increment{}.value == 0);
R("the default pitch bend sensitivity is two semitones", pitch_bend_sensitivity{}.value == (2u << 25));
R("a default packet is empty", universal_packet{} == universal_packet{ 0, 0, 0, 0 } && universal_packet{}.data[1] == 0 && universal_packet{}.data[2] == 0 && universal_packet{}.data[3] == 0);

// ---- nothing else turns into a message, a view or a parser silently
R("a number does not become a typed message implicitly", no_implicit_numbers<utility_message> && no_implicit_numbers<system_message> && no_implicit_numbers<midi1_channel_voice_message> && no_implicit_numbers<midi2_channel_voice_message> && no_implicit_numbers<data_message> && no_implicit_numbers<extended_data_message> && no_implicit_numbers<flex_data_message> && no_implicit_numbers<stream_message> && no_implicit_numbers<sysex7_packet> && no_implicit_numbers<sysex8_packet>);
R("a number or a timestamp does not become a JR message implicitly", no_implicit_numbers<jr_clock_message> && no_implicit_numbers<jr_timestamp_message> && !std::is_convertible_v<jr_timestamp_t, jr_clock_message> && !std::is_convertible_v<jr_timestamp_t, jr_timestamp_message>);
R("a JR message is made from a timestamp when asked to", std::is_constructible_v<jr_clock_message, jr_timestamp_t> && std::is_constructible_v<jr_timestamp_message, jr_timestamp_t>);
R("a number or an identity does not become an identity message implicitly", no_implicit_numbers<universal_sysex::identity_request> && !std::is_convertible_v<device_identity, universal_sysex::identity_reply>);
R("a number does not become a capability inquiry message implicitly", no_implicit_numbers<ci::message>);
R("a universal sysex view does not become a capability inquiry view implicitly", !std::is_convertible_v<universal_sysex::message_view, capability_inquiry_view>);
struct packet_handler { void operator()(universal_packet) const {} };
struct sysex7_handler { void operator()(const sysex7&) const {} };
struct sysex8_handler { void operator()(const sysex8&, uint8_t) const {} };
R("a callback does not become a parser or a collector implicitly", !std::is_convertible_v<packet_handler, midi1_byte_stream_parser> && !std::is_convertible_v<midi1_byte_stream_parser::packet_callback, midi1_byte_stream_parser> && !std::is_convertible_v<sysex7_collector::callback, sysex7_collector> && !std::is_convertible_v<sysex8_collector::callback, sysex8_collector>);
R("a parser and the collectors are made from callbacks when asked to", std::is_constructible_v<midi1_byte_stream_parser, packet_handler> && std::is_constructible_v<sysex7_collector, sysex7_collector::callback> && std::is_constructible_v<sysex8_collector, sysex8_collector::callback>);

// ---- compile time use, function by function
constexpr universal_packet ct_m1{ 0x21923C64 };
constexpr universal_packet ct_m2{ 0x41923C03, 0x12347830 };
#define CT(...) [] { (void)(__VA_ARGS__); return true; }()
R("classification of channel voice messages at compile time", CT(is_channel_voice_message_with_status(ct_m1, 0x90), is_note_on_message(ct_m1), is_note_off_message(ct_m1), is_poly_pressure_message(ct_m1), is_control_change_message(ct_m1), is_program_change_message(ct_m1), is_channel_pressure_message(ct_m1), is_channel_pitch_bend_message(ct_m1)));
R("values of MIDI 1 channel voice messages at compile time", CT(get_note_nr(ct_m1), get_note_pitch(ct_m1), get_note_velocity(ct_m1), get_poly_pressure_value(ct_m1), get_controller_nr(ct_m1), get_controller_value(ct_m1), get_program_value(ct_m1), get_channel_pressure_value(ct_m1), get_channel_pitch_bend_value(ct_m1)));
R("values of MIDI 2 channel voice messages at compile time", CT(get_note_nr(ct_m2), get_note_pitch(ct_m2), get_note_velocity(ct_m2), get_poly_pressure_value(ct_m2), get_controller_nr(ct_m2), get_controller_value(ct_m2), get_program_value(ct_m2), get_channel_pressure_value(ct_m2), get_channel_pitch_bend_value(ct_m2)));
R("MIDI 1 views at compile time", CT(midi1_channel_voice_message_view{ ct_m1 }.channel(), midi1_channel_voice_message_view{ ct_m1 }.data_byte_1(), midi1_channel_voice_message_view{ ct_m1 }.data_byte_2(), midi1_channel_voice_message_view{ ct_m1 }.get_14bit_value(), is_midi1_channel_voice_message(ct_m1)));
R("classification of MIDI 2 messages at compile time", CT(is_midi2_channel_voice_message(ct_m2), is_registered_controller_message(ct_m2), is_assignable_controller_message(ct_m2), is_registered_per_note_controller_message(ct_m2), is_registered_per_note_controller_pitch_message(ct_m2), is_assignable_per_note_controller_message(ct_m2), is_per_note_pitch_bend_message(ct_m2), is_note_on_with_attribute(ct_m2, 3), is_note_off_with_attribute(ct_m2, 3), is_note_on_with_pitch_7_9(ct_m2), is_pitch_bend_sensitivity_message(ct_m2), is_per_note_pitch_bend_sensitivity_message(ct_m2), as_midi2_channel_voice_message_view(ct_m2).has_value()));
R("values of MIDI 2 messages at compile time", CT(get_midi2_note_attribute(ct_m2), get_midi2_note_attribute_data(ct_m2), get_per_note_controller_index(universal_packet{ 0x40003C05, 0 }), get_pitch_bend_sensitivity_value(universal_packet{ 0x40200000, 0 }), get_per_note_pitch_bend_sensitivity_value(universal_packet{ 0x40200007, 0 }), get_per_note_pitch_bend_value(universal_packet{ 0x40603C00, 0 })));
R("MIDI 2 note messages at compile time", CT(make_midi2_channel_voice_message(0, 0x90, 1, 60, 0, 5), make_midi2_note_off_message(0, 1, 60, velocity{}), make_midi2_note_on_message(0, 1, 60, velocity{}), make_midi2_note_on_message(0, 1, 60, velocity{}, pitch_7_9{ note_nr_t{ 60 } }), make_midi2_note_on_message(0, 1, 60, velocity{}, 1, 2), make_midi2_poly_pressure_message(0, 1, 60, controller_value{})));
R("MIDI 2 controller messages at compile time", CT(make_midi2_control_change_message(0, 1, 7, controller_value{}), make_registered_controller_message(0, 1, 0, 0, controller_value{}), make_assignable_controller_message(0, 1, 0, 0, controller_value{}), make_relative_registered_controller_message(0, 1, 0, 0, controller_increment{}), make_relative_assignable_controller_message(0, 1, 0, 0, controller_increment{}), make_registered_per_note_controller_message(0, 1, 60, 1, controller_value{}), make_assignable_per_note_controller_message(0, 1, 60, 1, controller_value{}), make_per_note_management_message(0, 1, 60, note_management_flags{}), make_midi2_program_change_message(0, 1, 5), make_midi2_channel_pressure_message(0, 1, controller_value{}), make_midi2_pitch_bend_message(0, 1, pitch_bend{}), make_per_note_pitch_bend_message(0, 1, 60, pitch_bend{})));
R("translation to MIDI 1 at compile time", [] { const universal_packet p{ 0x41923C00, 0x12340000 }; return as_midi1_channel_voice_message(midi2_channel_voice_message_view{ p }).has_value(); }());
R("7 bit sysex packets at compile time", [] { auto p = make_sysex7_start_packet(1); p.set_payload_byte(0, 5); p.set_payload_size(1); p.add_payload_byte(6); return p.payload_size() == 2 && p.payload_byte(1) == 6 && p.format() == packet_format::start && as_sysex7_packet_view(p)->payload_size() == 2 && is_data_message(p) && is_sysex7_packet(p) && make_sysex7_continue_packet(1).format() == packet_format::cont && make_sysex7_end_packet(1).format() == packet_format::end; }());
R("8 bit sysex packets at compile time", [] { auto p = make_sysex8_complete_packet(3, 1); p.set_payload_byte(0, 5); p.set_payload_size(1); p.add_payload_byte(6); p.set_stream_id(4); return p.payload_size() == 2 && p.payload_byte(1) == 6 && p.stream_id() == 4 && as_sysex8_packet_view(p)->payload_size() == 2 && is_extended_data_message(p) && is_sysex8_packet(p) && make_sysex8_continue_packet(1).format() == packet_format::cont && make_sysex8_end_packet(1).format() == packet_format::end; }());
R("flex data messages at compile time", CT(is_flex_data_message(ct_m1), as_flex_data_message_view(ct_m1).has_value(), make_flex_data_message(0, packet_format::complete, packet_address::group, 0, 0, 0), make_flex_data_text_message(0, packet_format::complete, packet_address::group, 0, 1, 1, "text"), make_set_tempo_message(0, 1), make_set_time_signature_message(0, 4, 2, 8), make_set_metronome_message(0, 24, 4, 0, 0, 0, 0), make_set_key_signature_message(0, packet_address::channel, 1, 2, 3), make_set_chord_message(0, packet_address::channel, 1, 1, 2, 3)));
R("stream messages at compile time", CT(is_stream_message(ct_m1), make_endpoint_discovery_message(1), make_endpoint_info_message(1, true, 1, 1), make_device_identity_message(device_identity{}), make_endpoint_name_message(packet_format::complete, "a"), make_product_instance_id_message(packet_format::complete, "a"), make_stream_configuration_request(1), make_stream_configuration_notification(1), make_function_block_discovery_message(1, 2), make_function_block_info_message(1, uint2_t(1), 0), make_function_block_info_message(1, function_block_options{}, 0), make_function_block_name_message(packet_format::complete, 1, "a")));
constexpr universal_packet ct_s[] = { universal_packet{ 0xF0000101, 1 }, universal_packet{ 0xF0010101, 1 }, universal_packet{ 0xF0020000, 1 }, universal_packet{ 0xF0036100 }, universal_packet{ 0xF0046100 }, universal_packet{ 0xF0050100 }, universal_packet{ 0xF0100103 }, universal_packet{ 0xF0110103 }, universal_packet{ 0xF0120161 } };
R("views of endpoint messages at compile time", CT(as_endpoint_discovery_view(ct_s[0])->filter(), as_endpoint_info_view(ct_s[1])->num_function_blocks(), as_device_identity_view(ct_s[2])->identity(), as_endpoint_name_view(ct_s[3])->format(), as_product_instance_id_view(ct_s[4])->format(), as_stream_configuration_view(ct_s[5])->extensions()));
R("views of function block messages at compile time", CT(as_function_block_discovery_view(ct_s[6])->filter(), as_function_block_info_view(ct_s[7])->direction(), as_function_block_name_view(ct_s[8])->format()));
R("system and utility views at compile time", [] { const universal_packet s{ 0x11F20102 }, u{ 0x00201234 }; return is_system_message(s) && as_system_message_view(s)->get_song_position() == 0x101 && as_system_message_view(s)->data_byte_1() == 1 && utility_message_view{ u }.payload() == 0x1234; }());
R("profile destinations at compile time", CT(ci::channel_profile(3, 2)));
R("packet queries at compile time", CT(ct_m1.size(), ct_m1.type(), ct_m1.group(), ct_m1.status(), ct_m1.byte3(), ct_m1.byte4(), ct_m1.get_byte(9), ct_m1.get_byte_7bit(3), ct_m1.has_channel(), ct_m1.channel(), ct_m1.is_utility_message(), ct_m1.is_system_message(), ct_m1.is_channel_voice_message(), ct_m1.is_data_message(), ct_m1.is_midi1_protocol_message(), ct_m1 != ct_m2));
R("older names of the MIDI 2 queries at compile time", CT(is_midi2_registered_controller_message(ct_m2), is_midi2_assignable_controller_message(ct_m2), is_midi2_registered_per_note_controller_message(ct_m2), is_midi2_assignable_per_note_controller_message(ct_m2), is_midi2_per_note_pitch_bend_message(ct_m2), get_midi2_per_note_controller_index(universal_packet{ 0x40003C05, 0 })));
R("changing the format of a stream message at compile time", [] { auto m = make_endpoint_name_message(packet_format::complete, "a"); m.set_format(packet_format::end); return m.format() == packet_format::end; }());
R("general scaling at compile time", upsample_x_to_ybit(0x7F, 7, 32) == 0xFFFFFFFF);
