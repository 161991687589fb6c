#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  **({"state": state} if state else {}),
                  "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Decoding is total: any input gives a usable value or an error, never a panic",
 "Whatever the bytes, their number, the declared ADS-B version or the integrity supplements, every public decoding entry point returns either a complete value with no error, or an error and no value, and never panics or reads outside its input. Input of a wrong length is always rejected, and asking any decoded value for any report, label or coherency verdict never panics either.",
 "all byte strings of length 0..64 and nil, all version/supplement parameters, for the Mode S, ADS-B, Comm-B, ACAS RA and every single-register reader; every method of every decoded value",
 "The unit tests feed each reader one or two hand-picked 7- or 14-byte messages plus one wrong identifier; no test feeds arbitrary bytes, arbitrary lengths or calls reports of arbitrary values.",
 ["pkg/modes/reader/reader.go","pkg/adsb/reader/reader.go","pkg/commb/reader.go","pkg/acas/ra/resolution_advisory.go","pkg/bds"],
 [("length checks at the head of each Read function","pkg/modes/reader/reader.go:ReadMessage; pkg/adsb/reader/reader.go:ReadADSBMessage; pkg/bds/*/ Read*"),
  ("default branch of the dispatch switches","pkg/modes/reader/reader.go; pkg/adsb/reader/reader.go"),
  ("default branch of every label switch","pkg/**/fields/*.go ToString")],
 observe=["return values of the exported Read* functions","ToString, GetSubtype, GetBDS, CheckCoherency and every other argument-less method"])

prop("C02", "Decoding is pure: inputs untouched, results independent of history and threads",
 "Decoding, CRC checking, position computation and reporting never modify the bytes (or address lists) they are given, and the same input always gives an equal result, whatever was decoded before and however many decodings run concurrently. A result already returned never changes because of a later decoding of other bytes, of what its owner does with another result or, but for the payload of a frame (a part of the bytes given), of what its bytes are used for afterwards.",
 "all histories of decode/report calls over a pool of messages (any family), including concurrent ones on shared buffers",
 "Tests decode each message once in isolation; none compares input before/after, repeats a decode after other decodes, or runs two at a time.",
 ["pkg/modes","pkg/adsb","pkg/commb","pkg/bds","pkg/acas","pkg/geo","pkg/bitutils"],
 [("no package-level mutable state","whole repository"),("readers only read their argument","pkg/**/Read*")],
 over=("inputs","histories","schedules"),
 observe=["input slices after the call","deep comparison of results and reports before/after other calls","race detector in the thorough tier"])

prop("C03", "Mode S frames are dispatched by format and split correctly",
 "A 7- or 14-byte transponder message whose 5-bit format number is 0, 4, 5, 11, 16 to 21 or 24 to 31 is decoded as exactly that format (24 to 31 all being format 24); formats 0, 4, 5 and 11 are 7 bytes long and the others 14, and any other format or length is rejected. The decoded value reports the format, the 3 bits following it, and the payload and 24-bit parity, which together are exactly the bytes of the message in order; the parser of one format accepts exactly the messages of that format.",
 "all first bytes and both lengths, with arbitrary remaining bytes",
 "Tests pin one real-world message for a few formats; the other formats, the 24..31 fold and the payload/parity split for both lengths are never quantified over.",
 ["pkg/modes/reader/reader.go","pkg/modes/common/message_data.go","pkg/modes/messages"],
 [("format switch","pkg/modes/reader/reader.go:ReadMessage"),("first byte split","pkg/modes/reader/reader.go:readCommonData / pkg/modes/common"),("length check per format","pkg/modes/messages/df*.go")],
 observe=["type and fields of the value returned by the message reader","GetName/GetDownLinkFormat"])

prop("C04", "Every link-layer field carries exactly the bits the standard assigns it",
 "For every supported downlink format, each decoded field (flight status, downlink request, utility message, capability, control and application fields, vertical status, cross-link, sensitivity level, reply information, address, and Comm-B/Comm-D/extended-squitter payload bytes) equals the value of the bits that the Mode S standard assigns to it, for every value of these bits, whatever the other bits are. No bit outside a field's position influences that field.",
 "all values of every field (enumerated) with random remaining bits, for formats 0,4,5,11,16,17,18,19,20,21,24",
 "Tests check one or two values of a field (a few tens of messages for more than 2^50 field combinations); a wrong mask or shift for the other values passes them.",
 ["pkg/modes/messages","pkg/modes/fields"],
 [("masks and shifts in Read* of each field","pkg/modes/fields/*.go"),("field list per format","pkg/modes/messages/df*.go")],
 observe=["exported fields of the decoded message"])

prop("C05", "Altitude codes decode to the altitude the standard defines",
 "Every 13-bit surveillance altitude code and every 12-bit extended-squitter altitude code decodes to the altitude Mode S defines for it: not available when zero, metric (without a value) when the M bit of the 13-bit code is set, 25 ft steps from -1000 ft when the Q bit is set, and otherwise the 100 ft Gillham code, for which codes that correspond to no altitude are rejected. Encoding any altitude from -1200 to 126700 ft in 100 ft steps and decoding it gives the same altitude, and adjacent 100 ft levels always differ in exactly one coded bit.",
 "all 8192 13-bit codes in formats 0,4,16,20 and all 4096 12-bit codes in airborne positions (exhaustive), all 2048 Gillham codes, with arbitrary other bits",
 "Tests pin about ten altitudes; the code space has 8192 + 4096 values, of which many are invalid and must be rejected.",
 ["pkg/modes/fields/altitude_code.go","pkg/bds/bds05/fields/altitude.go","pkg/bitutils/gillham.go"],
 [("Gillham conversion","pkg/bitutils/gillham.go:GillhamToAltitude"),("bit selection","pkg/modes/fields/altitude_code.go; pkg/bds/bds05/fields/altitude.go; pkg/acas/ra/fields/threat_identity_altitude.go")],
 observe=["altitude in feet, source/unit and validity of the decoded value, or the error"])

prop("C06", "Identity (squawk) codes decode by the interleaved bit pattern",
 "Every 13-bit identity field of a surveillance or Comm-B identity reply decodes to the four octal digits A, B, C, D carried by its interleaved bits, digits are always 0 to 7, and the ident/emergency codes are reported exactly when these digits say so. Encoding any of the 4096 squawks and decoding it gives the same squawk, whatever the other bits of the message (including the spare X bit) are.",
 "all 4096 squawks x spare bit (exhaustive), in formats 5 and 21, with arbitrary other bits",
 "Tests check two or three squawks; a permutation error between two interleaved bits that happen to be equal in these passes.",
 ["pkg/modes/fields/identity.go","pkg/modes/messages/df5.go","pkg/modes/messages/df21.go"],
 [("bit de-interleaving","pkg/modes/fields/identity.go:ReadIdentity")],
 observe=["digits and text of the decoded identity"])

prop("C07", "The parity check recovers the address or interrogator and applies allow-lists",
 "For every message whose parity was produced by the Mode S CRC (polynomial 0x1FFF409) the parity check returns the address that was overlaid on it (or announced in it for extended squitters, or the interrogator identifier for all-call replies) without error. If an allow-list is given for that kind of identifier the check succeeds exactly when the recovered identifier is on the list, and an empty list or a list for the other kind of identifier has no influence; the address announced by an extended squitter is never filtered.",
 "all formats, addresses, interrogator identifiers, payloads and allow-lists (empty, containing, not containing)",
 "Tests use a handful of captured messages; they cannot cover the 2^24 addresses, the formats without a captured sample, and the allow-list combinations.",
 ["pkg/modes/reader/crc.go"],
 [("24-bit CRC","pkg/modes/reader/crc.go"),("allow-list decision","pkg/modes/reader/crc.go:CheckCRC")],
 observe=["address and error returned by the check"])

prop("C08", "Corrupted extended squitters and all-call replies are detected",
 "Any corruption of an extended squitter that changes one to five bits, or any number of bits all lying within 24 consecutive positions, without touching the format number, makes its parity check fail. In an all-call reply such a corruption never yields the interrogator identifier that was originally encoded.",
 "all messages of formats 17, 18 and 11 and all 1- and 2-bit error patterns (exhaustive per message), random 3..5-bit patterns and bursts",
 "Tests check at most one corrupted message; the guarantee quantifies over all error patterns of the class.",
 ["pkg/modes/reader/crc.go"],
 [("CRC over the whole frame","pkg/modes/reader/crc.go")],
 over=("inputs","fault_sequences"),
 observe=["error / returned identifier of the parity check"])

prop("C09", "Extended squitters are dispatched by type code and ADS-B version",
 "The kind of ADS-B report produced from a 7-byte extended squitter is determined by its type code, subtype and the declared ADS-B version alone: identification for 1 to 4, surface position for 5 to 8, airborne position for 9 to 18 and 20 to 22, velocity for 19, status for 28, target state for 29, operational status for 31, and no-position or barometric-only position for 0. Reserved type codes and subtypes, and position reports of a declared version other than 0, 1 or 2, are rejected with an error; positions are those of the declared version, other reports do not depend on it. The readers of one kind of report, of one version or of one content decode such a squitter as the general reader does.",
 "all 256 first bytes x versions 0..2 and beyond x supplements (exhaustive), with random remaining bytes",
 "Tests cover a few type codes with a single version; the 32 x 8 x 3 dispatch table is never walked.",
 ["pkg/adsb/reader/reader.go","pkg/bds/bds05","pkg/bds/bds06","pkg/bds/bds61/aircraft_status.go","pkg/bds/bds62","pkg/bds/bds65"],
 [("type code switch","pkg/adsb/reader/reader.go:ReadADSBMessage"),("subtype switches","pkg/bds/bds09, bds61, bds62, bds65 readers"),("version switches","pkg/adsb/airborne_position, pkg/adsb/surface_position")],
 over=("inputs","configurations"),
 observe=["dynamic type, subtype and version of the returned report, or the error"])

prop("C10", "Airborne position reports carry the transmitted position content",
 "From every airborne position squitter the decoded surveillance status, antenna/integrity bit, time synchronisation flag, CPR format, encoded latitude and encoded longitude equal the corresponding bits of the message, and the altitude is the one its 12-bit code means, barometric or GNSS as the type code says. No other bit influences any of these values.",
 "all values of each field (enumerated), all airborne type codes and versions, random other bits",
 "Tests read two or three captured positions; the 17-bit coordinates and the flags are never varied.",
 ["pkg/bds/bds05","pkg/adsb/airborne_position"],
 [("field readers","pkg/bds/bds05/fields/*.go"),("CPR split","pkg/bds/bds05/airborne_position.go")],
 observe=["exported fields of the airborne position"])

prop("C11", "Surface position reports carry the transmitted movement, track and position",
 "From every surface position squitter the decoded ground speed band is the one the movement code table defines, the ground track is the 7-bit value times 360/128 degrees together with its validity bit, and the time flag, CPR format, encoded latitude and longitude equal the corresponding bits. Speed decoding is monotonic over the valid codes and no other bit influences any of these values.",
 "all 128 movement codes, all 128 tracks, all flags (enumerated), random coordinates and other bits, type codes 5..8, all versions",
 "Tests read one or two surface messages; the piecewise movement table has 128 codes with 7 different step sizes.",
 ["pkg/bds/bds06","pkg/adsb/surface_position"],
 [("movement table","pkg/bds/bds06/fields/movement.go"),("track","pkg/bds/bds06/fields/ground_track.go; pkg/bds/bds06/surface_position.go")],
 observe=["exported fields and speed/track getters of the surface position"])

prop("C12", "Position integrity follows the standard's type code / supplement tables",
 "For each ADS-B version, the protection limit, containment radius and navigation integrity category reported with an airborne or surface position are exactly those the standard's tables give for its type code and the NIC supplements A, B and C that apply to it. Supplements which do not apply to that version or kind of position have no influence, and a better category never comes with a larger radius.",
 "all type codes 5..18 and 20..22 x versions 0..2 x supplements (exhaustive), random other bits",
 "Tests check a couple of type codes; the full table (17 type codes x 3 versions x 8 supplement combinations) is not walked.",
 ["pkg/adsb/airborne_position","pkg/adsb/surface_position"],
 [("per-version tables","pkg/adsb/airborne_position/airborne_position_v*.go; pkg/adsb/surface_position/surface_position_v*.go")],
 over=("inputs","configurations"),
 observe=["integrity fields of the decoded position"])

prop("C13", "Airborne velocity values, signs and availability follow the encoded bits",
 "For every airborne velocity squitter (ground speed or air speed, normal or supersonic) the decoded east-west, north-south, air speed, heading, vertical rate and altitude difference are the encoded magnitude minus one in the unit of that field, with the direction of its sign bit, reported unavailable when the code is zero and as the saturation value when it is the maximum. Intent change, IFR capability, accuracy category and rate source equal their bits, and no other bit influences any of these. The ground speed and track computed from two regular components are their norm and their direction from north (0 to 360 degrees), and are refused for unavailable or saturated ones.",
 "all values of each 7- to 10-bit magnitude and each flag (enumerated), for the four subtypes, random other bits",
 "Tests read about four captured velocities; zero, maximum and negative codes for most fields are never sampled.",
 ["pkg/bds/bds09"],
 [("field readers","pkg/bds/bds09/fields/*.go"),("per-subtype structures","pkg/bds/bds09/airborne_velocity_*.go")],
 observe=["exported fields and numeric getters of the velocity report"])

prop("C14", "Identification is exactly the eight transmitted characters and category",
 "The aircraft identification read from an identification squitter or from a Comm-B identification register is the string of its eight 6-bit characters through the standard's character table, in order, and the emitter category is the one given by the type code's set and the 3-bit category. Encoding any string over the valid alphabet and decoding it returns that string, and codes outside the alphabet never decode to a valid letter, digit or space.",
 "all 64 codes at each of 8 positions (enumerated), random strings, all sets and categories (exhaustive), both carriers",
 "Tests decode three or four call signs, most characters at most positions are never seen.",
 ["pkg/bds/bds08","pkg/bds/bds20","pkg/bds/encoding"],
 [("6-bit alphabet","pkg/bds/encoding"),("category sets","pkg/bds/bds08/fields/aircraft_category_set_*.go")],
 observe=["identification string and category of the decoded report"])

prop("C15", "Emergency, aircraft status and target state reports follow their encoded bits",
 "For every emergency/ACAS status and target state squitter (both target state formats), each flag, code and number decoded (emergency state, Mode A code, selected altitude, barometric setting, selected or target heading, accuracy and integrity categories, autopilot modes) equals the value the standard assigns to the bits of that field, reported as unavailable where its status bit or code says so. Numbers are within the range the standard allows and no bit outside the field influences it.",
 "all values of each field (enumerated; <= 11 bits each), both formats, random other bits",
 "Tests read one to three messages per format, so most field values, signs and the unavailable codes are never sampled.",
 ["pkg/bds/bds61","pkg/bds/bds62"],
 [("field readers","pkg/bds/bds61/fields/*.go; pkg/bds/bds62/fields/*.go")],
 observe=["exported fields of the decoded reports"])

prop("C16", "Operational status reports follow version, subtype and encoded bits",
 "The operational status report produced from a squitter is that of the version and subtype the message itself announces (version 0, or airborne or surface for versions 1 and 2), and every capability, operational mode, accuracy, integrity, size and antenna field equals the value the standard assigns to its bits in that layout. Messages whose reserved bits are not those of the announced layout are rejected, and no bit outside a field influences it.",
 "all versions x subtypes (exhaustive), all values of each field (enumerated), random other bits",
 "Tests read one message per layout; most of the fields have the same value in all of them.",
 ["pkg/bds/bds65"],
 [("layout selection","pkg/bds/bds65/aircraft_operational_status.go"),("field readers","pkg/bds/bds65/fields/*.go")],
 observe=["dynamic type, version and exported fields of the decoded report"])

prop("C17", "Comm-B registers decode every field to its standard value and scale",
 "For every Comm-B register the library can decode (data link capability, GICB capability, identification, ACAS advisory, selected vertical intention, meteorological routine and hazard reports, track and turn, heading and speed) each status flag, enumeration and number equals the value the standard assigns to the bits of that field, with its sign and scale, and is reported unavailable or neutral where its status bit is off, and the decoded register names itself as that register. No bit outside the field and its status influences it.",
 "all values of each field (enumerated; <= 12 bits each) with random other bits, for registers 0,7, 1,0, 1,7, 2,0, 3,0, 4,0, 4,4, 4,5, 5,0, 6,0",
 "Tests read one to three messages per register; most signs, scales, high bits and status-off cases are never sampled.",
 ["pkg/bds/bds07","pkg/bds/bds10","pkg/bds/bds17","pkg/bds/bds20","pkg/bds/bds30","pkg/bds/bds40","pkg/bds/bds44","pkg/bds/bds45","pkg/bds/bds50","pkg/bds/bds60"],
 [("field readers","pkg/bds/bds*/fields/*.go"),("register structures","pkg/bds/bds*/*.go")],
 observe=["exported fields of the decoded registers"])

prop("C18", "Comm-B register inference returns exactly the plausible registers",
 "Given the 7 bytes of a Comm-B reply without knowledge of the register requested, the inference returns decoded registers without duplicates, in a fixed order, each equal to what decoding the bytes as that register alone gives and each coherent, and it omits no register that decodes coherently unless a register it tries first (no message, status, identification) claims the message alone. If nothing decodes coherently the result is empty without being an error, and an all-zero message is reported as no message available.",
 "all 7-byte strings; in particular coherent encodings of each register",
 "Tests check six captured replies; the property quantifies over all contents and all ambiguity patterns.",
 ["pkg/commb/reader.go","pkg/bds"],
 [("candidate loop","pkg/commb/reader.go:ReadCommBMessage"),("coherency checks","pkg/bds/bds*/CheckCoherency")],
 observe=["list of registers returned by the inference"])

prop("C19", "Register coherency verdicts are the documented plausibility rules",
 "A decoded Comm-B register is judged coherent exactly when its reserved bits are zero, its identifying byte is right, fields flagged unavailable carry zero, and its values respect the documented physical limits (for example roll within 50 degrees, ground speed up to 600 kt, Mach up to 1, temperature from -80 to 60 degrees). A decoded squitter is judged as its content is: incoherent exactly when it is an identification with an invalid character, category set D or a reserved category of set C, or an emergency report whose emergency state is reserved (or whose \"no information\" form carries one). The verdict depends on the content only, and every content within the limits is accepted.",
 "all register contents; in particular values at and on both sides of each limit, and each single reserved or flagged-off bit",
 "Tests contain one incoherent sample for a few of the rules; boundaries and most of the rules are never exercised.",
 ["pkg/bds","pkg/adsb"],
 [("CheckCoherency of each register","pkg/bds/bds10, bds17, bds20, bds40, bds44, bds45, bds50, bds60 ..."),("CheckCoherency of each squitter report","pkg/adsb/*; pkg/bds/bds08, bds61")],
 observe=["result of the coherency check of the decoded register"])

prop("C20", "ACAS resolution advisories carry the encoded advisory and threat",
 "For every resolution advisory, in whatever message it arrives (air-air reply, status squitter or Comm-B register), the decoded advisory, complement, termination, multiple-threat indicator and threat identity equal the bits the standard assigns to them, with the one-threat or multiple-threat reading selected by the advisory's first bit and the multiple threat indicator. A threat given by address returns that 24-bit address, and one given by position returns its altitude, range and bearing as encoded.",
 "all values of each field (enumerated), all threat types, all three carriers, random other bits",
 "Tests read one or two advisories; most advisory bits and the altitude/range/bearing identity of a threat are never exercised.",
 ["pkg/acas/ra","pkg/bds/bds30","pkg/bds/bds61","pkg/modes/messages/df16.go"],
 [("advisory reader","pkg/acas/ra/resolution_advisory.go"),("field readers","pkg/acas/ra/fields/*.go")],
 observe=["exported fields of the decoded advisory"])

prop("C21", "Airborne global CPR decoding recovers the encoded position",
 "For every position on Earth, encoding it as an even and an odd airborne CPR pair (from the same place or from two places a short flight apart) and decoding the pair returns the position of the most recent of the two within the CPR resolution (about 5.1 m), with latitude within [-90, 90] and longitude within [-180, 180]. A pair whose two latitudes lie in different longitude zones, or that corresponds to no latitude on Earth, is rejected with an error.",
 "all positions (dense near poles, equator, antimeridian and every longitude-zone transition), both orders of reception, movement up to 3 NM, and arbitrary pairs of 17-bit values",
 "Tests decode two captured pairs; there are 2^68 pairs and 59 latitude zones per hemisphere.",
 ["pkg/geo/cpr_airborne_global_position.go","pkg/geo"],
 [("zone index and NL function","pkg/geo/cpr_airborne_global_position.go; pkg/geo/cpr_common.go")],
 observe=["latitude, longitude, error"])

prop("C22", "Local CPR decoding recovers the encoded position near a reference",
 "For every position and every reference less than half a CPR zone away from it (about 180 NM airborne, 45 NM surface), locally decoding either the even or the odd encoding of the position with that reference returns the position (longitudes modulo 360 degrees) within the CPR resolution, in particular across the equator and the antimeridian. For arbitrary encoded values the result lies within half a zone of the reference and re-encodes to the same values.",
 "all positions and in-range references, both formats, airborne and surface",
 "Tests decode one or two messages against one reference each.",
 ["pkg/geo/cpr_airborne_local_position.go","pkg/geo/cpr_surface_local_position.go"],
 [("zone selection around the reference","pkg/geo/cpr_airborne_local_position.go; pkg/geo/cpr_surface_local_position.go")],
 observe=["latitude, longitude"])

prop("C23", "Surface global CPR decoding recovers the position nearest to the reference",
 "For every position on Earth and every reference within 45 NM of it (and less than 45 degrees of longitude away), encoding the position as an even and an odd surface CPR pair and decoding the pair with that reference returns the position of the most recent of the two within the surface CPR resolution (about 1.25 m). This holds in both hemispheres, across the equator and the antimeridian, and a pair lying in different longitude zones is rejected with an error.",
 "all positions, references within 45 NM, both orders of reception, small movements, dense near quadrant boundaries",
 "Tests decode one or two pairs; the quadrant selection (2 latitudes x 4 longitudes) is sampled in one place.",
 ["pkg/geo/cpr_surface_global_position.go"],
 [("candidate selection by distance to the reference","pkg/geo/cpr_surface_global_position.go")],
 observe=["latitude, longitude, error"])

prop("C24", "Ground distance is the great-circle distance and a metric",
 "The distance between two geographic positions is the great-circle distance on a sphere of radius 6371 km: finite, symmetric, zero for equal points, at most half the circumference, satisfying the triangle inequality, and unchanged by adding 360 degrees to a longitude. It agrees with an independent vector computation for all points, near, far, polar and antipodal.",
 "all pairs and triples of positions, dense near coincident, antipodal, polar and antimeridian pairs",
 "Tests check one pair of cities.",
 ["pkg/geo/ground_distance.go"],
 [("haversine formula","pkg/geo (ComputeGroundDistance)")],
 observe=["returned distance in metres"])

prop("C25", "Text reports show every decoded value under the standard's meaning",
 "The text of every enumerated code is the meaning the standard gives to that code, distinct codes of a field never share a text except where both are reserved, and a code without meaning is shown as such. The full report of every decoded message contains the text of each of its decoded fields, so two messages that differ in a field's meaning give different reports.",
 "all codes of all enumerations (exhaustive) and random messages of each kind with each field varied",
 "Tests never look at reports at all, except for a handful of labels.",
 ["pkg/modes/fields","pkg/bds","pkg/adsb","pkg/acas","pkg/modes/messages"],
 [("ToString of every field and message","pkg/**")],
 observe=["ToString of fields and messages"])

prop("C26", "The command-line tool decodes exactly the given messages",
 "For every input file or argument made of hexadecimal messages, the tool prints, for each line in order, the decoding the library gives for that message at the chosen ADS-B reader level, without stopping at malformed lines, unknown formats or parity errors, and terminates. The printed content is the sender, the library's report of the message and of the ACAS, ADS-B or Comm-B content it carries; nothing of a previous message leaks into the next. A level that does not exist or a file that cannot be read ends it with an error and no decoding.",
 "all sequences of lines: valid, malformed, wrong length, unknown format, bad parity, in any order",
 "There is no test of the command at all.",
 ["cmd/main.go"],
 [("argument handling and line loop","cmd/main.go")],
 over=("inputs","histories"),
 observe=["standard output and exit status of the command"])

prop("C27", "A receiver of interleaved traffic recovers what each aircraft transmitted",
 "For every fleet of aircraft and every interleaving of the messages they transmit, the documented chain (read the frame, recover the transmitter from the parity, read the squitter with the version and integrity supplements last announced by this transmitter or infer the Comm-B register, and solve its latest position against its previous ones) attributes each message to its transmitter and yields the altitude, identity, call sign, velocity, status, integrity and position that it transmitted, within the resolution of the encoding. Replies of a transmitter outside the list of allowed addresses and frames hit by a burst of errors are never attributed to an aircraft that did not send them as received, and what one message yields never depends on, or changes with, the other messages.",
 "fleets of 1 to 4 aircraft with similar addresses, sequences of up to 240 frames of every format interleaved in any order, flights anywhere on Earth on the ground or in the air, changes of version, bursts of errors, foreign transmitters and repetitions",
 "Tests exercise each stage alone on one message; the composition of the stages over a history of several aircraft is never run.",
 ["cmd/main.go","README.md","pkg/modes/reader/reader.go","pkg/adsb/reader/reader.go","pkg/commb/reader.go","pkg/geo"],
 [("parity and address recovery","pkg/modes/reader/reader.go:CheckCRC"),("supplements and version given by the last operational status","pkg/adsb/reader/reader.go:ReadADSBMessage"),("pair and reference decoding","pkg/geo/cpr_*.go")],
 over=("inputs","histories"),
 observe=["values returned by each stage of the chain, during and after the history"])

prop("C28", "The memory used by the decoder does not grow with the messages it has read",
 "Whatever the number and the content of the messages already decoded, verified, located and reported (accepted or rejected), the library keeps nothing of them once their results are dropped: what it still holds (live memory, goroutines) stays bounded by a constant, less than 8 MiB, so that a receiver can run for ever. One message of at most 14 bytes, with its report, allocates less than one mebibyte, whatever its bytes.",
 "tens of thousands to millions of distinct messages of each reader, downlink format, register and type code, valid and invalid; every kind of message for the allocations",
 "Tests decode a handful of messages and stop; a memory which grows by a few bytes per message is invisible to them.",
 ["pkg"],
 [("readers of all levels","pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/bds/*"),("positions","pkg/geo"),("reports","ToString methods")],
 over=("histories","inputs"),
 observe=["live heap and number of goroutines after a garbage collection","bytes allocated by the decoding of a message"])

prop("C29", "Decoding has no effect besides its result",
 "Whatever the messages decoded, verified, located and reported (accepted or rejected), the library writes nothing on the standard output, the standard error or a file, and never ends the process. It changes no setting of the process either: environment, working folder, default logger, time zone, flags, signals, scheduler, garbage collector, open files and child processes are as they were.",
 "thousands of distinct messages of each reader, downlink format, register and type code, valid and invalid, each kind in a process of its own",
 "Tests only look at the values returned; a trace left on a rare branch, or a logger silenced for the whole application, is never seen.",
 ["pkg"],
 [("readers of all levels","pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/bds/*"),("positions","pkg/geo"),("reports","ToString methods")],
 over=("histories","inputs"),
 observe=["standard output, standard error, files and settings of a process which decodes"])

prop("C30", "The results do not depend on the machine",
 "The library builds for machines of 32 bits as for machines of 64 bits, and for machines that fuse a product and a sum in one rounding, and gives the same values, texts, errors and positions for the same inputs on all of them. Only the last digits of the numbers with decimals may differ.",
 "the messages of each reader, downlink format, register and type code, any bytes to each reader, the parities, and positions with references anywhere and on the limits of the zones",
 "The tests run on the machine of the developer; the receivers are often small boards of 32 bits or of another processor, where an int overflows, a shift loses bits, a 64-bit counter is not aligned or a remainder becomes negative.",
 ["pkg"],
 [("readers of all levels","pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/bds/*"),("positions","pkg/geo"),("parity","pkg/modes/reader/crc.go")],
 over=("inputs","histories"),
 observe=["the results of the same inputs in programs built for 32 bits, for 64 bits, and with fused products"])

prop("C31", "Decoding a message takes a short time, whatever was decoded before",
 "Every message of at most 14 bytes, valid or not, is decoded, verified, judged, located and reported in less than one millisecond of a current machine, whatever its bytes. This time does not grow with the number of messages already decoded, and no message of a long series waits for anything.",
 "the messages of each reader, downlink format, register and type code, valid and invalid, alone and after tens of thousands of others",
 "Tests time nothing and read a few messages; a receiver has thousands of them per second, and a wait, a search by steps or a table looked through on a rare branch makes it lose the others.",
 ["pkg"],
 [("readers of all levels","pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/bds/*"),("positions","pkg/geo"),("reports","ToString methods")],
 over=("inputs","histories"),
 observe=["the time taken by the calls"])

prop("C32", "The results do not depend on the moment nor on the surroundings",
 "The same input gives the same values, texts, errors and positions at every date and hour and after any time elapsed since the previous messages, whatever the environment variables, the language and time zone, the working folder, the name of the host, the number of processors and the files of the machine where the program was started.",
 "the messages of each reader, downlink format, register and type code, any bytes to each reader, the parities and the positions; dates from 1970 to 2119 and the limits of the calendar; values of the variables",
 "The tests run now, here; a receiver runs for years, in any country, and its recordings are read again years later on another machine: a message must not be read in another way because of the hour, of the time since the last one, of a variable or of a file.",
 ["pkg"],
 [("readers of all levels","pkg/modes/reader, pkg/adsb/reader, pkg/commb, pkg/bds/*"),("positions","pkg/geo"),("reports","ToString methods")],
 over=("inputs","histories"),
 observe=["the results of the same inputs with another answer of the system to each question of the library (time, environment, host, files), and in processes started in other surroundings"])

prop("C33", "The public building blocks do exactly what they document, for every argument",
 "Packing two to four bytes, eight or sixteen bits gives the number whose binary digits are these, most significant first. The twelve Gillham pulses (D1 to D4, A, B and C) give the altitude of the reflected code of slices of 500 ft and hundreds of feet from -1200 ft, adjacent levels differing in one pulse, or an error and no altitude for the three C codes that mean nothing. The text of an address is its 24 bits in six hexadecimal digits; prefixing a text puts the prefix before each of its lines and changes nothing else; and each register is named \"BDS x,y\" with its own description, the one every message of that register refers to.",
 "all the values of two bytes and of sixteen bits, the 4096 codes of pulses, addresses of up to 32 bits, texts of any characters and line breaks, any message of each register",
 "The package of tools of the library is used by its clients as by itself; its tests sample a few values, and some of it (the pulse D1, the bits of a word) is used by no decoder at all.",
 ["pkg/bitutils","pkg/common/printable.go","pkg/modes/common/address.go","pkg/bds/register/register_reference.go"],
 [("bit and byte packing","pkg/bitutils/bitutils.go"),("altitude of the pulses","pkg/bitutils/gillham.go"),("prefix of the lines","pkg/common/printable.go"),("address","pkg/modes/common/address.go"),("names of the registers","pkg/bds/register, GetRegister methods of pkg/bds/*")],
 over=("inputs",),
 observe=["the values returned by these functions and methods"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
