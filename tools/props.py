"""Writes properties.jsonl (kept as a script so that the text is in one place)."""
import json
import os

D, E, S, TL = "iso8583/decoder.py", "iso8583/encoder.py", "iso8583/specs.py", "iso8583/tools.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, at):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": at, "hook_needed": None},
    })


prop("C01", "Encoding then decoding gives the message back",
     "Whatever document encode accepts, decoding the produced bytes under the same specification succeeds and returns exactly the document's fields with their values (binary values upper-cased) together with the bitmaps encode reported and the same per-field length and data bytes. Encoding the decoded document again produces the same bytes.",
     ["inputs", "configurations"],
     "For every document and every specification built from text/binary data, ASCII/EBCDIC/BCD/binary length indicators of width 0-4, byte or nibble counts and optional padding, with or without header, over fields 2-192.",
     "Tests round-trip a few dozen fixed literals; values, lengths, encodings and field combinations in between are never exercised together.",
     [D, E], [("encode writes length indicator, data and bitmaps", E + ": encode, _encode_field, _encode_bitmap"), ("decode reads them", D + ": decode, _decode_field, _decode_bitmap")],
     ["iso8583.encode", "iso8583.decode"])
prop("C02", "Decoding then encoding reproduces the message",
     "Whenever decode accepts a message whose bitmaps are canonical (upper-case hexadecimal, no bitmap that announces nothing), encoding the decoded document reproduces the message byte for byte, the same per-field pieces and the same document, so the wire form of a document is unique. For accepted messages with other bitmaps encoding still succeeds and decoding the result gives the same fields.",
     ["inputs", "configurations"],
     "For every byte string and every specification without two competing pads.",
     "Tests only decode messages that were written by hand in canonical form.",
     [D, E], [("decoded values keep all information of the bytes", D + ": _decode_field, _decode_text_data"), ("encode chooses one representation", E + ": _encode_field, _encode_bitmap")],
     ["iso8583.decode", "iso8583.encode"])
prop("C03", "decode of any bytes returns or raises DecodeError",
     "For any bytes or bytearray, decode either returns two dictionaries or raises DecodeError (a ValueError); no other exception escapes, whatever the content, length, announced fields or unknown codec names in the specification.",
     ["inputs", "configurations"],
     "For every byte string, including truncated, over-long and corrupt ones, and every specification with valid structure, including ones that define only some fields or name unknown codecs.",
     "Messages come from the network; tests try a handful of corruptions, while an IndexError, KeyError, UnicodeError or LookupError can hide behind any other byte.",
     [D], [("every failure is translated", D + ": decode, _decode_bitmap, _decode_field, _decode_text_data")], ["iso8583.decode"])
prop("C04", "encode of any text document returns or raises EncodeError",
     "For any dictionary of strings to strings, encode either returns a bytearray and a dictionary or raises EncodeError (a ValueError); no other exception escapes, whatever the keys, the values or unknown codec names in the specification.",
     ["inputs", "configurations"],
     "For every set of string keys (numeric or not, any Unicode, any length) and string values, and every structurally valid specification.",
     "Tests use well-formed keys and a few bad values; Unicode digits, unusual keys, unencodable characters and codec failures are open-ended.",
     [E], [("every failure is translated", E + ": encode, _encode_field, _encode_bindary_field, _encode_text_field")], ["iso8583.encode"])
prop("C05", "A message is header, type, bitmaps and fields in ascending order",
     "The bytes produced by encode, and the bytes accepted by decode, are exactly the concatenation of the reported length and data pieces in the order header, message type, primary bitmap, secondary/tertiary bitmap, then data fields by ascending number, each exactly once and with nothing before, between or after. Every field of the document gets exactly one piece pair, the decoded and encoded documents list the same fields in that order, and the order of keys in the input document does not matter.",
     ["inputs", "configurations"],
     "For every accepted document and message and every combination of fields 2-192, header presence and encodings.",
     "Tests compare a few full messages; ordering and gaps depend on which fields are present and how long they are.",
     [D, E], [("fields visited in ascending numeric order", E + ": encode; " + D + ": decode"), ("index advanced past each piece", D + ": _decode_field")], ["iso8583.encode", "iso8583.decode"])
prop("C06", "encode announces exactly the fields of the document",
     "In the bitmaps encode writes, bit n is set exactly when data field n (2-192) is in the document; bit 1 exactly when a secondary bitmap follows (some field above 64) and bit 65 exactly when a tertiary one follows (some field above 128). Bitmap entries already in the document (\"p\", \"1\", \"65\") are ignored and replaced: afterwards the document shows \"p\", and \"1\" exactly when a secondary bitmap is used, as upper-case hexadecimal of what was sent, and never \"65\".",
     ["inputs", "configurations", "histories"],
     "For every set of data fields 2-192, any bitmap encodings, and any stale bitmap entries left from earlier encodings.",
     "There are 2^190 field sets; tests try single fields and a few groups.",
     [E], [("bit placement", E + ": _encode_bitmap"), ("secondary and tertiary derivation", E + ": encode")], ["iso8583.encode", "doc_dec after encode"])
prop("C07", "decode delivers exactly the announced fields",
     "A decoded document contains data field n exactly when bit n is set in the bitmaps; a secondary bitmap is read exactly when bit 1 is set and a tertiary exactly when bit 65 is set, and bits 1 and 65 are never delivered as data fields. The document shows the bitmaps as the hexadecimal text of the bytes received.",
     ["inputs", "configurations"],
     "For every bitmap content (binary, ASCII or EBCDIC hexadecimal, upper or lower case, with or without redundant bitmaps) and any following bytes.",
     "Tests set bits one at a time with fixed neighbours; every bit pattern of three 64-bit maps is out of reach.",
     [D], [("bit extraction", D + ": _decode_bitmap"), ("presence of secondary and tertiary bitmaps", D + ": decode")], ["iso8583.decode"])
prop("C08", "Length indicators have the specified format and count the data",
     "A variable field is sent as a length indicator of exactly the configured width - decimal digits in the configured text codec, two decimal digits per byte for BCD, or a big-endian unsigned number for binary - that holds the number of data bytes (or nibbles), left-padded with zeros, followed by exactly that much data; fixed fields have no indicator. decode reads the indicator by the same rule and takes exactly as many bytes as it says.",
     ["inputs", "configurations"],
     "For every data length from 0 to the field maximum (up to 9999), every indicator width 1-4 and every indicator encoding.",
     "Tests check lengths 0, 1 and a few others; a carry, sign, byte-order or width mistake shows only at particular lengths.",
     [D, E], [("indicator written", E + ": _encode_field"), ("indicator read", D + ": _decode_field")], ["iso8583.encode", "iso8583.decode"])
prop("C09", "encode accepts exactly what fits the field",
     "encode accepts a field value exactly when it can be encoded (valid hexadecimal, characters in the codec, padding available for odd nibbles) and its encoded size in the counting unit equals the length of a fixed field, or does not exceed the maximum length of a variable one nor what its length indicator can express; everything else is rejected, never truncated or padded silently.",
     ["inputs", "configurations"],
     "For every value of length 0 to beyond the maximum, every data and length encoding, widths 0-4, maxima below, at and above the capacity of the indicator.",
     "Tests probe max and max+1 for small maxima in some encodings.",
     [E], [("size checks", E + ": _encode_field, _encode_type"), ("data validation", E + ": _encode_bindary_field, _encode_text_field")], ["iso8583.encode"])
prop("C10", "decode accepts exactly well-formed messages",
     "decode accepts a byte string exactly when it is a well-formed message of the specification: complete header, type, bitmaps and announced fields, hexadecimal bitmaps, length indicators that are decimal digits (or BCD digits) not above the maximum length, data decodable by its codec, and no byte left over. Anything else - truncation at any point, trailing data, a non-digit indicator, an oversized field, an announced field that is not specified - is rejected.",
     ["inputs", "configurations"],
     "For every byte string within the explored sizes and every specification, including each truncation point and every corruption of indicator and bitmap bytes.",
     "Tests try selected corruptions; acceptance of one malformed class would go unnoticed.",
     [D], [("length and data validation", D + ": _decode_field, _decode_bitmap, _decode_type"), ("left-over check", D + ": decode")], ["iso8583.decode"])
prop("C11", "Field data passes through unchanged",
     "The encoded data of a field is exactly its value in the field's codec, or the bytes its hexadecimal digits spell for binary fields, and the decoded value is exactly that text, or those digits in upper case: no byte is added, dropped, stripped, reordered or converted.",
     ["inputs", "configurations"],
     "For every value and every byte string of every length within limits, in ASCII, Latin-1, EBCDIC, UTF-8 and binary, at every position of a message.",
     "Tests use digits and a few literals; leading/trailing blanks, control characters, high bytes and particular lengths are not covered.",
     [D, E], [("data conversion", E + ": _encode_bindary_field, _encode_text_field; " + D + ": _decode_field, _decode_text_data")], ["iso8583.encode", "iso8583.decode"])
prop("C12", "Nibble-counted fields count and pad as specified",
     "For a field counted in nibbles, length indicator and limits count nibbles of the unpadded value; an odd binary value gets the configured left pad (taking precedence) or right pad, exactly one nibble, and an odd value without pad is rejected. decode removes exactly one nibble, the configured pad in either letter case at its side, only when the count is odd, rejects an odd count whose pad is missing or wrong, and never touches even values; odd nibble counts of text data are rejected.",
     ["inputs", "configurations"],
     "For every value of every length, every pad configuration (none, empty, left, right, either letter case) and every indicator format, fixed and variable.",
     "Tests use a few odd and even literals per pad.",
     [D, E], [("pad added", E + ": _encode_bindary_field, _add_pad_field"), ("pad removed", D + ": _decode_field, _remove_pad_field"), ("nibble count", E + ": _encode_field; " + D + ": _decode_field")], ["iso8583.encode", "iso8583.decode"])
prop("C13", "DecodeError pinpoints the failure",
     "A DecodeError names the field that failed and the offset of its failing item: the start of the length indicator, or of the data after it, or, for trailing data, the last field and the first byte left over. It carries the original message bytes, the fields parsed before the failure with their values and pieces and none after it, and its text is the message followed by field and position; messages about sizes name the actual and the expected or maximum size.",
     ["inputs", "configurations"],
     "For every rejected byte string: every failing field, failure kind and offset.",
     "Tests check one position per failure kind; offsets shift with headers, bitmaps, codecs and preceding fields.",
     [D], [("errors raised with idx and field", D + ": decode, _decode_*")], ["iso8583.DecodeError attributes and str()"])
prop("C14", "EncodeError names the failing field",
     "An EncodeError names the first field in wire order that cannot be encoded (\"h\", \"t\", \"p\" for the field numbers themselves, or the data field), carries the document and the pieces of the fields encoded before it and none after it, and its text is the message followed by the field; messages about sizes name the actual and the expected or maximum size in the counting unit.",
     ["inputs", "configurations"],
     "For every rejected document: every field at fault, alone or among good ones, and every kind of failure.",
     "Tests check single-field documents.",
     [E], [("errors raised with the field key", E + ": encode, _encode_*")], ["iso8583.EncodeError attributes and str()"])
prop("C15", "Errors survive pickling and copying",
     "Pickling and unpickling, copying or deep-copying a DecodeError or EncodeError, once or repeatedly, gives an error of the same class with equal message, data, documents, position, field, arguments and text; unpickled and deep copies share no documents with the original.",
     ["inputs", "histories"],
     "For every error raised by any message or document and every error constructed by hand, also of a subclass a user defines.",
     "Tests pickle one or two errors.",
     [D, E], [("__reduce__", D + ": DecodeError; " + E + ": EncodeError")], ["pickle, copy.copy, copy.deepcopy of the errors"])
prop("C16", "Inputs are left alone and results are independent objects",
     "decode changes neither the message nor the specification, encode changes nothing in the document but the entries \"p\", \"1\" and \"65\" and nothing in the specification, and pp changes nothing, whether the call succeeds or fails; read-only specifications work. Results are fresh: modifying a returned document, piece or message, the input buffer or the specification afterwards changes no other result, and never what later calls return.",
     ["inputs", "histories", "configurations"],
     "For every message, document and specification, accepted or rejected, followed by any modification of what was returned or passed.",
     "Tests compare returned values immediately; sharing shows only when something is modified later.",
     [D, E, TL], [("fresh dictionaries and bytes per call", D + ": decode; " + E + ": encode")], ["arguments and results of decode, encode, pp"])
prop("C17", "Calls do not influence each other",
     "The outcome of decode, encode and pp depends only on their arguments: whatever calls - successful or failing, with the same or other specifications, or with a specification edited in between - were made before, or run from start to end (by another thread, say) between two statements of the call, the result or error is the same as in a fresh process. Encoding a document again, as it was left by the previous encoding or with fields added or removed, gives what encoding a fresh document with those fields gives.",
     ["histories", "inputs", "configurations"],
     "For every sequence of calls within the explored length, every point at which one call can be interrupted by another, and every content of the messages and documents in it.",
     "Tests make one call each; caches, scratch space or state kept between calls show only in particular sequences or interruptions.",
     [D, E], [("no module state; bitmaps of a previous encoding dropped", E + ": encode")], ["sequences of iso8583.decode / iso8583.encode"])
prop("C18", "Accepted argument types and result types",
     "decode gives the same result or error for bytes and bytearray with equal content and raises TypeError for anything else; encode accepts dict and its subclasses alike and raises TypeError for anything else. decode returns two dicts, of str to str and of str to pieces with immutable bytes \"len\" and \"data\"; encode returns a bytearray and such a piece dict, and leaves the document str to str.",
     ["inputs", "configurations"],
     "For every message, valid or not, in both types, and every document; arbitrary foreign values.",
     "Tests pass bytearray in a few calls and look at types in fewer.",
     [D, E], [("isinstance checks and bytes() conversions", D + ": decode, _decode_*; " + E + ": encode")], ["iso8583.decode", "iso8583.encode"])
prop("C19", "pp prints every field, complete and in order",
     "pp prints each field of a decoded or encoded document exactly once - header if the specification has one, message type, primary bitmap, then the others by ascending number - under its name and description, with a quoted representation that contains all of its data, split over lines without loss when it is too long, and the length indicator before it for encoded pieces. It only uses the write method of the stream, or standard output as it is at the time of the call.",
     ["inputs", "configurations"],
     "For every value, including escapes and non-ASCII, every order of the document, and every description and line width, including 0 and negative ones.",
     "Tests compare fixed outputs for chosen widths.",
     [TL], [("field order", TL + ": pp"), ("wrapping", TL + ": _wrap_str_repr, _wrap_bytes_repr")], ["text written by iso8583.pp"])
prop("C20", "pp respects its widths and alignment",
     "Descriptions are cut and padded to the description width (left out when it is not positive), data starts in the same column for all fields, and continuation lines are indented to the start of the data. Data that fits its line is printed on one line; otherwise each line holds as much as fits the line width, but at least one character or byte; text is counted by its characters (as if none needed an escape), bytes by their printed form.",
     ["inputs", "configurations"],
     "For every value, length indicator, description, description width and line width.",
     "Tests check particular widths; off-by-one errors depend on the combination of lengths, quotes and escapes.",
     [TL], [("indent computation", TL + ": _pp_field"), ("wrapping", TL + ": _wrap_str_repr, _wrap_bytes_repr")], ["text written by iso8583.pp"])
prop("C21", "The sample specifications are what they document",
     "Both bundled specifications define fields 2-128 with the documented data type, length type and maximum length (the ASCII flavour doubles binary fields); each field accepts exactly the documented lengths, is written in the documented wire format, and round-trips any content, alone and together with others.",
     ["inputs", "configurations"],
     "For every field of both specifications and every value of every length up to beyond its maximum.",
     "Tests use the specifications with a few fields.",
     [S, D, E], [("specification tables", S + ": default, default_ascii")], ["iso8583.specs.default, default_ascii through encode, decode, pp"])
prop("C22", "Header and message type come first and obey the specification",
     "A header is sent and expected exactly when the specification gives it a positive maximum length; then it is required, obeys its length type and limits and starts the message, otherwise a header in the document is ignored and left in place. The message type follows: always required, exactly four characters of its codec or two binary bytes, and delivered as sent.",
     ["inputs", "configurations"],
     "For every header and type content of every length, every header format and type codec, and any message bytes.",
     "Tests use a few header formats with fixed content.",
     [D, E], [("header", E + ": _encode_header; " + D + ": _decode_header"), ("message type", E + ": _encode_type; " + D + ": _decode_type")], ["iso8583.encode", "iso8583.decode"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
