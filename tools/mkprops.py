#!/usr/bin/env python3
"""Writes properties.jsonl (edited here, one entry per property)."""
import json, os
L = "DotNetLibrary/src/"
H = "DotNetLibrary/include/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})


prop("C01", "Integer text parsing is exact or rejected",
     "For every text and each of the eight integer types, parsing accepts exactly optional white space, one optional sign, decimal digits and optional trailing white space, and yields exactly the written number. "
     "A text of any other shape is reported as a format error, a number outside the type's range as an overflow, and a null text as a null argument; nothing is wrapped, truncated or invented. "
     "The trying form returns true exactly when the throwing form returns a value, with the same value.",
     ["inputs"], "all texts (any characters and length), all eight integer types, both parse forms",
     "The tests parse a handful of literals per type; they never try junk after white space, one-past-the-limit negatives, digit strings longer than 64 bits or negatives for unsigned types.",
     [L + "UInt64Value.cpp", L + "Int64Value.cpp", L + "Int32Value.cpp", L + "UInt32Value.cpp", L + "Int16Value.cpp", L + "UInt16Value.cpp", L + "ByteValue.cpp", L + "SByteValue.cpp"],
     [("shared digit scanner with sign and range check per type", L + "UInt64Value.cpp")], ["<Type>Value::Parse", "<Type>Value::TryParse"])
prop("C02", "Integer, Boolean and Char values print canonically and read back",
     "Every integer, Boolean and Char value renders as its canonical .NET text (shortest decimal digits with a leading minus for negatives, True or False, the character itself), the same through every way of turning it into text: boxed conversion, appending or inserting into a builder, concatenation and joining. "
     "Parsing that text gives the value back, and Boolean and Char parsing accept only texts of their own form.",
     ["inputs"], "all values of the ten types, all rendering routes, arbitrary texts given to the Boolean and Char parsers",
     "Tests print one or two small values per type; no test covers limits, every route, or the print/parse inverse.",
     [L + "Int32Value.cpp", L + "UInt64Value.cpp", L + "BooleanValue.cpp", L + "CharValue.cpp", L + "StringBuilder.cpp", L + "StringDotNet.cpp", L + "Object.cpp"],
     [("FormatString per value type used by every text route", L + "Object.cpp")], ["Object::ToString", "StringBuilder::Append/Insert", "String::Concat/Join", "Parse"])
prop("C03", "Value comparison is a total order that agrees with equality",
     "For each comparable value type the comparison result is negative, zero or positive exactly as the first value is below, equal to or above the second, so it is antisymmetric and transitive over the whole range, and the boxed and raw forms agree. "
     "Equality holds exactly when comparison is zero (any two NaNs are equal and sort below every number); any value sorts above null, equality with null or a differently typed box is false, and comparing with a differently typed box is an argument error.",
     ["inputs"], "all pairs and triples of values of each comparable type, including limits, NaN, infinities and signed zeros, null and boxes of every other type",
     "Tests compare close small values; comparisons that subtract are wrong only for far-apart values.",
     [L + "Int32Value.cpp", L + "Int64Value.cpp", L + "UInt32Value.cpp", L + "UInt64Value.cpp", L + "DoubleValue.cpp", L + "SingleValue.cpp", L + "DateTimeValue.cpp", L + "TimeSpanValue.cpp", L + "BooleanValue.cpp", L + "CharValue.cpp"],
     [("CompareTo/Equals overloads per value type", L + "Int64Value.cpp")], ["CompareTo", "Equals", "Object::Equals"])
prop("C04", "Boxed values convert exactly or refuse",
     "A boxed value reports its own type, gives its payload back bit for bit through the accessor of its own type, and through the accessors of the other supported types gives the value C# would give for an unchecked cast (Char having the platform's wide-character width). "
     "An accessor that a type does not support raises an invalid-cast error, for every box, string, array or plain object, and never yields a value.",
     ["inputs"], "every value type and payload, every target type",
     "Tests check one payload per conversion; widening, sign extension and truncation differ only at particular bit patterns.",
     [L + "Object.cpp", L + "ByteValue.cpp", L + "SByteValue.cpp", L + "Int16Value.cpp", L + "CharValue.cpp", L + "DoubleValue.cpp"],
     [("virtual get_As* conversions with a throwing default", L + "Object.cpp")], ["get_As<Type>", "GetRawDataType"])
prop("C05", "String comparison is a consistent order",
     "Ordinal comparison orders any two strings (or substrings) by the first differing code unit and then by length; culture comparison is an order over whole strings in which letters are first ranked without regard to case and, when told to ignore case, strings differing only in case are equal. "
     "Comparison is zero exactly for equal texts (antisymmetric and transitive throughout), null sorts before everything, and the equality, inequality and relational forms all give the same answer as comparing contents and lengths.",
     ["inputs"], "all pairs and triples of strings and nulls, all substring ranges and lengths, all compare overloads",
     "Tests compare a few equal-length literals, so a shared prefix, an empty string, a null or a cyclic ordering is never seen.",
     [L + "StringDotNet.cpp"], [("character-wise comparison loop shared by all overloads", L + "StringDotNet.cpp")], ["String::Compare", "CompareOrdinal", "CompareTo", "Equals", "op_Inequality"])
prop("C06", "String searches find exactly the matches in the requested range",
     "Every forward and backward search for a character, a text or any of a set returns the first (or last) position at which the whole match lies inside the requested range, or -1, exactly as a naive scan does. "
     "Containment and prefix and suffix tests agree with those searches, an empty pattern counts as found, and a range outside the string or a null pattern is rejected without reading outside the string.",
     ["inputs"], "all strings, patterns and (start, count) ranges, valid and invalid",
     "Tests search a few fixed sentences with in-range arguments; matches straddling a range end, patterns longer than the text and empty patterns are not sampled.",
     [L + "StringDotNet.cpp"], [("index and range validation plus scanning loops", L + "StringDotNet.cpp")], ["IndexOf*", "LastIndexOf*", "Contains", "StartsWith", "EndsWith"])
prop("C07", "String-producing operations return exactly the specified text",
     "Each operation that builds a string (construction from characters or arrays, substring, removal, insertion, replacement, padding, trimming, case change, concatenation, joining, copying to and from character arrays, enumeration) returns exactly the text a straightforward reference produces for the same arguments, with correct length and termination. "
     "Null elements count as empty text where .NET says so, and arguments outside the operand are rejected with a library error and no access outside it.",
     ["inputs"], "all operand strings (including empty, long and with embedded NUL characters) and all argument values, valid and invalid",
     "Tests use one or two short literals for each operation and mostly in-range arguments.",
     [L + "StringDotNet.cpp", L + "StringBuilder.cpp", L + "CharEnumerator.cpp"],
     [("allocation and copying in the string constructors and edit operations", L + "StringDotNet.cpp")], ["String members returning String*/Array*"])
prop("C08", "Strings are immutable and own their text",
     "Once created, a string's characters and length never change, whatever sequence of operations is later applied to it, to strings derived from it, to builders and arrays it was built from or copied into, or to objects that are destroyed. "
     "A string built from an array or a builder is an independent copy, and changing or destroying either side never shows through on the other.",
     ["histories"], "all operation sequences over a pool of strings, builders and character arrays, including destruction",
     "Tests never look at an operand again after an operation and never destroy one object while using another derived from it.",
     [L + "StringDotNet.cpp", L + "StringBuilder.cpp", H + "StringDotNet.h"], [("copying constructors and ownership flag", L + "StringDotNet.cpp")], ["String::get_Buffer/get_Length after later operations"])
prop("C09", "A string builder behaves as a sequence of characters under any edits",
     "After any sequence of appends, inserts, removals, replacements, character and length changes and clears, the builder's length, characters and text equal those of a plain character sequence given the same edits. "
     "Extending the length exposes only the specified fill character, never earlier content, and text ranges taken from the builder match the same range of the sequence.",
     ["histories"], "all finite edit histories over builders of any initial capacity, crossing the switch from internal to allocated storage",
     "Tests run short scripted edits; growth boundaries, overlapping moves and stale tails need particular lengths and orders.",
     [L + "StringBuilder.cpp", H + "StringBuilder.h"], [("chunk buffer with growth in EnsureRoomFor/EnsureCapacity and in-place edits", L + "StringBuilder.cpp")], ["StringBuilder::ToString", "get_Length", "get_Chars"])
prop("C10", "Builder capacity rules hold and failed edits change nothing",
     "At every point of every history a builder's length is at most its capacity and its capacity at most its maximum capacity, a requested capacity is available afterwards, and capacity never drops below the content. "
     "An edit whose arguments are out of range, or that would need more than the maximum capacity, is rejected with a library error and leaves content, length and limits exactly as they were.",
     ["histories"], "all histories mixing valid and invalid edits, with any initial capacity and maximum capacity",
     "Tests check single rejected calls on fresh builders; limits near the maximum capacity and state after a failure are not looked at.",
     [L + "StringBuilder.cpp", H + "StringBuilder.h"], [("argument checks before mutation; maxCapacity enforcement when growing", L + "StringBuilder.cpp")], ["get_Capacity", "get_MaxCapacity", "EnsureCapacity", "Equals"])
prop("C11", "Array elements are independent, typed and bounds-checked",
     "For an array of any supported element type and one to three dimensions, reading an element gives the last value stored at exactly those indexes (or the zero value), storing one element changes no other, and length, rank and bounds always describe the created shape. "
     "Every index outside a dimension, wrong number of indexes or rank query outside the array, through any access path, is rejected with a library error and touches nothing; a value of another type is rejected.",
     ["histories", "inputs"], "all shapes and element types, all store and load histories, all index tuples including negative and too large ones",
     "Tests use small fixed shapes and a few in-range indexes; index arithmetic errors show up only for asymmetric shapes and boundary indexes.",
     [L + "Array.cpp", H + "Array.h"], [("row-major index computation with per-dimension checks", L + "Array.cpp")], ["Array::Address", "GetValue", "SetValue", "GetLength", "GetUpperBound"])
prop("C12", "Bulk array operations move exactly the requested elements",
     "Copying, clearing, searching and initialising an array affect or report exactly the requested elements, as if done one at a time from a snapshot of the source, including when source and destination overlap in the same array. "
     "A request with a null array, mismatched element types or rank, or a range not wholly inside both arrays is rejected with a library error and changes nothing.",
     ["inputs", "histories"], "all element types, lengths, offsets (valid, negative, too large, overflowing) and overlapping or distinct arrays",
     "Tests copy a few disjoint ranges; overlap and one-past-the-end requests are the cases that corrupt memory.",
     [L + "Array.cpp"], [("range verification and block moves", L + "Array.cpp")], ["Array::Copy", "ConstrainedCopy", "CopyTo", "Clear", "IndexOf", "Initialize"])
prop("C13", "Byte-level buffer access agrees with element access",
     "The byte view of a primitive array is the exact little-endian image of its elements: reading or writing a byte, or block-copying bytes between arrays of any primitive types with overlap allowed, has the same effect as the same change to that image, and the byte length is the size of the image. "
     "Non-primitive or null arrays and any offset, count or index not wholly inside the image are rejected with a library error and change nothing.",
     ["inputs", "histories"], "all primitive element types and lengths, all byte offsets and counts, valid and invalid, including source and destination in one array",
     "Tests copy between two arrays at a few aligned offsets.",
     [L + "Buffer.cpp"], [("byte range validation and memmove", L + "Buffer.cpp")], ["Buffer::BlockCopy", "GetByte", "SetByte", "ByteLength"])
prop("C14", "Byte conversions round-trip and reject short input",
     "Turning any primitive value into bytes gives its little-endian image of the type's .NET size, and reading that image back at any position of any byte array gives the identical value, bit for bit; the 64-bit float/integer reinterpretations are mutually inverse. "
     "The hexadecimal text lists every requested byte as two upper-case digits separated by dashes, and null arrays or positions without enough bytes are rejected with a library error without reading outside the array.",
     ["inputs"], "all values of every primitive type, all byte arrays, start positions and lengths",
     "Tests convert one constant per type; sign extension and boundary positions need particular values.",
     [L + "BitConverter.cpp"], [("byte-wise copies with start and length checks", L + "BitConverter.cpp")], ["BitConverter::GetBytes", "To<Type>", "ToString"])
prop("C15", "Dates follow the proleptic Gregorian calendar over the whole range",
     "For every instant from year 1 to the end of year 9999, year, month, day, day of week, day of year and the time-of-day parts are those of the proleptic Gregorian calendar, and constructing a date from those parts gives the instant back. "
     "Leap years and month lengths follow the Gregorian rule, and every part combination that is not a real date or time, and every tick value outside the range, is rejected.",
     ["inputs"], "all ticks in range, all part tuples valid and invalid, all years and months",
     "Tests check a few hand-picked dates; century rules and year-end days show only at particular dates.",
     [L + "DateTimeValue.cpp", H + "DateTimeValue.h"], [("400/100/4/1-year cycle decomposition and cumulative month tables", L + "DateTimeValue.cpp")], ["DateTimeValue::get_*", "DateTime(...) constructors", "DaysInMonth", "IsLeapYear"])
prop("C16", "Date arithmetic is exact, ordered and range-checked",
     "Adding a time span or ticks to a date and subtracting dates are exact and mutually inverse; adding fractional days to milliseconds rounds to the nearest millisecond; adding months or years keeps the time of day and clamps the day to the target month's length. "
     "All relational forms agree with chronological order, the original date is never changed, and a result outside the supported range is rejected rather than wrapped.",
     ["inputs"], "all dates combined with all spans, tick counts, finite fractional amounts and month or year counts, including those that leave the range",
     "Tests add small amounts to mid-range dates; clamping, month wrap-around and range ends are not sampled.",
     [L + "DateTimeValue.cpp"], [("tick arithmetic with range checks; month normalisation", L + "DateTimeValue.cpp")], ["Add*", "Subtract", "op_*", "Compare"])
prop("C17", "Time spans are exact 64-bit tick counts with checked arithmetic",
     "A span's day to millisecond components are the signed decomposition of its tick count and recombine to it, its totals are that count divided by the unit, and building from components or from a number of units gives exactly that many ticks (a fraction of a tick is dropped). "
     "Addition, subtraction, negation, duration and ordering agree with integer arithmetic on the ticks over the full 64-bit range, scaling by a number gives the nearest tick, and a result outside the range is an overflow, never wrapped.",
     ["inputs"], "all tick counts, component tuples, factors and unit amounts, including limits, NaN and infinities",
     "Tests use a few small spans; overflow and negative decomposition occur only at large or negative counts.",
     [L + "TimeSpanValue.cpp", H + "TimeSpanValue.h"], [("tick arithmetic with sign-based overflow checks", L + "TimeSpanValue.cpp")], ["TimeSpanValue::*", "TimeSpan constructors"])
prop("C18", "Time span text is canonical and reads back",
     "Every span prints in the constant .NET form (optional minus, days and a dot when at least a day, two-digit hours, minutes and seconds, and seven fraction digits when not whole seconds), and parsing that text gives the same span. "
     "Parsing accepts only [-]days or [-][days.|days:]hours:minutes[:seconds[.1 to 7 digits]] with white space around it, every component and the total in range, and yields exactly what is written; anything else is rejected, identically by the throwing and trying forms.",
     ["inputs"], "all spans, and arbitrary well-formed, mutated and random texts",
     "Tests print and parse a few spans; fraction padding, long day counts, missing components and malformed text are not sampled.",
     [L + "TimeSpanValue.cpp"], [("component formatter and hand-written scanner", L + "TimeSpanValue.cpp")], ["FormatString/ToString", "Parse", "TryParse"])
prop("C19", "Date text shows the calendar date and 12-hour time exactly",
     "Every date prints as month/day/year followed by the twelve-hour clock time with two-digit minutes and seconds and the right half-day marker, so that the noon hour is 12 PM (the hour after midnight is shown, by this library's convention, as 0 AM). "
     "The printed text determines the date to the second: it is the same through every text route and no two dates a second or more apart print alike.",
     ["inputs"], "all dates in range and all text routes",
     "Tests print one or two dates, none at noon or midnight.",
     [L + "DateTimeValue.cpp"], [("FormatString with 12-hour conversion", L + "DateTimeValue.cpp")], ["DateTimeValue::ToString", "StringBuilder::Append"])
prop("C20", "Local and universal time conversions agree with the zone offset",
     "Under any fixed-offset time zone, converting a date to local time adds exactly the zone's offset, including fractional hours and across day, month and year boundaries, and converting to universal time subtracts it, so the two are inverse wherever neither leaves the supported range; a conversion past an end of the range gives that end or a library error as requested. "
     "The current local time, current universal time and today's date differ by that same offset, and no date counts as daylight saving time. In a zone with daylight saving rules, a date from 1971 on counts as daylight saving time exactly when the rule says so for that clock time, and the present converts to local time and back by the offset in force at present.",
     ["configurations", "inputs"], "all fixed offsets in minutes, all daylight saving rules, all dates and present instants",
     "Tests run only in the build machine's zone and compare the library with itself.",
     [L + "DateTimeValue.cpp"], [("zone offset computed from the C library", L + "DateTimeValue.cpp")], ["ToLocalTime", "ToUniversalTime", "get_Now", "get_UtcNow", "get_Today"])
prop("C21", "Integer mathematics is exact or reports the problem",
     "For every integer type, maximum, minimum, clamping, sign, magnitude, full-width multiplication and quotient with remainder give the mathematically exact result over the whole range. "
     "Division by zero, an unrepresentable quotient and inverted clamp bounds are reported as library errors; no operand pair crashes the program or silently wraps.",
     ["inputs"], "all operand tuples of each overload, including the type limits and zero",
     "Tests call each overload once or twice with small operands.",
     [L + "DotNetMath.cpp", H + "DotNetMath.h"], [("per-type overloads", L + "DotNetMath.cpp")], ["Math::Max/Min/Clamp/Sign/Abs/BigMul/DivRem/Divide"])
prop("C22", "Floating rounding and mathematics match IEEE and C# definitions",
     "Rounding, flooring, ceiling and truncation, with any digit count and midpoint mode, give the value selected by the stated rule; remainder, modulus, division, bit stepping, exponent, scaling, sign copying, magnitude selection, maximum, minimum and clamping follow IEEE 754 and the C# documentation including NaN, infinities and signed zeros. "
     "Elementary functions agree with the platform's mathematical functions, and invalid digit counts, modes and clamp bounds are rejected.",
     ["inputs"], "all doubles and singles including special values, digit counts and modes",
     "Tests check one ordinary value per function; special values, ties and boundary digits are where implementations go wrong.",
     [L + "DotNetMath.cpp", L + "DoubleValue.cpp", L + "SingleValue.cpp"], [("bit-level double helpers and rounding switch", L + "DotNetMath.cpp")], ["Math::*", "DoubleValue::Modulus", "SingleValue::Modulus"])
prop("C23", "Floating-point classification agrees with the bit pattern",
     "For every 32-bit and 64-bit pattern, the NaN, infinity, finite, normal, subnormal and negative tests are exactly those of the pattern (a NaN counts as negative), exactly one of NaN, infinity, normal, subnormal or zero holds, and the published constants have their IEEE values. "
     "Reinterpreting a single as 32 bits and back is the identity.",
     ["inputs"], "all 2^32 single and all 2^64 double bit patterns",
     "Tests try each predicate on two or three values.",
     [L + "DoubleValue.cpp", L + "SingleValue.cpp"], [("mask tests on the raw bits", L + "SingleValue.cpp")], ["Is* predicates", "ToSingle/ToUInt32", "constants"])
prop("C24", "Floating text parsing is exact or rejected",
     "A text that is, apart from surrounding white space, a decimal floating-point number parses to the nearest representable value; any other text, the words for infinity and NaN aside, is a format error, null is a null argument, and the trying form returns true exactly when the throwing form returns a value, with the same value and never an undefined one. "
     "The printed form of any finite value is the shortest general form at the documented precision and parses to within that precision.",
     ["inputs"], "all texts and all single and double values",
     "Tests parse a few well-formed numbers; garbage, trailing junk and partial numbers are not sampled.",
     [L + "DoubleValue.cpp", L + "SingleValue.cpp"], [("platform scanner wrapped by TryParseInternal", L + "DoubleValue.cpp")], ["Parse", "TryParse", "ToString"])
prop("C25", "The recycling allocator hands out disjoint, aligned, zeroed memory",
     "Between two resets the allocator returns blocks that are aligned for any library value, filled with zeros, wholly inside its fixed region and never overlapping an earlier block, until the region is used up, when it returns null and keeps doing so safely for any size. "
     "A reset makes the entire region available again with the same capacity every time, releasing a block is harmless, and before the first reset ordinary heap memory is used.",
     ["histories"], "all sequences of allocations of any size, releases and resets",
     "The unit tests never set the region up: they run only in ordinary heap mode.",
     ["PlatformSupport/PlatformSupport.cpp", "PlatformSupport/PlatformSupport.h"], [("bump allocation with alignment and limit check", "PlatformSupport/PlatformSupport.cpp")], ["my_operator_new_replacement", "operator new", "PlatformSetup"])
prop("C26", "Running translated code is repeatable and contains its exceptions",
     "Each run starts from the same fresh memory state whatever earlier runs did, so running the same program any number of times gives the same output and results; an exception thrown at any point ends only that run, with its message sent to the platform, and later runs are unaffected. "
     "Platform data exposed to the program is the platform's own storage: changes made on either side are seen by the other and survive between runs.",
     ["programs", "histories"], "all sequences of runs of generated programs, with and without exceptions at any point",
     "The bridge has no tests at all; it needs several runs in one process and the recycling memory mode.",
     ["DotNetLibrarySupport/DotNetLibrarySupport.cpp", "PlatformSupport/PlatformSupport.cpp", L + "Array.cpp", H + "Exception.h"], [("Run resets memory, runs the program and reports exceptions", "DotNetLibrarySupport/DotNetLibrarySupport.cpp")], ["TranslatorSupport::Run", "Send", "DataAccess"])
prop("C27", "Character classification and case mapping are consistent",
     "For every ASCII character the letter, digit, number, case, white-space, punctuation, separator and control tests and the numeric value are those of the .NET character tables, and the string-and-index forms agree with the single-character forms and reject bad indexes and null strings. "
     "Case mapping is idempotent, changes exactly the letters, is mutually inverse on them, and mapping a string maps each of its characters and nothing else.",
     ["inputs"], "all characters (exhaustively over the ASCII range), all strings and indexes",
     "Tests look at one or two characters per predicate.",
     [L + "CharValue.cpp", L + "StringDotNet.cpp"], [("C wide-character classification plus tables", L + "CharValue.cpp")], ["CharValue::Is*", "ToLower/ToUpper", "GetNumericValue", "String::ToLower/ToUpper"])
prop("C28", "Formatting never writes past the buffer it is given",
     "Writing any object's text into a caller's buffer of a given size never touches memory outside that buffer, writes the object's full text with a terminator whenever it fits, and returns the number of characters of that text. "
     "This holds for strings, builders and every value type at every size, down to exactly the text length plus terminator.",
     ["inputs"], "all object kinds and values, all buffer sizes",
     "Tests always pass a generous buffer.",
     [L + "StringDotNet.cpp", L + "StringBuilder.cpp", L + "Object.cpp", L + "DateTimeValue.cpp", L + "TimeSpanValue.cpp"], [("size argument passed to the platform formatter or clipped copy", L + "Object.cpp")], ["FormatString(where, size)"])
prop("C29", "No sequence of library calls can corrupt memory or crash",
     "Over any sequence of public library calls on live objects of every kind with arbitrary arguments, including null objects and extreme numbers, each call either completes or ends in a library exception. "
     "No call reads or writes memory outside the objects involved, crashes the process, fails to terminate, or changes an object that is not its target.",
     ["histories", "inputs"], "all call histories over a pool of strings, builders, arrays, boxes and enumerators with arbitrary arguments",
     "Tests exercise calls one at a time on fresh objects and cannot see silent out-of-bounds access.",
     [L + "StringDotNet.cpp", L + "StringBuilder.cpp", L + "Array.cpp", L + "Buffer.cpp", L + "BitConverter.cpp", L + "CharEnumerator.cpp"], [("argument validation that throws before touching memory", L + "Array.cpp")], ["every public member"])
prop("C30", "Library code behaves identically in recycled memory",
     "Any program over strings, builders, arrays, boxes, dates and spans that fits in the recycling memory region computes the same results and the same text there as in ordinary heap memory, on the first run and on every later run after other programs have dirtied the region. "
     "No object of one run is reachable or visible in the next.",
     ["programs", "histories", "configurations"], "all generated programs that fit the region, in heap mode and in region mode, in any order of runs",
     "All existing tests run in heap mode in a process of their own; nothing compares the two memory modes.",
     ["PlatformSupport/PlatformSupport.cpp", "DotNetLibrarySupport/DotNetLibrarySupport.cpp", L + "Array.cpp", L + "StringDotNet.cpp", L + "StringBuilder.cpp"], [("zero-filled allocation, harmless release, no process-wide mutable state", "PlatformSupport/PlatformSupport.cpp")], ["differential run of one program in both modes"])
prop("C33", "Exceptions keep their message and cause and are caught by kind",
     "An exception keeps the message and the inner exception it was made with, and its base exception is the innermost one of its chain, itself when it has no inner one, for chains of any length. "
     "Whatever library call raises it, an error is caught by exactly the handlers for its own kind and the more general .NET kinds it belongs to (null, out-of-range and bound errors are argument errors; overflow and division by zero are arithmetic errors), the innermost such handler first; and every library error carries a non-empty message that is the same each time.",
     ["inputs", "programs"], "all exception chains, all library errors and all nestings of handlers",
     "Tests catch two kinds by their exact type and never look at a message or a cause.",
     [H + "Exception.h"], [("exception class hierarchy", H + "Exception.h")], ["get_Message", "get_InnerException", "GetBaseException", "catch"])
prop("C31", "Translation preserves program meaning",
     "For every program in the accepted subset, the generated C++ compiled against the library produces the same observable output as the original program run under .NET. "
     "Evaluation order, integer wrap-around, exception flow and object identity are those of C#.",
     ["programs"], "all programs accepted by the translator",
     "The feature tests check the text of single translated constructs.",
     ["CppTranslator/CppTypeVisitor.cs", "CppTranslator/CppVisitorBase.cs", "CppTranslatorFeatureTest/FeatureTest.cs"], [("AST visitor emitting C++", "CppTranslator/CppTypeVisitor.cs")])
prop("C32", "Unsupported language and library features are refused, not mistranslated",
     "A program using a language construct or library member outside the supported list is rejected with a diagnostic naming it, and no output is produced for it. "
     "Every member on the supported list exists in the runtime library with the same meaning.",
     ["programs"], "all input programs",
     "Tests try a few unsupported constructs.",
     ["CppTranslator/ValidTypes.xml", "CppTranslator/ValidTypes.cs"], [("valid-type filter before emission", "CppTranslator/ValidTypes.cs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
