DT = [T + x + ".rs" for x in ("date", "time", "datetime", "datetimestamp")]
prop("C05", "Calendar date and time literals decode exactly and round-trip",
     "Parsing xs:date and xs:time accepts every literal of years 0001-9999 in four digits, months, days that exist, hours 00-23, minutes and seconds 00-59, any fraction digits and an optional timezone of whole minutes within 14:00, and yields exactly the written fields (fraction to the nanosecond, further digits cut; no timezone when none is written). A literal of that shape naming a value that does not exist, an empty text, trailing text or a malformed timezone is rejected with an error, and no text panics. Printing a value gives the same fields and timezone when parsed again, keeping fractional seconds, and the defaults are 0001-01-01 and 00:00:00 without timezone.",
     ["inputs"], "for every UTF-8 string given to the date and time parsers; for every date of years 1-9999, every nanosecond of the day and every whole-minute offset",
     "tests parse under ten literals per type and none with fractions, leap days in odd centuries, negative offsets near the day boundary or multi-byte text",
     DT[:2] + [T + "utils.rs"], [{"name": "date/time FromStr, Display, Default", "where": "xsd-types/src/types/{date,time}.rs"}], observe=["FromStr, Display, Default of Date and Time"],
     note="All UTF-8 strings for parsing; all values for printing; chrono's NaiveDate/NaiveTime text conversion is an assumed contract, cross-checked on every path's witness.")
prop("C06", "dateTime and dateTimeStamp literals denote exactly the written instant",
     "Parsing xs:dateTime accepts every literal with a four-digit year 0001-9999, an existing date, hours 00-23, minutes and seconds 00-59, any fraction digits and an optional Z or signed whole-minute offset within 14:00, and yields the written local fields and offset; without a timezone it is read as UTC. xs:dateTimeStamp accepts the same literals except that the timezone is required. Non-existent dates, missing parts, trailing text and empty text are rejected without panic, and printing then parsing gives back the same instant and offset to the nanosecond.",
     ["inputs"], "for every UTF-8 string given to the two parsers; for every date-time of years 1-9999, nanosecond and whole-minute offset",
     "tests use under a dozen literals; fraction length, offset sign, Z and no-timezone handling interact",
     DT[2:], [{"name": "FromStr, Display, Default", "where": "xsd-types/src/types/{datetime,datetimestamp}.rs"}], observe=["FromStr and Display of DateTime and DateTimeStamp"],
     note="All UTF-8 strings; chrono's RFC 3339 and format-string parsing are assumed contracts; RFC-3339-only spellings (lower-case t/z, space, U+2212, offsets over 14:00) are left unspecified.")
prop("C07", "Integer types accept exactly their value space, any size",
     "Parsing xs:integer, positiveInteger, negativeInteger, nonNegativeInteger and nonPositiveInteger succeeds exactly on an optional sign followed by one or more ASCII digits whose number lies in the type's value space, and yields that exact number with no size limit. Every other text is an error, never a panic. Printing gives the canonical digits, which parse back to the same number, and each type's default lies in its value space.",
     ["inputs"], "for every UTF-8 string given to each of the five parsers, and every integer of the value space",
     "tests sample a few small numbers; signs on zero, leading zeros, separators and huge numbers are not reached",
     [T + x + ".rs" for x in ("integer", "positive_integer", "negative_integer", "non_negative_integer", "non_positive_integer")], [{"name": "FromStr, Display, Default", "where": "xsd-types/src/types/*integer.rs"}],
     note="All UTF-8 strings; num-bigint's text conversion is an assumed contract.")
prop("C08", "Decimal literals are exact and printed in plain notation",
     "Parsing xs:decimal succeeds exactly on an optional sign followed by digits with an optional decimal point (at least one digit in all) and yields exactly that number with no rounding or size limit; exponents, separators and every other text are errors, never a panic. Printing any value gives plain xs:decimal notation denoting exactly the same number, which parses back to it.",
     ["inputs"], "for every UTF-8 string, and every decimal (any digits, any scale)",
     "tests sample a few literals; small fractions, negative scales and exponent forms are not reached",
     [T + "decimal.rs"], [{"name": "FromStr, Display", "where": "xsd-types/src/types/decimal.rs"}], note="All UTF-8 strings and all (digits, scale) pairs; bigdecimal's text conversion is an assumed contract.")
prop("C09", "Duration literals: exact grammar and exactly the written components",
     "Parsing xs:duration succeeds exactly on its lexical form (optional minus, P, at least one of years, months, days in order, then optionally T with at least one of hours, minutes, seconds in order; digits before each designator; a fraction only on seconds with digits on both sides of the point) with whole components up to 2^64-1, plus the empty text read as the zero duration. The result carries exactly the written sign and components, absent ones zero, with seconds the double nearest to the literal. Every other text is an error, never a panic.",
     ["inputs"], "for every UTF-8 string given to the duration parser",
     "tests sample about thirty literals; the scanner's state (number start, dot seen, last component, T seen) combines over unbounded text",
     [T + "duration.rs"], [{"name": "scanner loop", "where": T + "duration.rs"}], observe=["FromStr of Duration"],
     note="All UTF-8 strings: the scanner loop is handled by an inductive run-compression rule checked on every run; u64/f64 text conversion are assumed contracts.")
prop("C10", "Durations survive printing and parsing",
     "Printing any duration whose seconds are finite and not negative gives a valid xs:duration literal, and parsing that text gives back a duration equal in sign and every component, including all-zero and negative zero durations. The default duration is zero.",
     ["inputs"], "for every sign, all 64-bit components and every finite non-negative double of seconds",
     "tests print a handful of values; which components are zero, T placement and fractional seconds combine into 128 shapes",
     [T + "duration.rs"], [{"name": "Display and FromStr", "where": T + "duration.rs"}], observe=["Display and FromStr of Duration"],
     note="Both functions executed on one symbolic value; f64 Display's documented round-trip guarantee is an assumed contract.")
prop("C11", "Duration conversion to machine time is exact or an error",
     "Converting a duration to a standard-library duration succeeds exactly when it is non-negative, has no years or months, has finite non-negative seconds and fits in 2^64-1 whole seconds. The result is days, hours, minutes and seconds summed exactly, with fractional seconds rounded to the nearest nanosecond. Otherwise an error is returned; nothing overflows, wraps or panics.",
     ["inputs"], "for every sign, all 64-bit components and every double of seconds",
     "tests convert a few small values; overflow at each multiplication and addition boundary and fraction carry are not reached",
     [T + "duration.rs"], [{"name": "to_std_duration", "where": T + "duration.rs"}], observe=["Duration::to_std_duration"], note="All components; std Duration arithmetic is an assumed contract.")
