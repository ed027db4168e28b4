#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

M5=["rfc5424/machine.go","rfc5424/machine.go.rl","common/common.rl"]
M3=["rfc3164/machine.go","rfc3164/machine.go.rl","common/common.rl"]

prop("C01","RFC 5424 strict parsing accepts exactly the RFC 5424 grammar",
"In strict mode a byte string is parsed successfully if and only if it is `<PRIVAL>VERSION SP TIMESTAMP SP HOSTNAME SP APP-NAME SP PROCID SP MSGID SP STRUCTURED-DATA [SP MSG]` with PRIVAL 0 or 1-191 without leading zero, VERSION 1-999 without leading zero, TIMESTAMP `-` or an RFC 3339 date-time with upper-case T, Z or numeric offset and 0 to 6 fractional digits that names a real date, the four header names 1-255/48/128/32 visible ASCII bytes, and structured data `-` or one or more well-formed elements with distinct ids. Element ids and parameter names have 1-32 visible ASCII bytes other than `=`, `]`, `\"`; parameter values are well-formed UTF-8 in which `\"`, `\\` and `]` occur only after a backslash and a backslash occurs only before one of these. MSG is any byte sequence, possibly empty (see the compliant mode property for the other mode).",
["inputs"],"All byte strings of any length.",
"The tests try a few hundred literal inputs; acceptance is a statement about every byte at every one of the several hundred states of the generated automaton.",
M5+["rfc5424/parser.go"],[("generated automaton and its accept test","rfc5424/machine.go: (*machine).Parse"),("grammar","rfc5424/machine.go.rl, common/common.rl")],
["the (message, error) pair returned by the parser"])

prop("C02","RFC 5424 header and message fields are exactly the input's bytes",
"When an RFC 5424 message is parsed, priority and version are the decimal values read, facility and severity are the priority divided by 8 and its remainder, the timestamp is the instant (and offset) written with its fraction, and hostname, app-name, procid, msgid and message are byte for byte the corresponding part of the input. A header part written as the single nil character `-`, and a missing or empty message, are reported as absent (nil); every other part is reported as present.",
["inputs"],"All inputs accepted by the parser, fields of every permitted length.",
"Tests compare a handful of messages; an off-by-one in a mark or a length-dependent slip at one automaton state needs every length and byte at that field.",
M5+["rfc5424/syslog_message.go","common/functions.go","syslog.go"],
[("marks and field actions","rfc5424/machine.go: (*machine).Parse, text"),("export of the message","rfc5424/syslog_message.go: export, minimal"),("decimal decoding","common/functions.go: UnsafeUTF8DecimalCodePointsToInt"),("facility and severity","syslog.go: ComputeFromPriority")],
["fields of the returned message"])

prop("C03","RFC 5424 structured data is reported faithfully, unescaped, complete",
"The structured data of a parsed RFC 5424 message holds exactly one entry per element of the input, under the element's id, and in it exactly the parameter names written in that element. Each parameter value is the input's value with the backslash removed from every escape `\\\\\"`, `\\\\\\\\`, `\\\\]` and nothing else changed; when a name is repeated within an element the last value is kept. An element id that occurs twice makes the message invalid and the nil structured data `-` is reported as absent.".replace("\\\\","\\"),
["inputs"],"All accepted inputs: any number of elements, parameters, escapes, any UTF-8 in values.",
"Escapes at arbitrary positions and counts, element/parameter interleavings and repeated names cannot be enumerated by example inputs.",
M5+["common/functions.go","rfc5424/syslog_message.go"],
[("structured data actions","rfc5424/machine.go: (*machine).Parse"),("escape removal","common/functions.go: RemoveBytes")],
["StructuredData of the returned message"])

prop("C04","RFC 5424 best effort keeps exactly the parts completed before the error",
"In best effort mode an input that strict mode accepts gives the same message without error, and an input that strict mode rejects gives the same error as in strict mode together with a partial message if and only if its priority and version were completely read (the version counts as read at the first byte after its digits or at the end of input). The partial message contains exactly the header parts terminated before the error, the structured data elements and parameters completed before it (an id that fails is dropped, the parameter in which the error occurs - or after whose closing quote an illegal byte follows at once - is dropped), and, when the error is inside the message, the message text up to the error. A part completed before the error is never altered or lost, and nothing from after the error is reported.",
["inputs"],"All byte strings, in particular every rejection point of the grammar, with best effort on.",
"Partial results depend on the automaton state at the error and on what was stored before; tests sample some truncation points only.",
M5+["rfc5424/syslog_message.go","rfc5424/parser.go","rfc5424/options.go"],
[("partial result on failure","rfc5424/machine.go: (*machine).Parse tail"),("minimal validity and export","rfc5424/syslog_message.go: minimal, export"),("error actions removing incomplete structured data","rfc5424/machine.go: (*machine).Parse")],
["the (message, error) pair returned in best effort mode"])

prop("C05","RFC 5424 rejections always carry an error naming component and column",
"When an RFC 5424 input is rejected the parser returns a non-nil error (and in strict mode no message), and when it is accepted in strict or best effort mode it returns a message and no error. The error text names the component that failed - the exported error text of the grammar part, the duplicate id text, or the date library's text for an impossible date - followed by ` [col N]`, N being the zero-based offset of the offending byte, or the input length when the input ended too early.",
["inputs"],"All byte strings rejected by the parser, in all configurations.",
"Every state of the automaton has its own error transition; tests cover some of them.",
M5+["rfc5424/parser.go"],[("error actions","rfc5424/machine.go: (*machine).Parse"),("parser wrapper","rfc5424/parser.go: (*parser).Parse")],
["the error returned"])

prop("C06","RFC 5424 compliant-message mode enforces UTF-8 exactly after a BOM",
"With the compliant message option a MSG that begins with the UTF-8 byte order mark is accepted if and only if all the bytes after the mark are well-formed UTF-8 (no overlong forms, surrogates or code points above U+10FFFF), and a MSG that does not begin with it is accepted whatever its bytes; without the option every MSG is accepted. The reported message is the whole MSG including the mark, and on a violation the error names the message component at the first offending byte while best effort mode reports the text before it.",
["inputs","configurations"],"All MSG byte sequences, option on and off.",
"Well-formedness of UTF-8 concerns every continuation at every position; tests contain few malformed sequences.",
M5+["rfc5424/options.go"],[("message sub-automata and their selection","rfc5424/machine.go: (*machine).Parse"),("option","rfc5424/options.go: WithCompliantMsg")],
["message and error returned with and without the option"])

prop("C07","RFC 3164 parsing accepts exactly its grammar and never fails silently",
"A byte string is accepted if and only if it is `<PRIVAL>` (0 or 1-191, no leading zero), a `Mmm dd hh:mm:ss` timestamp (or, with the RFC 3339 option on, alternatively an RFC 3339 one without fraction) naming a real date, a space, a hostname of 1-255 visible ASCII bytes, a space, and a non-empty message text without control bytes (0-31 and 127), where only inside brackets directly after a tag and closed by `]: ` any byte may occur. Acceptance returns a message and no error; rejection always returns a non-nil error, which names the offset where parsing stopped, and no message unless best effort is on and the priority was completely read (at the first byte after its digits or at the end of input), in which case exactly the header parts completed before the error are reported.",
["inputs","configurations"],"All byte strings, with and without best effort and the RFC 3339 option.",
"Tests hold about a dozen inputs for several hundred automaton states.",
M3+["rfc3164/parser.go","rfc3164/options.go","rfc3164/syslog_message.go"],
[("generated automaton, error actions and accept test","rfc3164/machine.go: (*machine).Parse"),("minimal validity","rfc3164/syslog_message.go: minimal")],
["the (message, error) pair returned by the parser"])

prop("C08","RFC 3164 fields are exactly the corresponding parts of the input",
"When an RFC 3164 message is parsed, priority, facility and severity derive from the number read, and the hostname is the input's bytes (`-` is reported as absent). The app name is the leading run of 1-32 visible tag characters (no space, `:` or `[`) of the text when `:` or `[` directly follows it, and the process id is the bracketed part that directly follows the tag up to its first `]` (absent when empty or `-`). The message is the rest of the input after `tag: ` or `tag[pid]: ` when the text starts so and has at least one more byte, and the whole text otherwise - never a part that lost its head.",
["inputs"],"All accepted inputs; any tag, content and message bytes, in particular brackets and colons inside the message.",
"Brackets or colons at arbitrary places of the message are rarely in test inputs.",
M3+["rfc3164/syslog_message.go","common/functions.go","syslog.go"],
[("marks and field actions","rfc3164/machine.go: (*machine).Parse, text"),("export","rfc3164/syslog_message.go: export")],["fields of the returned message"])

prop("C09","RFC 3164 timestamp options set year and zone as documented",
"For a `Mmm dd hh:mm:ss` timestamp the month, day and time are those written, the year is 0 plus the configured year (0 without a year option; 29 February of a year that has none becomes 1 March, as time.AddDate normalises it), the clock reading is interpreted in UTC or, with the locale-timezone option, in that zone, and with the timezone option the same instant is then expressed in that zone; a nil zone counts as none. An RFC 3339 timestamp is reported as written, unaffected by year and zone options. Options apply to every message parsed, in any combination and order.",
["inputs","configurations"],"All accepted timestamps, all option combinations.",
"Tests use one or two combinations of the options with fixed inputs.",
["rfc3164/machine.go","rfc3164/machine.go.rl","rfc3164/options.go","rfc3164/year.go"],
[("timestamp actions","rfc3164/machine.go: (*machine).Parse"),("options","rfc3164/options.go, rfc3164/machine.go: With*"),("year operators","rfc3164/year.go")],["Timestamp of the returned message"])

prop("C10","Message parsing, building and serialization never panic and always finish",
"Parsing any byte string, including nil and empty, as RFC 5424 or RFC 3164 with any of that format's own options, calling any builder setter with any arguments, serializing a message and calling any accessor returns normally: no index, slice, nil-map or type failure. Parsing makes progress through the input: it never loops without consuming a byte.",
["inputs","configurations"],"All byte strings, all options, all setter arguments.",
"A panic needs a particular byte at a particular state or an empty/short argument that no test uses.",
["rfc5424/machine.go","rfc5424/builder.go","rfc5424/syslog_message.go","rfc3164/machine.go","rfc3164/syslog_message.go","common/functions.go","syslog.go"],
[("bounds established by the p/pe tests","rfc5424/machine.go, rfc3164/machine.go, rfc5424/builder.go"),("offset arithmetic on escapes","common/functions.go: RemoveBytes"),("nil checks before writes to structured data","rfc5424/builder.go")],["panics"])

prop("C11","A message parser's result depends only on its options and the input",
"Whatever a parser parsed before (accepted, rejected or cut inputs, in any order), parsing an input returns exactly what a newly built parser with the same options returns for it. Parsing never changes the parser's options.",
["histories","inputs"],"All sequences of inputs given to one RFC 5424 or RFC 3164 parser.",
"Leaks between calls need a particular earlier input followed by a particular later one; tests mostly use fresh parsers.",
["rfc5424/machine.go","rfc3164/machine.go","rfc5424/parser.go","rfc3164/parser.go"],
[("re-initialisation at the start of a parse","rfc5424/machine.go, rfc3164/machine.go: (*machine).Parse")],["results of the second and later parses"],
[("machine fields","position, marks, current element/parameter, escape positions, error","rfc5424/machine.go, rfc3164/machine.go")])

prop("C12","Parsers may be shared, and separate objects used, across goroutines",
"Concurrent calls to Parse on one parser made by the parser constructors behave as if they ran one after the other: the whole parse runs under the parser's own lock, which is released on every exit. Different parsers, machines, messages and builders never share mutable state, so they can be used from different goroutines freely.",
["schedules"],"All interleavings of goroutines using one parser or different objects.",
"Data races need a schedule; the tests are single threaded.",
["rfc5424/parser.go","rfc3164/parser.go","rfc5424/builder.go","common/facility.go","common/severity.go","nontransparent/trailer_type.go","octetcounting/tokens.go"],
[("mutex around the machine","rfc5424/parser.go, rfc3164/parser.go: Parse"),("package variables written only by initialisation","all packages")],["data races, lost or mixed results"])

prop("C13","Parsing neither modifies nor keeps a reference to the caller's buffer",
"Parsing leaves the bytes of the input unchanged, and no part of a returned message or error refers to the input's storage or to memory the parser reuses later: overwriting the input or parsing again does not change a message returned earlier. Messages returned by different calls share no mutable storage.",
["inputs","histories"],"All inputs (any number of escapes), any later reuse of buffer or parser.",
"Tests do not modify the buffer or reparse before looking at an earlier message.",
["rfc5424/machine.go","rfc3164/machine.go","common/functions.go","rfc5424/syslog_message.go","rfc3164/syslog_message.go"],
[("string copies of fields","rfc5424/machine.go, rfc3164/machine.go"),("copy before removing escapes","common/functions.go: RemoveBytes")],["earlier results after later calls, input bytes after a call"])

prop("C14","Builder setters store exactly the valid values and ignore the others",
"A builder setter for timestamp, hostname, app-name, procid, msgid or message stores the given value when it matches the RFC 5424 grammar of that part (fully, not a prefix) and otherwise leaves the whole message unchanged; priority is stored, with facility and severity, exactly for 0-191 and version exactly for 1-999. The nil character `-` given as a header part and the empty message leave the message unchanged. A setter changes nothing but its own part, the stored value is the value given, and the setter returns the message itself.",
["inputs","histories"],"All argument values, any state of the message.",
"The builder has its own 583-state automaton; tests call each setter with a few values.",
["rfc5424/builder.go","rfc5424/builder.go.rl","common/common.rl","common/functions.go"],
[("builder automata","rfc5424/builder.go: setWithin, translate"),("range checks","common/functions.go: ValidPriority, ValidVersion")],["message fields after a setter call"])

prop("C15","Builder structured data: ids and parameters are added exactly as documented",
"Setting an element id adds an empty element exactly when the id is valid and not present, and never alters existing elements. Setting a parameter with a valid id, name and value creates the element and parameter when missing and makes the parameter's value the given one with its backslash escapes removed; with an invalid id nothing changes, with an invalid name at most the element is added, with an invalid value the value of an existing parameter is kept and a new one is empty. Other elements and parameters are never changed.",
["inputs","histories"],"All ids, names and values (any escapes), any existing structured data.",
"Combinations of valid and invalid arguments with existing data are sampled thinly by tests.",
["rfc5424/builder.go","rfc5424/builder.go.rl","common/functions.go"],
[("structured data actions","rfc5424/builder.go: setWithin, SetParameter, SetElementID"),("escape removal","common/functions.go: RemoveBytes")],["StructuredData after a call"])

prop("C16","Serialization writes the RFC 5424 form from which the message parses back",
"Serializing a valid RFC 5424 message gives `<PRI>VERSION TIMESTAMP HOSTNAME APP-NAME PROCID MSGID STRUCTURED-DATA` and, when there is a message, a space and the message, with `-` for every absent part, the timestamp with up to 6 fractional digits and its offset, elements sorted by id and parameters by name. Parameter values are written byte for byte with a backslash before each `\"`, `\\` and `]` and no other change, so that parsing the text gives the message back. A message without valid priority and version gives an error and no text; serializing does not change the message.".replace("\\\\","\\"),
["inputs"],"All messages made by the builder or the parser; any UTF-8 in values.",
"Round trips over arbitrary values, escapes and numbers of elements cannot be enumerated.",
["rfc5424/builder.go","rfc5424/builder.go.rl","common/functions.go","rfc5424/syslog_message.go"],
[("serializer","rfc5424/builder.go: String"),("escaping","common/functions.go: EscapeBytes"),("validity","rfc5424/syslog_message.go: Valid; syslog.go: Valid")],["text and error returned"])

prop("C17","Validity and facility/severity accessors agree with the priority for all values",
"A message is valid exactly when its priority is set and at most 191 (and, for RFC 5424, its version is 1-999). Setting a priority makes facility the quotient by 8 and severity the remainder, and the accessors return nil exactly when the corresponding code is absent and otherwise the RFC 5427 text of that code: every facility 0-23 has a non-empty message and keyword, every severity 0-7 a message, a level and a short level, each different from the other codes' keyword or level.",
["inputs"],"All priorities 0-255, versions and facility/severity codes.",
"Tests check a few codes; a wrong table row or a dropped range test shows for one code only.",
["syslog.go","common/facility.go","common/severity.go","common/functions.go","rfc5424/syslog_message.go"],
[("accessors","syslog.go"),("tables","common/facility.go, common/severity.go"),("range predicates","common/functions.go")],["accessor results"])

prop("C18","Octet counting delivers each frame's exactly N octets as one message, in order",
"For a stream of frames `MSGLEN SP MSG` (MSGLEN without leading zero, at most the maximum length, MSG of MSGLEN octets starting with `<`), the listener receives one result per frame, in order, and each result is what the RFC 5424 parser (with the stream parser's best effort setting) gives for exactly the MSGLEN octets after the space, whatever bytes they are. No octet is skipped, shared between frames or read twice; the end of the stream after a complete frame ends parsing without a further result.",
["inputs"],"All streams of well-formed frames; any lengths, any bytes in messages, any maximum length.",
"Frame boundaries depend on lengths and on bytes (digits, spaces, newlines, NUL) around them; tests have a few short streams.",
["octetcounting/parser.go","octetcounting/scanner.go","octetcounting/tokens.go"],
[("token loop","octetcounting/parser.go: run, scan, unscan, parse"),("scanner","octetcounting/scanner.go: Scan, scanMsgLen, scanSyslogMsg")],["results given to the listener"])

prop("C19","Octet counting reports each framing fault once and then stops",
"When a frame is malformed - a missing or non-decimal MSGLEN or one with a leading zero, a missing space, a length above the maximum (also when it overflows), a message that does not start with `<`, or a stream that ends inside a frame - the listener receives exactly one further result, with a non-nil error, and parsing stops without consuming or reporting later frames. In strict mode that result has no message, and a frame whose message is rejected also ends the parsing with one error; in best effort mode a rejected frame is reported (with its partial message) and parsing goes on, and a frame cut by the end of the stream is parsed as far as present and reported with an error.",
["inputs","configurations"],"All streams that violate the framing at any point, any maximum length, both modes.",
"Each fault position and byte is its own path; tests have a fault of each kind at one place.",
["octetcounting/parser.go","octetcounting/scanner.go","octetcounting/tokens.go"],
[("error exits of the token loop","octetcounting/parser.go: run"),("end of stream and illegal tokens","octetcounting/scanner.go: Scan, scanMsgLen, scanSyslogMsg")],["results given to the listener"])

prop("C20","Non-transparent framing splits exactly at a trailer followed by `<` or the end",
"With non-transparent framing a stream that starts with `<` is split into messages exactly where the configured trailer byte (LF by default, or NUL) is directly followed by `<`, and at its final trailer; the listener receives one result per message, in order, each being what the RFC 5424 parser gives for the bytes of that message without its final trailer. Trailer bytes not followed by `<` stay part of the message, and no byte is lost, repeated or moved to another message. A stream that does not start with `<` yields no result for the data before its last trailer.",
["inputs","configurations"],"All streams and both trailers.",
"Trailer bytes inside messages, consecutive trailers and chunk boundaries are combinations tests sample.",
["nontransparent/parser.go","nontransparent/parser.go.rl","nontransparent/trailer_type.go"],
[("framing automaton","nontransparent/parser.go: Exec, process"),("end of stream","nontransparent/parser.go: OnErr, OnCompletion")],["results given to the listener"])

prop("C21","Non-transparent framing reports the last message and a cut one exactly once",
"At the end of a non-transparent stream the last message terminated by the trailer is reported exactly once, and bytes after the last trailer are reported, when there are any, in exactly one further result that is the parse of these bytes with a non-nil error: the parser's, or else the reader's (unexpected EOF when the stream merely ended). Nothing is reported after that and a stream that ends with the trailer reports no error for its end.",
["inputs","fault_sequences"],"All ends of stream: after a trailer, inside a message, on a read error.",
"Tests end streams at few positions and do not inject read errors.",
["nontransparent/parser.go","nontransparent/parser.go.rl"],
[("completion callbacks","nontransparent/parser.go: OnErr, OnEOF, OnCompletion, process")],["results given to the listener"])

prop("C22","Stream parsers honour their options and give every result to the listener",
"Both stream parsers call the configured listener once for each result, synchronously and before reading further messages, and never with both message and error nil; without a listener results are dropped without failing. Best effort, maximum message length, listener and trailer options take effect in any combination and order, a later setting replacing an earlier one, also when set through the methods of a finished parser, between two streams included; best effort reaches the inner message parser exactly when it is on and HasBestEffort tells whether it is; an unknown trailer is ignored.",
["inputs","configurations"],"All option combinations and streams, both stream parsers.",
"Tests use few combinations of options.",
["octetcounting/parser.go","nontransparent/parser.go","options.go"],
[("options","options.go; octetcounting/parser.go: With*, NewParser; nontransparent/parser.go: With*, NewParser"),("emission of results","octetcounting/parser.go: run, parse; nontransparent/parser.go: process, OnCompletion")],["listener calls"])

prop("C23","Trailer types and their text form correspond one to one",
"Exactly the LF and NUL trailer types are valid: they convert to the bytes 10 and 0 and to the texts LF and NUL. Decoding text accepts exactly LF and NUL, in any letter case, bare or within a pair of equal single or double quotes, and encoding followed by decoding gives the same type; any other text or type value gives an error (and no valid type).",
["inputs"],"All texts and all type values.",
"Tests list a few texts.",
["nontransparent/trailer_type.go"],
[("conversion tables and parsing","nontransparent/trailer_type.go: String, Value, TrailerTypeFromString, UnmarshalText, UnmarshalTOML, MarshalText")],["conversion results"])

prop("C24","A stream parser can be reused: each stream gives what a new parser gives",
"Parsing a stream with an octet counting or non-transparent parser that has already parsed other streams - completely, cut short, or stopped by an error - gives the listener exactly the results a newly built parser with the same options gives for that stream.",
["histories","inputs"],"All sequences of streams given to one parser.",
"Left-over state needs a particular end of an earlier stream; tests use a new parser per stream.",
["octetcounting/parser.go","octetcounting/scanner.go","nontransparent/parser.go"],
[("re-initialisation per stream","octetcounting/parser.go: Parse; nontransparent/parser.go: Parse")],["results for the second and later streams"],
[("stream parser fields","scanner, look-ahead flag, candidate, last chunk, read error","octetcounting/parser.go, nontransparent/parser.go")])

prop("C25","Stream parsing never panics and always ends when its reader ends",
"For every byte stream, trailer, maximum length and mode, parsing a stream returns normally once the reader reports its end or an error, with at most a bounded amount of work per byte read: no index, slice, nil or type failure, and no endless loop.",
["inputs","configurations","fault_sequences"],"All streams, all options, end or read error at any point.",
"Needs streams of unusual shape (empty frames, only trailers, huge lengths).",
["octetcounting/parser.go","octetcounting/scanner.go","octetcounting/tokens.go","nontransparent/parser.go"],
[("token loop and scanner","octetcounting/*.go"),("framing automaton and callbacks","nontransparent/parser.go")],["panics, hangs"])

prop("C26","Results are a function of input and options: no clock, environment or randomness",
"Nothing that parsing, building, serializing, framing or an accessor returns depends on the clock, the environment, random numbers, the local time zone, memory addresses or map iteration order; the only exception is the current-year option, which reads the clock once when the option is applied. (time.Parse may name a timestamp's offset after the process's local zone; the instant and the offset do not depend on it.) Parsing performs no input or output other than reading the given reader and calling the listener, and starts no goroutine.",
["inputs","schedules"],"All inputs, all environments and all runs.",
"Running the same test twice in the same environment cannot show dependence on the environment.",
["rfc5424/builder.go","rfc5424/machine.go","rfc3164/machine.go","rfc3164/year.go","octetcounting/parser.go","nontransparent/parser.go"],
[("sorted serialization","rfc5424/builder.go: String"),("year option evaluated at construction","rfc3164/machine.go: WithYear")],["calls reachable from the API"])

prop("C27","Stream results do not depend on how the reader chunks its data",
"The results for a stream depend only on its bytes and its end, not on how many bytes each read returns: the stream parsers take the data only through buffering readers that assemble frames and lines over read boundaries, so that no message up to the maximum length is limited by the size of a buffer.",
["inputs","schedules","configurations"],"All ways to cut a stream into reads, all maximum lengths up to 2^60.",
"Tests mostly read from a string reader that returns everything at once.",
["octetcounting/parser.go","octetcounting/scanner.go","nontransparent/parser.go"],
[("buffered reader sized from the maximum length","octetcounting/scanner.go: NewScanner, scanSyslogMsg"),("delimited reader","nontransparent/parser.go: Parse")],["results for differently chunked readers"])

prop("C28","Bare machines parse like the parsers, and Err tells the last call's error",
"A machine made by NewMachine of the rfc5424 or rfc3164 package - without the locking parser around it, as the stream parsers use it - returns for every input the same message and error as the parser made by NewParser with the same options: in strict mode no message with an error, in best effort mode the same partial message. Its result does not depend on earlier calls and shares no memory with the input or the machine, and its Err method reports exactly the error that the last Parse returned, nil after a success.",
["inputs","histories","configurations"],"All byte strings, all earlier calls, both formats, strict and best effort and the other options.",
"The parser's wrapper repairs or hides what the machine does wrong (it drops the message in strict mode), and Err is not tested at all.",
["rfc5424/machine.go","rfc3164/machine.go"],
[("construction","rfc5424/machine.go: NewMachine; rfc3164/machine.go: NewMachine"),("end of parsing","rfc5424/machine.go: Parse, Err; rfc3164/machine.go: Parse, Err")],["the (message, error) pair of a machine's Parse","Err after it"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
