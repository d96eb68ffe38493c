#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
S, C, X, R, T, P_, M, F = ("include/ss/splitter.hpp", "include/ss/converter.hpp", "include/ss/extract.hpp",
    "include/ss/restrictions.hpp", "include/ss/setup.hpp", "include/ss/parser.hpp", "include/ss/common.hpp",
    "include/ss/type_traits.hpp")

prop("C01", "Every line of the input yields exactly one record, in order",
 "Reading a CSV input to its end delivers one record per line, in input order, with none lost, duplicated, merged or invented, whether lines end in LF or CRLF, whether or not the last line is terminated, and however long a line is; the line terminator is never part of a value and a CR not followed by LF is. "
 "With empty-line skipping enabled exactly the empty lines produce no record. End of input is reported exactly when no record remains, including after skipping rows.",
 ["inputs", "histories"], "every byte sequence as input and every interleaving of reading and skipping rows",
 "The tests feed a handful of well-formed files of short lines; where line breaks fall relative to CR bytes, NULs of growth buffers, empty lines and end of input is a property of all byte sequences.",
 [P_, M], [("line reader", "common.hpp get_line*, parser.hpp reader::read_next/remove_eol"), ("look-ahead line and eof flag", "parser.hpp read_line")],
 [("next_line_buffer_", "line read ahead of the caller", "parser.hpp reader"), ("eof_", "no record left", "parser.hpp")], ["get_next", "eof", "ignore_next"])
prop("C02", "Unquoted rows split exactly at the delimiter",
 "Without quoting, escaping or trimming, a non-empty row consists of exactly the byte strings between successive occurrences of the delimiter scanned left to right, in order and unchanged, for single- and multi-character delimiters; joining them with the delimiter restores the row. "
 "An empty delimiter is always an error and never yields columns.",
 ["inputs", "configurations"], "every row content and every delimiter",
 "Tests use fixed rows and a few delimiters; self-overlapping delimiters, partial matches at the end of a row and empty columns at every position are input-dependent.",
 [S, C], [("delimiter matching", "splitter.hpp match/match_delimiter"), ("column boundaries", "splitter.hpp read_normal, shift_push_and_start_next")],
 [("split_data_", "column begin/end pairs", "splitter.hpp")], ["split", "convert"])
prop("C03", "Quoted columns decode exactly and malformed quoting is rejected",
 "With quoting enabled, a column that starts with the quote character is delivered as the text between the opening and its closing quote, with delimiters inside kept literally and each doubled quote reduced to one; columns that do not start with a quote keep their quote characters. "
 "A row with a closing quote followed by anything but a delimiter or the end of the row, or (without multiline) with no closing quote, is an error and never produces values.",
 ["inputs"], "every row over every byte value",
 "The quote grammar is context dependent: which of the exponentially many placements of quotes, delimiters and other bytes is mis-decoded cannot be settled by the sampled rows.",
 [S], [("quoted reader", "splitter.hpp read_quoted"), ("in-place compaction", "splitter.hpp shift_and_set_current, shift_and_jump_escape")],
 [("escaped_", "characters removed so far in the column", "splitter.hpp")], ["convert", "get_next", "valid"])
prop("C04", "An escape protects exactly the next character",
 "With escaping enabled, each escape character is removed and the character after it is kept literally and loses any special meaning (delimiter, quote, spacing, escape), in unquoted and quoted columns alike and wherever it stands in the column; all other characters are kept. "
 "An escape with nothing after it (without multiline) is an error.",
 ["inputs", "configurations"], "every row, combined with quoting and trimming or not",
 "Removal is done in place by shifting; whether the right byte is removed depends on how escapes combine with spacing, quotes and previous removals, which the sampled rows cover only partly.",
 [S], [("escape handling", "splitter.hpp shift_if_escaped, shift_and_jump_escape, read_quoted")],
 [("escaped_", "characters removed so far in the column", "splitter.hpp")], ["convert", "get_next"])
prop("C05", "Trimming strips exactly the configured characters at column ends",
 "With trimming enabled, the configured spacing characters are removed from the enabled side(s) of each column, as many as there are, and nowhere else; spacing outside quotes is removed while quoted or escaped spacing is kept. "
 "A side for which trimming is not enabled keeps its spacing.",
 ["inputs", "configurations"], "every row for trim, trim_left, trim_right and several spacing characters",
 "Tests insert runs of blanks at fixed places in fixed rows; runs at every position and length combined with delimiters, quotes and escapes are not enumerated.",
 [S, T], [("trim", "splitter.hpp trim_left_if_enabled, trim_right_if_enabled, match_delimiter")], (), ["convert", "split"])
prop("C06", "Multiline records keep every character of the value",
 "With multiline enabled, a line break that is inside quotes or directly preceded by an escape is part of the value: the record continues on the next line and the value contains the line break exactly as in the input (LF or CRLF), while all other columns and all later records are unaffected. "
 "A line break that is neither quoted nor escaped ends the record.",
 ["inputs", "histories"], "every placement of quotes, escapes and line breaks over several lines, for any line lengths",
 "Continuation re-splits a partly processed, reallocated buffer; tests place line breaks into well-formed values only.",
 [P_, S], [("continuation", "parser.hpp reader::parse, append_next_line_to_buffer, undo_remove_eol, realloc_concat, escaped_eol"), ("resplit", "splitter.hpp resplit")],
 [("next_line_size_", "length of the joined line", "parser.hpp reader"), ("crlf_", "terminator kind of last line", "parser.hpp reader")], ["get_next"])
prop("C07", "Over-long or unterminated multiline records are errors",
 "With a multiline limit of N, a record may continue over at most N further lines; a record needing more is an error. A record whose quote or escape is still open at the end of the input is an error. "
 "In both cases no values are delivered for that record through any conversion, and reading continues with the lines not yet consumed.",
 ["inputs", "histories"], "every input, limit, and sequence of conversions tried on the record",
 "Tests check one limit on well-formed data; the exact boundary, mixed escape and quote continuations and what later conversions see are history dependent.",
 [P_, C], [("limit", "parser.hpp multiline_limit_reached"), ("error flags", "converter.hpp handle_error_unterminated_*, handle_error_multiline_limit_reached")], (), ["get_next", "valid", "or_else"])
prop("C08", "Writing values as CSV and parsing them back is lossless",
 "Any table of strings free of NUL bytes, written with every column quoted and quotes doubled, joined by the delimiter and terminated by LF or CRLF (the last terminator may be missing), parses back under the matching setup with quoting and multiline to exactly the same table. The same holds for tables written with every special character escaped and every row terminated by LF, parsed with escaping and multiline, as long as no cell contains CR and a table of one column has no empty cell.",
 ["inputs", "configurations"], "every table of byte strings",
 "Round-trip over arbitrary contents covers interactions of quoting, escaping, delimiters and line breaks that hand-written rows do not.",
 [P_, S], [("parser", "parser.hpp reader::parse"), ("splitter", "splitter.hpp read_quoted/read_normal")], (), ["get_next"])
prop("C09", "Integer columns convert exactly or fail",
 "Converting a column to an integer type succeeds if and only if the whole column is an optional minus sign (signed types only) followed by one or more decimal digits whose value fits the type, and then yields that value; anything else, including out-of-range values, surrounding blanks and trailing characters, fails. "
 "The numeric one-byte types behave the same within their range, for any column length.",
 ["inputs"], "every column text for every integer width and signedness",
 "The accepted set and overflow boundaries of every type are spread over all digit strings; tests sample a few.",
 [X], [("to_num", "extract.hpp to_num, extract")], (), ["convert", "extract"])
prop("C10", "Text, boolean, optional and alternative columns convert as documented",
 "A column converts to a boolean only from 1, 0, true or false, to a character only if it is exactly one character long (yielding it), and to a string or string view always, yielding exactly its bytes. "
 "An optional never fails and is empty exactly when the inner conversion fails; an alternative type holds the first of its types, in order, whose conversion succeeds and fails if none does.",
 ["inputs"], "every column text",
 "Tests use a few literals per type; near misses of every length and the order of alternatives over all texts are not covered.",
 [X], [("extract overloads", "extract.hpp extract, extract_variant")], (), ["convert", "extract"])
prop("C11", "Restrictions accept exactly the values they describe",
 "A column with a restriction is delivered if and only if the underlying conversion succeeds and the value satisfies the restriction: in or out of an inclusive range, less/greater (or equal) than a bound, one of or none of a list, not empty, or the user's own predicate. "
 "A rejected value makes the whole conversion fail.",
 ["inputs", "configurations"], "every value of the converted type",
 "Boundary values and every list element are needed for each restriction; tests use one or two values each.",
 [R, C], [("predicates", "restrictions.hpp ss_valid"), ("application", "converter.hpp extract_one")], (), ["convert", "valid"])
prop("C12", "A row converts completely or not at all",
 "A conversion succeeds if and only if the number of requested columns equals the number of columns in the row and every requested column converts; the i-th result is then the i-th requested (non-ignored) column. "
 "Otherwise it reports failure and returns only default-constructed values, whatever column failed.",
 ["inputs", "configurations"], "every row, every requested list of types including ignored columns",
 "Which column fails, after which successful ones, with which ignored columns, is a combination tests sample; returned values after failures are not examined.",
 [C], [("column count", "converter.hpp convert_impl"), ("extraction", "converter.hpp extract_multiple, extract_one, extract_tuple")], (), ["convert", "get_next", "valid"])
prop("C13", "One record's outcome never depends on other records",
 "The values, validity and diagnostics delivered for a record are those that a fresh reader given only that record would deliver: failures, quoting errors or conversions of other types on earlier records, and look-ahead of later ones, change nothing. "
 "The same holds for repeated use of one converter on unrelated lines.",
 ["histories", "inputs"], "every sequence of records and conversion calls",
 "State is reused and swapped between records (two converters, buffers, error flags); leaks between records need particular sequences.",
 [P_, C, S], [("double buffering", "parser.hpp reader::update, read_next"), ("error reset", "splitter.hpp clear_error, converter.hpp clear_error, split")],
 [("error_", "sticky error of splitter/converter/parser", "splitter.hpp, converter.hpp, parser.hpp")], ["get_next", "convert", "valid", "error_msg"])
prop("C14", "All error modes agree on what is an error",
 "For every input and request, the flag, message and exception error modes accept and reject exactly the same records and deliver the same values; in exception mode every rejection raises the library's exception type exactly once and reading can continue with the next record, and in the other modes nothing is thrown. "
 "Message mode has a non-empty message exactly when invalid, and the exception carries the same text.",
 ["inputs", "configurations", "histories"], "every input, every setup, every sequence of calls",
 "The three modes are separate compile-time branches at every error site; agreement must hold for all inputs reaching each site.",
 [P_, C, S], [("mode branches", "handle_error_* in splitter.hpp, converter.hpp, parser.hpp"), ("rethrow", "parser.hpp get_next, decorate_rethrow")], (), ["valid", "error_msg", "what"])
prop("C15", "Diagnostics name the right line, column and text",
 "When a conversion fails, the message names the input, the physical line number at which the record ends, the 1-based position of the failing column among those requested and its text, or the expected and actual column counts, or the quoting problem. "
 "The first failing column in request order is the one reported.",
 ["inputs", "histories"], "every failing record at every position of the input, with multiline records and skipped empty lines before or after it",
 "Tests check only that some message exists; line numbers depend on look-ahead, skipped and joined lines.",
 [P_, C], [("messages", "converter.hpp error_sufix, handle_error_*; parser.hpp handle_error_invalid_conversion, decorate_rethrow")],
 [("line_number_", "physical lines read", "parser.hpp reader")], ["error_msg", "what"])
prop("C16", "Selecting columns by header name delivers those columns",
 "After selecting fields by name, each following record delivers exactly the columns under those names in the order requested, for any subset and permutation, and the selection can be replaced at any time, also between records already looked ahead to; the header row itself is not delivered as data if no row was read before. "
 "Records whose column count differs from the header's, or requests whose type count differs from the selection, are errors.",
 ["inputs", "histories", "configurations"], "every header, selection, and point at which the selection changes",
 "Two alternating converters must both carry the mapping; tests use one header with fixed names and clean data.",
 [P_, C], [("mapping", "parser.hpp use_fields; converter.hpp set_column_mapping, column_position, convert_impl")],
 [("column_mappings_", "tuple position to column", "converter.hpp"), ("header_", "parsed header", "parser.hpp")], ["use_fields", "get_next"])
prop("C17", "Header queries reflect the first row and header errors are reported",
 "The raw header is the first row verbatim and the parsed header is its columns under the same quoting, escaping and trimming rules without multiline, at any time and without disturbing reading; a field exists exactly if it is one of them. "
 "An unparsable header, a duplicated header name, an unknown or repeated or empty selection is an error that leaves the previous selection in force.",
 ["inputs", "histories"], "every first row and every sequence of queries and reads",
 "Tests query fixed headers; arbitrary header bytes, duplicates at any positions and interleaved reads are not covered.",
 [P_], [("header parsing", "parser.hpp header, split_header_data, field_exists, header_index, use_fields")], [("raw_header_", "first row", "parser.hpp")], ["header", "raw_header", "field_exists", "use_fields"])
prop("C18", "Substitute conversions deliver the first alternative that fits",
 "For a chain of alternative conversions on a record exactly the first one that converts (and whose callback, if it returns a value, accepts it) holds a value and all others are empty; callbacks run once and only for their own successful conversion, with the converted values. "
 "Error callbacks run exactly when no alternative so far succeeded, and if none fits the record is invalid; chaining never consumes more than one record and never yields data of another record.",
 ["inputs", "histories"], "every record and every chain",
 "Which alternatives fit is input dependent, and chaining reuses the split of a record after look-ahead has already read the next line.",
 [P_], [("composite", "parser.hpp composite, try_convert_and_invoke, try_same, try_invoke")], (), ["try_next", "or_else", "or_object", "on_error", "values"])
prop("C19", "Object, tuple and iteration forms deliver the same records",
 "Reading as a tuple type, as a list of types, as an object built from the types, as an object deduced from its own members, or by iterating (as tuples or objects, with pre- or post-increment) delivers the same sequence of values and the same failures as reading record by record until the end of input, each record exactly once.",
 ["inputs", "histories"], "every input and every choice of form per record",
 "Each form is its own template path; equality over all inputs including empty inputs and failing records is not tested.",
 [P_, C, F], [("iterator", "parser.hpp iterable"), ("to_object", "type_traits.hpp to_object"), ("tied", "converter.hpp convert")], (), ["iterate", "iterate_object", "get_object", "convert_object"])
prop("C20", "Parsing a file and parsing its bytes give the same result",
 "For every content, reading a file and reading a buffer holding the same bytes deliver identical records, errors, header information, line numbers and positions, apart from the input's name in messages. "
 "A file that cannot be opened and a null buffer are reported as errors with no record.",
 ["inputs", "configurations"], "every content and setup",
 "Two different line readers; tests run both on the same clean samples only.",
 [P_, M], [("readers", "common.hpp get_line_file, get_line_buffer, get_line")], (), ["get_next", "position", "line"])
prop("C21", "Line and position report the point where reading would resume",
 "Before each read the position is the byte offset at which the next record starts (the input's size at the end of input), so that a new parser on the bytes from there delivers exactly the remaining records; the line count is the number of physical lines before that point.",
 ["inputs", "histories"], "every input, every moment between reads, with skipped, empty, failing and multiline records",
 "One test checks offsets on single-line records; look-ahead, CRLF, skipped and joined lines move the counters differently.",
 [P_, M], [("counters", "parser.hpp reader::read_next, append_next_line_to_buffer; common.hpp get_line")],
 [("chars_read_", "offset of pending record", "parser.hpp reader"), ("line_number_", "physical lines read", "parser.hpp reader")], ["position", "line"])
prop("C22", "Moving a parser transfers the read in progress and leaks nothing",
 "Moving a parser, by construction or assignment and at any moment of the reading, leaves the destination able to deliver exactly the records, header information and selection the source still had; whatever the destination held before is released, and destroying both objects in any order frees everything exactly once.",
 ["histories", "inputs"], "every point of the read at which the move happens, every number of moves",
 "Ownership of buffers and file handles after moves is invisible to value comparisons; tests never check releases.",
 [P_], [("reader moves", "parser.hpp reader move constructor/assignment/destructor")], (), ["get_next", "use_fields"])
prop("C23", "Arbitrary bytes never cause invalid memory access or leaks",
 "For every byte sequence, including NUL bytes, unterminated quotes or escapes and lines of any length, and for every setup, parsing, converting and querying touches only memory the library owns or was given, reads nothing uninitialised, never modifies the caller's constant input, terminates, and releases everything when the objects are destroyed.",
 ["inputs", "configurations"], "every byte sequence, setup and conversion",
 "Memory errors need particular contents at particular sizes and are silent without instrumentation.",
 [S, C, P_, M, X], [("pointer scans", "splitter.hpp"), ("buffer growth", "common.hpp get_line_buffer; parser.hpp realloc_concat, undo_remove_eol"), ("number buffer", "extract.hpp to_num")], (), ["all entry points"])
prop("C24", "The single-header distribution behaves like the modular headers",
 "For every input and setup, the single-header file delivers the same records, values, errors and positions as the modular headers.",
 ["inputs", "configurations"], "every input and setup",
 "The committed single header is only compiled, never run, by the tests.",
 ["ssp.hpp", "include/ss", "script/single_header_generator.py"], [("generated copy", "ssp.hpp")], (), ["get_next", "convert"])
prop("C25", "Floating point columns convert as a whole or fail",
 "Converting a column to a floating point type succeeds only if the entire column, of whatever length, is one decimal floating point number (or infinity or NaN), and yields the value the underlying number parser gives for exactly those characters; empty columns, blanks and trailing characters fail. "
 "This holds with and without the fast float library.",
 ["inputs", "configurations"], "every column text and length",
 "Tests sample a few numbers; length limits of internal buffers and rejection of every partial match are input dependent.",
 [X], [("to_num floating", "extract.hpp to_num (both variants)")], (), ["extract", "convert"])
prop("C26", "Running out of memory is reported cleanly",
 "If an allocation fails at any point of parsing, std::bad_alloc is raised, nothing leaks or is freed twice, and the objects can still be used or destroyed safely (a failure while a line is read ends the reading; what was delivered before stays right); std::bad_alloc is never raised by reading when no allocation failed, whatever happened earlier in the program.",
 ["fault_sequences", "inputs"], "every allocation of every run failing",
 "Allocation failures never occur in the tests.",
 [M, P_], [("strict_realloc", "common.hpp"), ("errno check", "common.hpp get_line"), ("realloc_concat", "parser.hpp")], (), ["get_next", "constructors"])
prop("C27", "Setup options mean the same in any order or nesting",
 "Two setups listing the same options, in any order, directly or packed into a predefined setup, yield parsers and converters with identical behaviour on every input.",
 ["configurations", "inputs"], "every permutation and packing of options, every input",
 "Tests use one order per option set and compare nothing across orders.",
 [T, S, P_], [("option lookup", "setup.hpp get_matcher, get_multiline, setup")], (), ["get_next", "convert"])
prop("C28", "Views into a record stay intact until the next record is read",
 "String views and split column ranges obtained for a record keep designating exactly that record's text until the next record is read, whatever else is queried in between (end of input, line, position, header, field selection, further conversions of the same record).",
 ["histories", "inputs"], "every record content and length and every sequence of queries",
 "Look-ahead has already read the next line when the view is handed out; only aliasing with later buffers would break it, which needs particular sizes.",
 [P_, X], [("buffer swap", "parser.hpp reader::update")], (), ["get_next<std::string_view>"])
prop("C29", "Splitting once and converting many times equals converting directly",
 "Splitting a line and converting the stored split, or the returned split, as any types and as often as wanted gives the same values and errors as converting the line directly; the returned ranges are the columns in order. "
 "Without quoting and escaping the line itself is never modified.",
 ["inputs", "histories"], "every line, delimiter, setup and sequence of conversions",
 "Tests use one or two lines per overload.",
 [C, S], [("cached split", "converter.hpp convert overloads, split")], (), ["split", "convert"])
prop("C30", "An exception raised by user code leaves the parser at the next record",
 "An exception thrown by user code that a read or conversion calls (a validator, an own extraction function, an object's constructor, a callback) reaches the caller unchanged and leaks nothing, and the parser or converter afterwards behaves as if nothing had been thrown: the next read delivers the next record, with the same values, position and end of input; no record is delivered twice or lost.",
 ["inputs", "histories"], "every input and every read at which user code throws",
 "Tests never throw from user code; whether the read-ahead state is consistent depends on the point of the exception and on what follows.",
 [P_, C], [("reading is advanced after the conversion", "parser.hpp get_next, read_line; converter.hpp convert")], (), ["get_next", "convert", "try_next"])
prop("C31", "Distinct parsers and converters do not influence each other",
 "What a parser or converter delivers (records, values, errors, messages, positions, header) depends only on its own input and setup: it is the same whether it is used alone in a fresh program, after other objects, or with calls on other parsers and converters in between in any order. "
 "Distinct objects may be used from different threads at the same time: reading, splitting and converting write no storage that objects share.",
 ["schedules", "histories", "inputs"], "every input, every interleaving of calls on two objects, every schedule of two threads",
 "Tests use one parser at a time in one thread; a shared buffer or cache only shows with two objects in use in a particular order.",
 [P_, C, S, X, M], [("no static or thread-local mutable data", "extract.hpp to_num buffer; common.hpp; exception.hpp; parser.hpp")], (), ["get_next", "convert", "split", "error_msg"])
prop("C32", "Nothing but the data is borrowed from or lent to the caller",
 "A parser or converter keeps its own copy of the delimiter, file name and field names it is given: they may be changed or destroyed right after the call without any effect on later results or messages. "
 "Owning results (strings, exceptions, error messages and headers that were copied) stay as delivered after the line, the parser and the buffers are gone.",
 ["inputs", "histories"], "every input, every argument, every moment at which the argument dies",
 "Tests pass literals and keep everything alive until the end, so a dangling reference never shows.",
 [P_, C, S, "include/ss/exception.hpp"], [("arguments by value", "parser.hpp constructors, use_fields; splitter.hpp delim_; exception.hpp msg_")], (), ["constructors", "use_fields", "convert", "error_msg"])
prop("C33", "Memory stays with the longest record, work with the length of the input",
 "While records are read, skipped, converted or rejected, the memory in use is bounded by the longest record and does not grow with the number of records read. "
 "The work done is proportional to the length of the input, for lines of any length and any content, with any number of columns, escapes, quotes or blanks, whatever came before (for records of a bounded number of lines).",
 ["inputs", "histories", "configurations"], "every repeated content of records, lines and columns, doubled in number",
 "Tests check results, never what a read costs; growth by a few bytes per record or a rescan per column only shows on long inputs.",
 [P_, C, S, M], [("buffers reused for every record", "parser.hpp reader; common.hpp get_line_buffer"), ("each character shifted once", "splitter.hpp shift_and_set_current"), ("list of columns reused", "splitter.hpp split_data_")], (), ["get_next", "try_next", "iterate", "ignore_next"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
