#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=None)))
H1='src/http1/parser.rs'; H2='src/http2/parser.rs'; FSM='src/fsm.rs'; COL='src/collect.rs'; BY='src/byte.rs'
UT='src/util/mod.rs'
R1=['http1::Parser::resume return value and byte_count()','http1::HttpHandler callbacks']
R2=['http2::Parser::resume return value and byte_count()','http2::HttpHandler callbacks']
st1=[('bit_data','flags, version, hex digits, boundary index',H1),('length','remaining chunk / part / body bytes',H1),('state_function','current state',H1)]
st2=[('bit_data32a','remaining payload length and frame type / pad length',H2),('bit_data32b','32-bit field being read',H2)]

prop('C01','No input, fragmentation or handler reply makes the library crash or hang',
 'For every byte sequence, every way of cutting it into slices (empty ones included) and every sequence of handler replies, each call into the HTTP/1 parser, the HTTP/2 parser and the utilities returns normally: no panic, no arithmetic overflow, no abort, no endless loop. Every call ends with one of the documented results, and calls that do not consume input cannot repeat forever when the handler keeps replying true.',
 ['inputs','histories','configurations'],'all bytes, all fragmentations, all handler replies, all parser modes, all (mis)declared lengths, debug-assertion and overflow-checked builds',
 'The unit tests feed a few hundred hand-written strings, mostly ASCII and mostly whole or byte by byte; no test feeds byte 0xFF, hostile HTTP/2 lengths or handlers that interrupt everywhere.',
 [H1,H2,COL,BY,'src/util/decode.rs','src/util/query.rs','src/util/field.rs'],
 [('state functions check availability before reading',H1),('checked payload decrements',H2),('256-entry byte class tables',BY)],R1+R2+['util::decode, QueryIterator, FieldIterator'])
prop('C02','Parsing never reads or writes outside the bytes it was given',
 'Whatever the input, slice boundaries and handler replies, the library never reads outside the slices handed to it, never uses uninitialised or freed memory and never triggers undefined behaviour. This holds for slices of any length, down to the empty slice, wherever they lie in memory.',
 ['inputs','histories','configurations'],'all inputs and all slice boundaries around the multi-byte comparisons used by the fast paths, in every parser mode',
 'Out-of-bounds reads of a few bytes past a slice are invisible to a normal test run: they return whatever lies there; only instrumented runs on exactly sized allocations reveal them.',
 [H1,H2,COL,'src/util/field.rs'],[('bs_has_bytes! guards before unchecked bs_starts_withN! reads',H1),('consume_linear_space!/consume_spaces! availability checks',COL)],['AddressSanitizer reports','Miri reports','slices ending or starting at inaccessible pages'])
prop('C03','HTTP/1 head parsing does not depend on how the input is split',
 'For every request or response head, valid or not, the sequence of callbacks with adjacent pieces of one item joined, the final result, the number of bytes consumed and the reported error are the same however the bytes are split into slices. The only freedom is how an item is cut into pieces.',
 ['inputs','schedules'],'all heads and all splits, in particular splits inside every token and at the 8, 9 and 24 byte look-ahead limits of the fast paths',
 'Tests parse each sample once whole or once byte by byte; a head of n bytes has 2^(n-1) splits, and the fast and slow paths meet only at particular split points.',
 [H1,FSM,COL],[('response detection falls back to the method token',H1),('fast paths require bs_has_bytes!, otherwise per-byte states',H1),('pending slices delivered at end of stream',FSM)],R1,st1)
prop('C04','HTTP/1 heads are reported exactly as written on the wire',
 'For every well-formed request or response head the handler receives exactly the method, URL, version, status code, reason, header names (ASCII letters lower-cased) and header values (folded lines appended, quotes and escapes kept) that the head contains, in order, with nothing missing, added or altered. Header names get the same treatment whether or not they are among the well-known ones, and versions up to three digits and status codes up to 999 are exact.',
 ['inputs'],'all well-formed heads: every method, version, status code, header name, header value byte, folding and quoting, fed in any fragmentation',
 'Tests use a few fixed heads; the well-known header and method tables, the version arithmetic and the quoting states interact with byte positions no sample reaches.',
 [H1,COL,BY],[('detect / request / response / header states',H1),('token and field collection',COL)],R1,st1)
prop('C05','Chunked bodies are decoded exactly',
 'For every chunked body the handler receives each chunk\'s announced length, extensions (names lower-cased, quoted values unescaped) and exactly that many data bytes, in order, and then the trailers; chunk sizes of up to eight hexadecimal digits are exact in either letter case. Parsing finishes right after the blank line that follows the last chunk and its trailers, whether or not the last chunk carries extensions.',
 ['inputs','schedules'],'all chunk sizes from 0 to FFFFFFFF, all data bytes (CR, LF and look-alike chunk headers included), all extension and trailer shapes, all fragmentations',
 'Tests cover single small chunks; sizes above a few bytes, data that looks like framing, extensions on the last chunk and splits inside size lines are not sampled.',
 [H1,COL],[('chunk length / extension / data states',H1)],R1,st1)
prop('C06','Multipart bodies are split exactly at the boundary',
 'For every multipart body and boundary, each part\'s headers and data are reported exactly as sent: data ends precisely before the CRLF that introduces the boundary, and data that merely resembles a delimiter (stray CR or LF, dashes, boundary prefixes) is delivered unchanged and never hides a real delimiter after it. When the handler supplies a content length, exactly that many bytes are data whatever they contain, and a missing delimiter after them is an error.',
 ['inputs','schedules','configurations'],'all boundaries, all part data including every partial delimiter, all content-length replies, all fragmentations',
 'Tests use one boundary and tame data; the number of near-miss delimiters and of split points inside them is unbounded.',
 [H1],[('boundary matching states and replay of the mismatching byte',H1)],R1+['http1::HttpHandler::content_length replies'],st1)
prop('C07','URL encoded bodies are decoded exactly and bounded by their length',
 'For every URL encoded body and every declared length, the handler receives each pair\'s decoded name and value (escapes and plus signs decoded, both pair separators honoured) exactly, in order, with a begin notification per pair, and the parser consumes exactly the declared number of bytes however much more is offered. A body that is malformed, or that ends inside an escape, is reported as an error.',
 ['inputs','schedules','configurations'],'all bodies, all declared lengths including zero and lengths shorter or longer than the slices, all fragmentations, all 256 escape values',
 'Tests decode a few fixed pairs with the exact length; truncation against the length, all escapes and splits inside escapes are not sampled.',
 [H1,COL],[('URL encoded states',H1),('length bookkeeping in resume()',H1)],R1,st1)
prop('C08','Body parsing does not depend on how the input is split',
 'For chunked, multipart and URL encoded bodies, valid or not, the callbacks with adjacent pieces of one item joined, the final result, the number of bytes consumed and the kind of error are the same however the bytes are split into slices.',
 ['inputs','schedules'],'all bodies and all splits, including empty slices and splits inside sizes, delimiters, escapes and extensions',
 'Each sample body is parsed in one or two of exponentially many splits.',
 [H1,FSM,COL],[('every state can stop and resume at any byte',H1),('boundary index kept across slices',H1)],R1,st1)
prop('C09','A handler can interrupt at any callback and resume without loss',
 'When a callback replies false, parsing stops before any further callback and reports how many bytes of the slice are done; continuing with the rest of the slice yields exactly the callbacks and result of an uninterrupted run, with nothing repeated or lost. This holds for every callback, every set of interruptions and every fragmentation, in every HTTP/1 mode.',
 ['schedules','histories','inputs'],'every subset of callbacks interrupted (each single one, all of them, random subsets), combined with all fragmentations',
 'Tests interrupt single callbacks on short inputs and rarely continue afterwards.',
 [H1,FSM],[('state is set before the callback runs',FSM),('exit_callback! reports the stream position',FSM)],R1,st1)
prop('C10','Byte accounting is exact and nothing beyond the message is consumed',
 'In every HTTP/1 mode, the count in each result never exceeds the slice, equals the slice length when more data is expected, and the parser\'s running byte count is always the sum of these counts. A finished parse has consumed exactly the message, so bytes of a following message are left for the caller, who can parse pipelined messages one after another.',
 ['inputs','histories'],'all messages followed by arbitrary trailing bytes, all fragmentations and interruptions, sequences of pipelined messages on one parser',
 'Tests check counts for single complete samples; trailing data, interruptions and sequences of messages are not combined.',
 [H1,FSM],[('byte_count updated once per resume()',H1),('exit macros report stream_index',FSM)],R1)
prop('C11','Errors name the right element, byte and position',
 'Every malformed HTTP/1 input is rejected with the error kind of the element that is malformed, and the error carries the offending byte, which is the last byte counted as consumed. Everything before the malformed element has been delivered to the handler, nothing after it is, and well-formed input is never rejected.',
 ['inputs','schedules'],'every byte value at every position of every kind of message, in all fragmentations',
 'Tests check a few bad bytes per element; the accept and reject sets per state are 256 bytes wide and depend on fast and slow paths.',
 [H1,COL,BY,'src/http1/parser_error.rs'],[('exit_error! with the current byte',FSM),('byte class tables',BY)],R1)
prop('C12','Finished and failed parsers stay that way',
 'After a parser has finished or failed, every further call with any data reports finished with zero bytes, or dead, invokes no callback and changes no byte count, until the parser is initialised again. This holds for HTTP/1 in every mode and for failed HTTP/2 parsers.',
 ['histories','inputs'],'every way to finish or fail, followed by any sequence of calls',
 'Tests stop at the first terminal result.',
 [H1,H2],[('dead and finished states',H1),('dead state',H2)],R1+R2)
prop('C13','A re-initialised parser behaves like a new one',
 'After any history (partial, interrupted, finished or failed input in any mode, or a callback that panicked), initialising or resetting a parser and supplying its parameters makes it treat the next message exactly like a freshly created and equally initialised parser, apart from the HTTP/1 running byte count.',
 ['histories'],'all pairs of an arbitrary prior history and a following message, in all modes, HTTP/1 and HTTP/2',
 'Tests create a new parser for nearly every case; leftover internal state needs a particular earlier history to matter.',
 [H1,H2],[('reset() and init_*()',H1),('reset()',H2)],R1+R2,st1+st2)
prop('C14','HTTP/2 frames are reported exactly',
 'For every sequence of well-formed HTTP/2 frames the handler receives each frame\'s length, type, flags and 31-bit stream identifier, and then exactly its content: priority fields, error codes, each setting, promised stream, last stream, window increment and payload with padding removed. Reserved bits are masked, payload callbacks mark the last piece of each payload exactly once, and each frame occupies exactly its declared length so the next frame is found.',
 ['inputs','histories'],'all frame types 0-255, all flags, lengths up to 2^24-1, all pad lengths and field values, frames in any sequence',
 'Tests parse one frame each, whole, with one or two field values; multi-frame streams, empty payloads, padding limits and large frames are not covered.',
 [H2],[('frame states',H2),('parse_payload_data! and padding states',H2)],R2,st2)
prop('C15','HTTP/2 parsing does not depend on how the input is split',
 'For every HTTP/2 byte stream the callbacks with adjacent pieces of one payload joined, the consumed bytes and failure are the same however the stream is split into slices, empty slices included.',
 ['inputs','schedules'],'all streams and all splits, in particular inside every multi-byte field',
 'All HTTP/2 unit tests pass complete frames in one slice.',
 [H2],[('byte-wise field states used when fewer bytes are available',H2)],R2,st2)
prop('C16','Malformed HTTP/2 lengths are rejected, never misread',
 'A frame whose declared length is too short for its mandatory fields or whose padding exceeds its payload makes the parser fail: no payload byte of it is delivered, and no byte of it is taken for another frame or another frame\'s bytes for it. Frames before it are unaffected, and surplus bytes of fixed-size frames are skipped.',
 ['inputs'],'all frame types with all too-short lengths and all excessive pad lengths, at any position in a stream and in any fragmentation',
 'No test uses inconsistent lengths.',
 [H2],[('dec_payload_length! check',H2),('pad length check in parse_payload_data!',H2)],R2,st2)
prop('C17','HTTP/2 parsing can be interrupted anywhere and counts bytes exactly',
 'When an HTTP/2 callback replies false, parsing stops before any further callback and reports the bytes done; continuing with the rest yields exactly the callbacks of an uninterrupted run. Counts never exceed the slice, equal its length when more data is expected, and add up to the running byte count.',
 ['schedules','histories','inputs'],'every single callback and random subsets interrupted, on all frame sequences and fragmentations',
 'No unit test interrupts HTTP/2 parsing and continues.',
 [H2,FSM],[('state is set before the callback',H2),('exit_callback!',FSM)],R2,st2)
prop('C18','decode() inverts URL encoding exactly',
 'decode() returns exactly the text denoted by its input (visible bytes literally, plus as space, each two-digit escape as its byte) when that is valid UTF-8. Any other input (an invisible or non-ASCII byte, an incomplete or non-hexadecimal escape) is an error that carries the offending byte, never a wrong string.',
 ['inputs'],'all byte strings: all 65536 two-byte escapes, all single bytes in all positions, all truncations',
 'Tests decode a handful of strings.',
 ['src/util/decode.rs',COL],[('collect_hex8!',COL),('decode()','src/util/decode.rs')],['util::decode result'])
prop('C19','Query iteration yields every pair exactly',
 'Iterating a query string yields each name and optional value in order, decoded exactly as written, with & and ; both separating pairs, a missing value distinguished from an empty one, and escapes and plus signs decoded in both names and values. Malformed input is reported once through the error callback, with the right kind and byte, and ends the iteration for good. All of this holds however the iterator is driven (next, nth, skip, count, last, fold, a size hint in between).',
 ['inputs'],'all byte strings, with and without an error callback, including calls after the end',
 'Tests iterate a few well-formed queries.',
 ['src/util/query.rs',COL,UT],[('QueryIterator::next','src/util/query.rs'),('collect_hex8_iter!',COL)],['QueryIterator items and error callback'])
prop('C20','Header field iteration yields every parameter exactly',
 'Iterating a header field yields each parameter name and optional value in order, exactly as written: surrounding quotes removed and escapes resolved, leading white space skipped, names lower-cased only when asked. Malformed input is reported once through the error callback, with the right kind and byte, and ends the iteration for good. All of this holds however the iterator is driven (next, nth, skip, count, last, fold, a size hint in between).',
 ['inputs','configurations'],'all byte strings, both normalisation settings, the delimiters in common use',
 'Tests iterate a few well-formed fields.',
 ['src/util/field.rs',COL,UT,BY],[('FieldIterator::next','src/util/field.rs')],['FieldIterator items and error callback'])
prop('C21','Every String the utilities return is valid UTF-8',
 'No input makes decode(), query iteration or field iteration hand out a String whose bytes are not valid UTF-8; input that would decode to such bytes is reported as an error instead of being altered.',
 ['inputs'],'all inputs with escapes or bytes from 0x80 to 0xFF: every invalid, overlong, truncated and surrogate encoding, in names and values',
 'No test uses a byte above 0x7F.',
 ['src/util/decode.rs','src/util/query.rs','src/util/field.rs',UT],[('String::from_utf8 on all results',UT)],['bytes of the returned Strings'])
prop('C22','HTTP/1 callbacks follow the documented protocol',
 'On every input, callbacks occur only in the documented order: an initial line before headers, a name before each value, begin and length before chunk data, exactly the announced number of data bytes per chunk, headers before part data, and each finish notification exactly once and last. No callback follows a finish notification of the whole message or an error.',
 ['inputs','schedules','histories'],'all inputs, valid or hostile, all fragmentations and interruptions',
 'Tests look at the collected values, not at the order of callbacks, and only on well-formed samples.',
 [H1,'src/http1/http_handler.rs'],[('state transitions around callbacks',H1)],['http1::HttpHandler callback order'])
prop('C23','Data is delivered as it arrives and nothing is buffered',
 'Whenever a parser asks for more data, everything that the bytes received so far determine has already been delivered, except bytes that could still become part of a response prefix or a multipart delimiter. The memory a parser uses does not grow with the amount of data parsed, in HTTP/1 and HTTP/2. Nothing is left in memory when parsers and utilities have been used and dropped any number of times.',
 ['inputs','schedules'],'after every slice of every message, in all fragmentations; bodies up to gigabytes in declared size',
 'Tests look at the handler only after the whole sample was parsed and do not measure memory.',
 [H1,H2,FSM],[('callback_eos_expr! at every end of stream',FSM),('fixed-size parser structs',H1)],R1+R2+['a counting global allocator'])
prop('C24','HTTP/2 codes, flags and settings map as in the HTTP/2 specification',
 'Frame types, error codes, flags, settings and frame formats built from wire values identify exactly the element that RFC 7540 assigns to that value, return the original value, answer their predicates consistently, and map every unassigned value to the unsupported element.',
 ['inputs'],'all 256 frame types, error codes and flag bytes, all 65536 setting identifiers, frame formats over the full 24- and 31-bit ranges',
 'Tests touch a few values through the parser; most mappings and predicates are never called.',
 ['src/http2/frame_type.rs','src/http2/error_code.rs','src/http2/flags.rs','src/http2/setting.rs','src/http2/frame_format.rs'],[('from_u8 / as_byte / is_* / new','src/http2')],['public methods of FrameType, ErrorCode, Flags, Setting, FrameFormat'])
prop('C25','Byte classes agree with the HTTP grammar for every byte',
 'For each of the 256 byte values, the public classification functions answer as the HTTP/1.1 grammar does for tokens, unquoted field text and quoted field text, and the parser accepts or rejects that byte accordingly wherever the grammar uses the class.',
 ['inputs'],'all 256 bytes, in each syntactic position that uses a class',
 'The classification functions have no tests; parser tests use loops over a few classes only.',
 [BY,COL,H1],[('HEADER_FIELDS, QUOTED_HEADER_FIELDS, TOKENS tables',BY)],['byte::is_token, is_header_field, is_quoted_header_field','HTTP/1 parser acceptance'])
prop('C26','Parser instances are independent',
 'Any number of parsers and iterators used in any interleaving, on one thread or on many, each behave as if used alone. So does a parser that is moved in memory or handed to another thread between two calls.',
 ['schedules','histories'],'all interleavings of calls on several instances in different modes, sequentially and on concurrent threads',
 'Tests use one parser at a time.',
 [H1,H2,'src/util/query.rs','src/util/field.rs',BY],[('all state lives in the instance; only constant tables are shared',H1)],R1+R2)
prop('C27','Parsing cost is linear in the input',
 'The work done for an input grows at most linearly with its length, and the number of callbacks is at most proportional to the bytes consumed, for every shape of input and every fragmentation, hostile repetition included.',
 ['inputs','schedules'],'hostile families (near-miss delimiters, escapes, tiny tokens, one-byte slices, huge tokens) at doubling sizes',
 'Tests are too small for super-linear behaviour to show and do not measure work.',
 [H1,H2,FSM,COL,UT],[('each byte is consumed once, replay is at most one byte',H1)],['instruction counts under callgrind','callback counts'])
prop('C28','The reported parser state is truthful',
 'A parser reports the dead state exactly when its last call failed, the finished state exactly when it finished (or its last callback interrupted it) and neither otherwise, and stays there on further calls. A parser that was created, initialised for a mode or reset reports the initial state of its mode, whatever was parsed before. The state reported at the end of the input depends on the input only, not on how it was sliced or interrupted. HTTP/1 and HTTP/2.',
 ['histories','schedules','inputs'],'after every call on every input, fragmentation and reply; init_* and reset() after every prefix of every template',
 'Tests assert the state at hand-picked points of uninterrupted runs.',
 [H1,H2,FSM,'src/http1/parser_state.rs','src/http2/parser_state.rs'],[('set_state! and the state kept beside state_function',FSM),('parse() marks dead and finished',H1),('reset()',H1)],['http1::Parser::state()','http2::Parser::state()'])
prop('C29','Printed values identify themselves',
 'The Display and Debug texts of every error, result, frame type, error code, setting, flag set and frame format name the variant they are and carry exactly the byte, length, value or flags that the value holds, so that logs tell what happened; printing never fails.',
 ['inputs'],'all variants with all 256 bytes, lengths and 32-bit values at the edges of their range and random, all 256 flag bytes, frame formats, and errors returned by real runs',
 'No test prints any of the values.',
 ['src/http1/parser_error.rs',H2,FSM,'src/http2/flags.rs','src/http2/frame_format.rs','src/http2/frame_type.rs','src/http2/error_code.rs','src/http2/setting.rs','src/util/decode.rs','src/util/field.rs','src/util/query.rs'],[('format() of each type','src')],['Display and Debug of the public types'])
prop('C30','Handler callbacks are optional',
 'A handler that implements none or only some of the HTTP/1 or HTTP/2 callbacks leads to exactly the results, consumed bytes and (for the callbacks it has) notifications that a handler leads to which implements all of them and replies true; the callbacks it lacks never interrupt parsing, and no content length is assumed for multipart data.',
 ['inputs','schedules','configurations'],'handlers with no callback, each half of the callbacks, with and without interruptions, in every mode on every input',
 'Tests use handlers that implement every callback.',
 ['src/http1/http_handler.rs','src/http2/http_handler.rs',H1,H2],[('default methods of the handler traits','src/http1/http_handler.rs')],R1+R2)
prop('C31','Equivalent encodings are reported alike',
 'Inputs that mean the same are reported the same: a header block in a request, a response, chunked trailers or a multipart section (well-formed or not); header and extension names in any letter case; chunk sizes in any letter case and with leading zeros; chunked data cut into other chunks; parts under another boundary or with their content length known; frames with other padding; a URL encoded text as body, as query string and in the decoder; optional white space around header values and chunk extensions in any mix of spaces and tabs; header values continued on further lines with a space or a tab; parameters under another delimiter or with other optional white space.',
 ['inputs','configurations'],'random pairs of equivalent encodings, each in its own fragmentation and with its own interruptions',
 'Tests check each construct in one place and one spelling.',
 [H1,H2,'src/util/query.rs','src/util/field.rs','src/util/decode.rs'],[('header states shared by heads, trailers and parts',H1)],R1+R2+['util::decode, QueryIterator, FieldIterator'])
prop('C32','Each element is reported independently of the elements before it',
 'A sequence of header lines, trailers, chunks, multipart sections, URL encoded pairs or HTTP/2 frames is reported as the concatenation of what each element is reported as when it is alone, for any order, repetition and number of elements.',
 ['inputs','histories'],'random sequences of 2 to 400 elements, in every fragmentation and with interruptions',
 'Tests use one to three elements, so flags and counters that leak from one element into the next go unseen.',
 [H1,H2],[('bit_data, length and boundary index reset between elements',H1),('bit_data32a/b reset between frames',H2)],R1+R2,st1+st2)
prop('C33','Payload is lent from the caller\'s slice, in order and without copies',
 'The library hands data to the handler without copying it (zero copy): every piece of a URL, status text, header value, chunk, part or frame payload given to a callback lies inside the slice passed to that call, the pieces of one call follow each other without overlap, and none reaches beyond the bytes the call counts as consumed. Only names (which are normalised), single bytes that were decoded or unescaped, and held-back bytes of what looked like a multipart delimiter may come from elsewhere.',
 ['inputs','schedules','histories'],'all messages and frames, all cuts and interruptions, pieces from zero bytes to megabytes',
 'Tests compare the contents of what was delivered, never where it lies: a copy, a stale buffer with equal contents or a piece that reaches beyond the consumed bytes looks the same to them.',
 [H1,H2,FSM,COL],[('bs_slice! pieces between mark and stream index',FSM),('payload states hand out the available part of the slice',H2)],R1+R2+['addresses of the slices passed to callbacks'])
prop('C34','Public values compare equal exactly when they are the same',
 'Two errors, results, frame types, error codes, flag sets, frame formats or parser states compare equal exactly when they are the same variant and carry the same byte, length, number or flags; == and != are opposites and symmetric; copies and clones equal their originals; and the listing of message states compares in the order in which it is documented.',
 ['inputs'],'all pairs of errors with all bytes, all pairs of codes and flags, lengths and frame formats that differ in one bit, and results, errors and states gathered from runs in every mode',
 'Tests compare values through their printed form or with constants that differ in the variant; equality is what callers and the tests themselves decide with.',
 ['src/fsm.rs','src/http1/parser_error.rs','src/http1/parser_state.rs','src/http2/parser_state.rs','src/http2/error_code.rs','src/http2/frame_type.rs','src/http2/flags.rs','src/http2/frame_format.rs',H2],[('PartialEq, Clone and Copy of the public types','src')],['== and != on public values'])
prop('C35','The same bytes mean the same on every kind of machine',
 'Parsers and utilities report the same elements, numbers, errors and byte counts whatever the byte order and pointer width of the machine they run on: multi-byte numbers of HTTP/2 frames are read in network order on little- and big-endian machines, and lengths, counts and decoded values do not depend on the size of a machine word.',
 ['inputs','configurations'],'messages, frames, numbers and texts of every kind in all cuts, on a 64-bit big-endian and on a 32-bit little-endian machine as well as on the one at hand',
 'The tests run on the machine of the developer only.',
 [H1,H2,'src/util','src/http2/frame_format.rs','src/http2/setting.rs'],[('read_u16!, read_u32! and the byte-wise states of frame numbers',H2),('chunk length and byte counts in usize',H1)],R1+R2+['decode()','FieldIterator','QueryIterator'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
