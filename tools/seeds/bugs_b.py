P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
BUGS = [
dict(id='chunk-64k', property='C05',
  needs='a chunk that continues after a slice of 65536 or more bytes',
  breaks='the remaining length of the chunk is wrong, so its end is not found',
  edits=[(P1, 'fn chunk_data(', 'self.length -= bs_available!(context);', 'self.length -= (bs_available!(context) as u32 & 0xFFFF) as usize;')],
  demo=r'''
    let mut d = b"18000\r\n".to_vec();
    d.extend_from_slice(&vec![b'x'; 0x18000]);
    d.extend_from_slice(b"\r\n0\r\n\r\n");
    let whole = h1("chunked", &[&d], &[]);
    same("cut", h1("chunked", &cut(&d, &[7 + 0x10000]), &[]), &whole);
'''),
dict(id='mp-4g', property='C06',
  needs='a part whose content length is 4 GiB or more',
  breaks='the content length is cut to 32 bits, so the boundary is expected too early',
  edits=[(P1, 'fn multipart_detect_data', 'self.length = length;', 'self.length = length as u32 as usize;')],
  demo=r'''
    let mut p = P1::new();
    init(&mut p, "multipart:B");
    let mut log = Log::new();
    log.cl = vec![Some(0x1_0000_0003)];
    same("data", feed1(&mut p, &mut log, &[b"--B\r\n\r\nabc\r\n--B--"]), "[part][headers]data=abc\\r\\n--B--; -> more after 17 (17)");
'''),
dict(id='boundary-stale', property='C08',
  needs='a slice that ends within a look-alike of the boundary, and a real boundary after it',
  breaks='the comparison index survives, so the next boundary is compared from its middle',
  edits=[(P1, 'fn multipart_boundary(', '''                // reset boundary comparison index
                set_upper14!(self, 0);

''', '')],
  demo=r'''
    let d = b"--ABCD\r\n\r\nx\r\n--ABxy\r\n--ABCD--";
    let whole = h1("multipart:ABCD", &[d], &[]);
    for i in 1..d.len() { same("cut", h1("multipart:ABCD", &cut(d, &[i]), &[]), &whole); }
'''),
dict(id='boundary-4k', property='C08',
  needs='a boundary of more than 4095 bytes that is split over slices',
  breaks='the comparison index wraps',
  edits=[(P1, '', 'const UPPER14_MASK: u32 = 0x3FFF;', 'const UPPER14_MASK: u32 = 0xFFF;')],
  demo=r'''
    let b: String = (0..5000).map(|i| (b'a' + (i % 23) as u8) as char).collect();
    let d = format!("--{}\r\n\r\nx\r\n--{}--", b, b).into_bytes();
    let m = format!("multipart:{}", b);
    same("cut", h1(&m, &cut(&d, &[4400]), &[]), &h1(&m, &[&d], &[]));
'''),
dict(id='trailing-crlf', property='C12',
  needs='a finished parser that is offered data which starts with CRLF',
  breaks='the parser consumes an empty line that does not belong to the message',
  edits=[(P1, 'fn finished(', '''        exit_finished!(self, context);''', '''        if context.stream_index == 0 && context.stream.starts_with(b"\\r\\n") {
            bs_jump!(context, 2);
        }

        return Ok(ParserValue::Exit(Success::Finished(context.stream_index)));''')],
  demo=r'''
    let mut p = P1::new();
    init(&mut p, "chunked");
    let mut log = Log::new();
    feed1(&mut p, &mut log, &[b"0\r\n\r\n"]);
    for d in &[&b"x"[..], b"\r\n", b"\r\nGET / HTTP/1.1\r\n", b""] {
        same("after", format!("{:?} {}", p.resume(&mut log, d).unwrap(), p.byte_count()), "Success::Finished(0) 5");
    }
'''),
dict(id='h2-pad7', property='C14',
  needs='a padded frame with 128 or more bytes of padding',
  breaks='padding is delivered as payload',
  edits=[(P2, 'macro_rules! pad_length', '$parser.bit_data32a & 0xFF', '$parser.bit_data32a & 0x7F')],
  demo=r'''
    let mut v = vec![200u8, b'x'];
    v.extend_from_slice(&[0; 200]);
    let mut d = frame(0, 8, 1, &v);
    d.extend_from_slice(&frame(6, 0, 0, b"12345678"));
    same("pad", h2(&[&d], &[]), "[frame 202 0 8 1]data=x;[end][frame 8 6 0 0]ping=12345678;[end] -> 228 (228)");
'''),
dict(id='h2-stop-flags', property='C17',
  needs='an interruption in on_frame_format of a GOAWAY or SETTINGS frame with flags set',
  breaks='the flags leak into the error code or the identifier',
  edits=[(P2, 'fn frame_format_end', '''        } else {
            self.bit_data16a  = 0;
''', '''        } else {
''')],
  demo=r'''
    let d = frame(7, 0x55, 0, &[0, 0, 0, 3, 0, 0, 0, 2]);
    same("stop", h2(&[&d], &[0]), &h2(&[&d], &[]));
'''),
dict(id='format-64k', property='C24',
  needs='a frame format with a payload length of 65536 or more',
  breaks='the payload length is cut to 16 bits',
  edits=[('http2/frame_format.rs', 'fn payload_length', 'self.payload_length_frame_type >> 8', '(self.payload_length_frame_type >> 8) & 0xFFFF')],
  demo=r'''
    same("length", http2::FrameFormat::new(0x123456, 0, 0, 1).payload_length().to_string(), "1193046");
'''),
dict(id='code-high', property='C24',
  needs='an error code of 0x0D to 0x0F or the unsupported code',
  breaks='unassigned error codes are reported as HTTP_1_1_REQUIRED',
  edits=[('http2/error_code.rs', 'pub fn from_u8', 'E_HTTP_1_1_REQUIRED   => ErrorCode::Http11Required,', 'E_HTTP_1_1_REQUIRED ... 0xE => ErrorCode::Http11Required,')],
  demo=r'''
    if http2::ErrorCode::from_u8(0xE) != http2::ErrorCode::Unsupported { std::process::exit(1); }
'''),
dict(id='h2-reset-state', property='C28',
  needs='a reset of an HTTP/2 parser in the middle of a frame',
  breaks='the state of the interrupted frame is still reported',
  edits=[(P2, 'pub fn reset(', '''        self.state          = ParserState::FrameLength1;
''', '')],
  demo=r'''
    let mut p = P2::new();
    let mut log = Log::new();
    feed2(&mut p, &mut log, &[&frame(0, 0, 1, b"abcdef")[..12]]);
    p.reset();
    if p.state() != http2::ParserState::FrameLength1 { std::process::exit(1); }
'''),
dict(id='h2-state-name', property='C28',
  needs='a HEADERS frame with priority that is cut between the stream identifier and the weight',
  breaks='the reported state depends on how the identifier was cut',
  edits=[(P2, 'fn headers_stream_id4', '''            HeadersWeight,
            headers_weight''', '''            HeadersStreamId4,
            headers_weight''')],
  demo=r'''
    let d = frame(1, 0x24, 1, &[0, 0, 0, 3, 7, b'x']);
    let state = |slices: &[&[u8]]| { let mut p = P2::new(); let mut log = Log::new(); feed2(&mut p, &mut log, slices); p.state() };
    let whole = state(&[&d[..13]]);
    if state(&[&d[..9], &d[9..11], &d[11..13]]) != whole || state(&pieces(&d[..13], 1)) != whole { std::process::exit(1); }
'''),
dict(id='print-flags', property='C29',
  needs='flags with PADDED set and PRIORITY clear, or the reverse, printed',
  breaks='the text shows the wrong flag',
  edits=[('http2/flags.rs', 'fn format', 'self.flags & FL_PRIORITY == FL_PRIORITY', 'self.flags & FL_PADDED == FL_PADDED')],
  demo=r'''
    let t = http2::Flags::from_u8(0x20).to_string();
    if !t.contains("priority: true") || !t.contains("padded: false") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='print-status', property='C29',
  needs='a Status error printed',
  breaks='the text names another element',
  edits=[('http1/parser_error.rs', 'ParserError::Status(byte)', '"<ParserError::Status: {}>"', '"<ParserError::StatusCode: {}>"')],
  demo=r'''
    same("text", http1::ParserError::Status(7).to_string(), "<ParserError::Status: 7>");
'''),
dict(id='default-promise', property='C30',
  needs='a handler without on_push_promise and a promised stream with an odd identifier',
  breaks='the missing callback interrupts parsing',
  edits=[('http2/http_handler.rs', 'fn on_push_promise', '        true', '        stream_id & 1 == 0')],
  items=r'''
struct H;
impl http2::HttpHandler for H {}
''',
  demo=r'''
    let mut p = http2::Parser::new();
    let d = frame(5, 4, 1, &[0, 0, 0, 3, b'x']);
    same("result", format!("{:?}", p.resume(&mut H, &d).ok().unwrap()), "Success::Eos(14)");
'''),
dict(id='default-length', property='C30',
  needs='a handler without content_length and a part with data',
  breaks='multipart data is taken to have length 0',
  edits=[('http1/http_handler.rs', 'fn on_multipart_data', '        true', '        !data.is_empty() && data != b"\\r"')],
  items=r'''
struct H;
impl http1::HttpHandler for H {}
''',
  demo=r'''
    let mut p = http1::Parser::new();
    p.init_multipart();
    p.set_boundary(b"B");
    same("result", format!("{:?}", p.resume(&mut H, b"--B\r\n\r\na\rb\r\n--B--").ok().unwrap()), "Success::Finished(17)");
'''),
dict(id='cookie-case', property='C31',
  needs='a Set-Cookie header written in capitals with at least 24 bytes in the slice',
  breaks='its colon becomes part of the value',
  edits=[(P1, 'fn first_header_name', '''                } else if bs_starts_with11!(context, b"Set-Cookie:") {
                    name!(b"set-cookie", 11);''', '''                } else if context.byte == b'S' && context.stream[context.stream_index..][..10].eq_ignore_ascii_case(b"Set-Cookie") {
                    name!(b"set-cookie", if bs_starts_with11!(context, b"Set-Cookie:") { 11 } else { 10 });''')],
  demo=r'''
    same("name", h1("head", &[b"GET / HTTP/1.1\r\nSET-COOKIE: abcdefghijklm\r\n\r\n"], &[]),
         &h1("head", &[b"GET / HTTP/1.1\r\nSet-Cookie: abcdefghijklm\r\n\r\n"], &[]));
'''),
dict(id='h2-stale', property='C32',
  needs='a frame after a frame with fields, such as two WINDOW_UPDATE frames',
  breaks='fields of the earlier frame are mixed into the stream identifier',
  edits=[(P2, 'fn frame_length1', 'self.reset_bit_data();', 'self.bit_data32a = 0;\n        self.bit_data16b = 0;')],
  demo=r'''
    let mut d = frame(8, 0, 1, &[0, 0, 0, 4]);
    d.extend_from_slice(&frame(8, 0, 2, &[0, 0, 0, 8]));
    same("two", h2(&[&d], &[]), "[frame 4 8 0 1][window 4][frame 4 8 0 2][window 8] -> 26 (26)");
'''),
dict(id='part-stale', property='C32',
  needs='a part without content length after a part with one, whose data resembles a delimiter',
  breaks='the look-alike is rejected because the earlier part required a boundary',
  edits=[(P1, 'fn multipart_detect_data', '''        // do not expect boundary since it can be part of the data itself
        set_lower14!(self, 0);
''', '''        // do not expect boundary since it can be part of the data itself
        if self.byte_count == 0 {
            set_lower14!(self, 0);
        }
''')],
  demo=r'''
    let run = |cl: Vec<Option<usize>>, s: &[&[u8]]| {
        let mut p = P1::new();
        init(&mut p, "multipart:B");
        let mut log = Log::new();
        log.cl = cl;
        feed1(&mut p, &mut log, s)
    };
    let d = b"--B\r\n\r\nab\r\n--B\r\n\r\nc\r\n-d\r\n--B--";
    let want = "[part][headers]data=ab;[part][headers]data=c\\r\\n-d;[body] -> Finished after 30 (30)";
    same("whole", run(vec![Some(2), None], &[d]), want);
    same("cut", run(vec![Some(2), None], &cut(d, &[12])), want);
'''),
dict(id='decode-one', property='C18',
  needs='a single literal byte in front of an escape that follows another escape',
  breaks='the literal byte is lost',
  edits=[('util/decode.rs', 'pub fn decode', 'if bs_slice_length!(context) > 1 {', 'if bs_slice_length!(context) > 2 || context.mark_index == 0 {')],
  demo=r'''
    same("text", http_box::util::decode(b"%20a%20").unwrap(), " a ");
'''),
dict(id='field-two-escapes', property='C20',
  needs='two escapes in a row within a quoted value',
  breaks='the second escape is reported with its backslash',
  edits=[('util/field.rs', 'fn next(', '''                                self.value.push(self.context.byte);
''', '''                                let escaped = self.context.byte;

                                self.value.push(escaped);

                                if escaped == b'\\\\' && !bs_is_eos!(self.context) {
                                    bs_next!(self.context);

                                    self.value.push(self.context.byte);
                                }
''')],
  demo=r'''
    let v: Vec<_> = http_box::util::FieldIterator::new(b"a=\"\\\\\\\"x\"", b';', true).collect();
    if v != vec![("a".to_string(), Some("\\\"x".to_string()))] { eprintln!("{:?}", v); std::process::exit(1); }
'''),
dict(id='quoted-del', property='C25',
  needs='the byte 0x7F in a quoted value',
  breaks='DEL is accepted in quoted text',
  edits=[('byte.rs', 'static QUOTED_HEADER_FIELDS', '''// DEL
false,''', '''// DEL
true,''')],
  demo=r'''
    if http_box::byte::is_quoted_header_field(0x7F) { std::process::exit(1); }
'''),
dict(id='version-oob', property='C02',
  needs='a slice that ends exactly before the carriage return after the version',
  breaks='the version comparison reads one byte past the slice',
  edits=[(P1, 'fn request_http1', 'if bs_has_bytes!(context, 9) {', 'if bs_has_bytes!(context, 8) {')],
  demo=r'''
    let d = b"GET / HTTP/1.1\r\n\r\n";
    let whole = h1("head", &[d], &[]);
    same("cut", h1("head", &cut(d, &[14]), &[]), &whole);
'''),
dict(id='url-4g', property='C07',
  needs='a declared length above 4 GiB',
  breaks='the body ends as soon as the remaining length is a multiple of 4 GiB',
  edits=[(P1, 'pub fn resume(', 'if self.length - length == 0 {', 'if (self.length - length) as u32 == 0 {')],
  demo=r'''
    same("more", h1("url:4294967299", &[b"a=b"], &[]), "[pair]un=a;uv=b; -> more after 3 (3)");
'''),
dict(id='count-4g', property='C10',
  needs='more than 4 GiB parsed by one parser',
  breaks='the byte count wraps',
  edits=[(P1, 'fn parse(', '''                    self.byte_count += context.stream_index;
''', '''                    self.byte_count = (self.byte_count as u32).wrapping_add(context.stream_index as u32) as usize;
''')],
  demo=r'''
    let mut p = P1::new();
    init(&mut p, "multipart:B");
    let mut log = Log::new();
    log.cl = vec![Some(1 << 40)];
    feed1(&mut p, &mut log, &[b"--B\r\n\r\n"]);
    let d = vec![0u8; 1 << 28];
    for i in 0..17usize {
        log.ev.clear();
        p.resume(&mut log, &d).unwrap();
        if p.byte_count() != 7 + (i + 1) * d.len() { eprintln!("{} {}", i, p.byte_count()); std::process::exit(1); }
    }
'''),
dict(id='value-32k', property='C23',
  needs='a slice with more than 32768 bytes of one header value',
  breaks='the value is held back until more data arrives',
  edits=[(P1, 'fn header_value(', '''            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_header_value)''', '''            // on end-of-stream
            {
                if bs_slice_length!(context) > 32768 {
                    bs_replay!(context);
                }

                callback_eos_expr!(self, handler, context, on_header_value)
            }''')],
  demo=r'''
    let d = [b"GET / HTTP/1.1\r\na: ".to_vec(), vec![b'x'; 40000]].concat();
    let t = h1("head", &[&d], &[]);
    if !t.ends_with(&format!("x; -> more after {0} ({0})", d.len())) { eprintln!("{}", &t[t.len() - 60..]); std::process::exit(1); }
'''),

dict(id='h2-short-push', property='C16',
  needs='a padded PUSH_PROMISE or HEADERS frame whose padding exceeds its payload by one',
  breaks='the frame is accepted',
  edits=[(P2, 'macro_rules! actual_length', 'payload_length!($parser) - pad_length!($parser)', 'payload_length!($parser).saturating_sub(pad_length!($parser))'),
         (P2, 'macro_rules! parse_payload_data', 'if payload_length!($parser) < pad_length!($parser) {', 'if payload_length!($parser) + 1 < pad_length!($parser) {')],
  demo=r'''
    let mut d = frame(0, 8, 1, &[3, b'x', b'y']);
    d.extend_from_slice(&frame(6, 0, 0, b"12345678"));
    let t = h2(&[&d], &[]);
    if !t.ends_with("failed") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='h2-goaway-swallow', property='C16',
  needs='a GOAWAY frame with a declared length of 1 to 7',
  breaks='the frame is accepted with length 8, so bytes of the next frame are used for it',
  edits=[(P2, 'fn go_away_error_code1', '''            read_u16!(context, self.bit_data16a);
            read_u16!(context, self.bit_data16b);
''', '''            read_u16!(context, self.bit_data16a);
            read_u16!(context, self.bit_data16b);

            if payload_length!(self) < 8 {
                self.bit_data32a = 8 << 8;
            }
'''.replace('read_u16!(context, self.bit_data16b);\n\n', 'read_u16!(context, self.bit_data16b); \n\n'))],
  demo=r'''
    let mut d = frame(7, 0, 0, &[0, 0, 0]);
    d.extend_from_slice(&frame(6, 0, 0, b"12345678"));
    let t = h2(&[&d], &[]);
    if !t.ends_with("failed") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='stop-eos-value', property='C09',
  needs='an interruption by on_chunk_extension_value at the end of a slice within a quoted value',
  breaks='the rest of the quoted value is parsed as unquoted',
  edits=[(P1, 'fn chunk_extension_quoted_value', '''            // on end-of-stream
            callback_eos_expr!(self, handler, context, on_chunk_extension_value)''', '''            // on end-of-stream
            callback!(self, handler, context, on_chunk_extension_value, {
                exit_eos!(self, context);
            }, ChunkExtensionValue, chunk_extension_value)'''),
         ('fsm.rs', 'macro_rules! callback {', 'macro_rules! callback {', '''macro_rules! callback {
    ($parser:expr, $handler:expr, $context:expr, $callback:ident, $exec:expr, $state:ident,
     $state_function:ident) => ({
        if bs_slice_length!($context) > 0 {
            if $handler.$callback(bs_slice!($context)) {
                $exec
            }

            exit_callback!($parser, $context, $state, $state_function);
        }

        $exec
    });
''')],
  demo=r'''
    let d = b"1;a=\"b;c\"\r\nx\r\n0\r\n\r\n";
    let c = cut(d, &[6]);
    same("stop", h1("chunked", &c, &[3]), &h1("chunked", &c, &[]));
'''),
dict(id='stop-version', property='C09',
  needs='an interruption by on_version of a response whose version is parsed byte by byte',
  breaks='the space after the version is expected again',
  edits=[(P1, 'fn response_version_space', '''            if handler.on_version(get_lower14!(self) as u16, get_upper14!(self) as u16) {
                transition!(
                    self,
                    context
                );
            }

            exit_callback!(self, context);''', '''            if handler.on_version(get_lower14!(self) as u16, get_upper14!(self) as u16) {
                transition!(
                    self,
                    context
                );
            }

            exit_callback!(self, context, ResponseVersionSpace, response_version_space);''')],
  demo=r'''
    let d = b"HTTP/1.12 200 OK\r\n\r\n";
    same("stop", h1("head", &[d], &[0]), &h1("head", &[d], &[]));
'''),
dict(id='mp-error-byte', property='C11',
  needs='multipart data with a known length that is followed by CR and something other than LF',
  breaks='the error carries the carriage return instead of the offending byte',
  edits=[(P1, 'fn multipart_data_by_length_lf', '''        Err(ParserError::MultipartBoundary(context.byte))''', '''        Err(ParserError::MultipartBoundary(b'\\r'))''')],
  demo=r'''
    let mut p = P1::new();
    init(&mut p, "multipart:B");
    let mut log = Log::new();
    log.cl = vec![Some(3)];
    same("error", feed1(&mut p, &mut log, &[b"--B\r\n\r\nabc\rx"]), "[part][headers]data=abc; -> <ParserError::MultipartBoundary: 120> after 12");
'''),
dict(id='trailer-kind', property='C11',
  needs='a CR that is not followed by LF at the end of the trailers',
  breaks='the error names the header name',
  edits=[(P1, 'fn header_lf2', 'Err(ParserError::CrlfSequence(context.byte))', 'Err(if let ParserType::Chunked = self.parser_type { ParserError::HeaderName(context.byte) } else { ParserError::CrlfSequence(context.byte) })')],
  demo=r'''
    same("error", h1("chunked", &[b"0\r\na: b\r\n\rx"], &[]), "[chunk][len 0]hn=a;hv=b; -> <ParserError::CrlfSequence: 120> after 11");
'''),
dict(id='field-slash', property='C20',
  needs='a parameter name with a slash followed by more name and a value',
  breaks='the slash is lost',
  edits=[('util/field.rs', 'fn next(', '''                    self.name.push(b'/');''', '''                    if self.name.len() < 32 {
                        self.name.push(b'/');
                    }''')],
  demo=r'''
    let v: Vec<_> = http_box::util::FieldIterator::new(b"application/vnd.a.very.long.name.of.a.type/x", b';', true).collect();
    if v.len() != 1 || v[0].0 != "application/vnd.a.very.long.name.of.a.type/x" { eprintln!("{:?}", v); std::process::exit(1); }
'''),
dict(id='exts-eos', property='C22',
  needs='a chunk whose extension ends exactly at the end of a slice',
  breaks='the end of the extensions is not reported',
  edits=[(P1, 'fn chunk_extension_finished', '''        if context.byte == b'\\r' {
            set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);''', '''        if context.byte == b'\\r' {
            if bs_available!(context) == 0 {
                set_state!(self, ChunkLengthLf, chunk_length_lf);
            } else {
                set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);
            }''')],
  demo=r'''
    let d = b"1;a=b\r\nx\r\n0\r\n\r\n";
    same("cut", h1("chunked", &cut(d, &[6]), &[]), &h1("chunked", &[d], &[]));
'''),
]
