P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
BUGS = [
dict(id='h2-type-high', property='C14',
  needs='a frame whose type is 128 plus a known one',
  breaks='it is read as the known type',
  edits=[(P2, 'fn frame_format_end(', 'match (self.bit_data32a & 0xFF) as u8 {', 'match (self.bit_data32a & 0x7F) as u8 {')],
  demo=r'''
    same("type", h2(&[&frame(0x88, 0, 0, b"\0\0\0\x05")], &[]), "[frame 4 136 0 0]unsupported=\\x00\\x00\\x00\\x05;[end] -> 13 (13)");
'''),
dict(id='h2-code-top', property='C15',
  needs='a GOAWAY error code with its top bit set, in a slice that ends after its first byte',
  breaks='the top bit is lost',
  edits=[(P2, 'fn go_away_error_code2(', 'self.bit_data16a |= get_u8!(context) as u16;', 'self.bit_data16a = self.bit_data16a & 0x7F00 | get_u8!(context) as u16;')],
  demo=r'''
    let d = frame(7, 0, 0, b"\0\0\0\x05\x81\x02\x03\x04");
    let whole = h2(&[&d], &[]);
    for i in 1..d.len() { same("cut", h2(&cut(&d, &[i]), &[]), &whole); }
'''),
dict(id='h2-short-priority', property='C16',
  needs='a padded HEADERS frame with priority fields that ends within these fields',
  breaks='the frame is accepted, and bytes of the next frame are taken for the fields',
  edits=[(P2, 'fn headers_weight(', '''        dec_payload_length!(self, 5);
''', '''        let length = if pad_length!(self) > 0 && payload_length!(self) > pad_length!(self) {
            ::std::cmp::min(payload_length!(self) - pad_length!(self), 5)
        } else {
            5
        };

        dec_payload_length!(self, length);
''')],
  demo=r'''
    let t = h2(&[&frame(1, 0x28, 1, b"\x01\0\0\0\x05"), b"\x00\x00\x00\x04\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"], &[]);
    if !t.ends_with("failed") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='h2-stop-rest', property='C17',
  needs='an interruption by on_priority of a frame that is longer than its fields',
  breaks='the rest of the frame is read as the next frame',
  edits=[(P2, 'fn priority_weight(', '''        exit_callback!(
            self,
            context,
            FrameLength1,
            frame_end
        );
''', '''        if pad_length!(self) > 0 {
            set_state!(self, FrameLength1, frame_end);
        } else {
            set_state!(self, FrameLength1, frame_length1);
        }

        exit_callback!(self, context);
''')],
  demo=r'''
    let mut d = frame(2, 0, 1, b"\0\0\0\x05\x10ab");
    d.extend(frame(3, 0, 1, b"\0\0\0\x02"));
    same("stop", h2(&[&d], &[1]), &h2(&[&d], &[]));
'''),
dict(id='name-after-common', property='C32',
  needs='a header with one of the well-known names, then a header line continued, then a name with an upper-case letter within it',
  breaks='the letter is not lower-cased',
  edits=[(P1, 'fn check_header_name(', '''        if context.byte == b' ' || context.byte == b'\\t' {
''', '''        if context.byte == b'\\t' || context.byte == b' ' {
            set_upper14!(self, 0x2A5A);
'''), (P1, 'fn upper_header_name(', '''                &[context.byte + 0x20],
''', '''                &[context.byte + if get_upper14!(self) == 0x2A5A { 0 } else { 0x20 }],
''')],
  demo=r'''
    same("names", h1("head", &[b"GET / HTTP/1.1\r\na: b\r\n\tc\r\nfOo: d\r\n\r\n"], &[]),
         "method=GET;url=/;[v1.1][initial]hn=a;hv=bc;hn=foo;hv=d;[headers] -> Finished after 36 (36)");
'''),
dict(id='query-empty-pair', property='C19',
  needs='an empty pair after a pair whose name is escaped',
  breaks='iteration ends with an error',
  edits=[('util/query.rs', 'fn next(', 'if self.context.stream_index == 1 {', 'if self.context.stream_index == 1 || (self.name.is_empty() && self.name.capacity() > 8) {')],
  demo=r'''
    let n = http_box::util::QueryIterator::new(b"abcdefghi=1&=2&c=3").count();
    let m = http_box::util::QueryIterator::new(b"a=1&=2&c=3").count();
    if n != m { eprintln!("{} {}", n, m); std::process::exit(1); }
'''),

dict(id='url-dots', property='C04',
  needs='a URL that contains "/../"',
  breaks='the request is rejected, although the URL is visible bytes',
  edits=[(P1, 'fn request_url2(', '''        if context.byte == b' ' {
            callback_ignore_transition!(
''', '''        if context.byte == b' ' && !bs_slice!(context).windows(4).any(|w| w == b"/../") {
            callback_ignore_transition!(
''')],
  demo=r'''
    same("url", h1("head", &[b"GET /a/../b HTTP/1.1\r\n\r\n"], &[]), "method=GET;url=/a/../b;[v1.1][initial][headers] -> Finished after 24 (24)");
'''),
dict(id='http-proxy', property='C04',
  needs='a header named Proxy in lower case, its name and colon in one slice',
  breaks='the message is rejected',
  edits=[(P1, 'fn lower_header_name(', '''        } else if context.byte == b':' {
            callback_ignore_transition!(
''', '''        } else if context.byte == b':' && bs_slice!(context) != b"proxy:" {
            callback_ignore_transition!(
''')],
  demo=r'''
    same("proxy", h1("head", &[b"GET / HTTP/1.1\r\nproxy: a\r\n\r\n"], &[]), "method=GET;url=/;[v1.1][initial]hn=proxy;hv=a;[headers] -> Finished after 28 (28)");
'''),
dict(id='upgrade-101', property='C11',
  needs='a response with status code 101 and a status that starts with S',
  breaks='the message is rejected',
  edits=[(P1, 'fn response_status1(', '''        if context.byte > 0x1F && context.byte != 0x7F {
''', '''        if context.byte > 0x1F && context.byte != 0x7F && (context.byte != b'S' || get_lower14!(self) != 101) {
''')],
  demo=r'''
    same("status", h1("head", &[b"HTTP/1.1 101 Switching\r\n\r\n"], &[]), "[v1.1][code 101]status=Switching;[initial][headers] -> Finished after 26 (26)");
'''),
dict(id='decode-bom', property='C18',
  needs='an escaped byte order mark at the start and a plus sign after it',
  breaks='the plus sign is rejected',
  edits=[('util/decode.rs', 'pub fn decode(', '''        if context.byte == b'+' {
            submit!(bytes, b" ");
''', '''        if context.byte == b'+' && bytes != b"\\xEF\\xBB\\xBF" {
            submit!(bytes, b" ");
''')],
  demo=r'''
    let s = http_box::util::decode(b"%ef%bb%bf+b").unwrap_or(String::new());
    if s.len() != 5 { eprintln!("{:?}", s); std::process::exit(1); }
'''),
dict(id='settings-window', property='C14',
  needs='the setting SETTINGS_INITIAL_WINDOW_SIZE with a value over 0x7FFFFFFF',
  breaks='another value is reported',
  edits=[(P2, 'fn settings_callback(', 'handler.on_settings(self.bit_data16a, self.bit_data32b)', 'handler.on_settings(self.bit_data16a, value)'), (P2, 'fn settings_callback(', '''        dec_payload_length!(self, 6);
''', '''        dec_payload_length!(self, 6);

        let value = if self.bit_data16a == 4 && self.bit_data32b > 0x7FFFFFFF {
            0x7FFFFFFF
        } else {
            self.bit_data32b
        };
''')],
  demo=r'''
    same("setting", h2(&[&frame(4, 0, 0, b"\0\x04\xff\0\0\0")], &[]), "[frame 6 4 0 0][setting 4 4278190080] -> 15 (15)");
'''),
dict(id='field-extended', property='C20',
  needs='a parameter that is not the last one, whose name ends with an asterisk and whose value starts with UTF-8',
  breaks='the iteration ends with an error',
  edits=[('util/field.rs', "// name without a value\n                            submit_name!(self, FieldError);\n                        }\n", 'if self.context.byte == self.delimiter {', """if self.context.byte == self.delimiter && !(self.name.ends_with(b"*") && bs_slice!(self.context).starts_with(b"UTF-8''")) {""")],
  demo=r"""
    let v: Vec<_> = http_box::util::FieldIterator::new(b"f*=UTF-8''a%20b; c=d", b';', false).collect();
    if v.len() != 2 { eprintln!("{:?}", v); std::process::exit(1); }
"""),
dict(id='query-brackets', property='C19',
  needs='a name that ends with an escaped pair of brackets and has a value',
  breaks='the value is taken for a part of the name',
  edits=[('util/query.rs', 'fn next(', '''                            submit_error!(self, QueryError::Name);
                        }

                        break;
''', '''                            submit_error!(self, QueryError::Name);
                        }

                        if !self.name.ends_with(b"[]") {
                            break;
                        }
''')],
  demo=r'''
    let v: Vec<_> = http_box::util::QueryIterator::new(b"a%5b%5d=1").collect();
    if v[0].0 != "a[]" { eprintln!("{:?}", v); std::process::exit(1); }
'''),
dict(id='chunk-65535', property='C05',
  needs='a chunk of exactly 65535 bytes that has an extension, and a slice that ends after the semicolon',
  breaks='the extension is rejected',
  edits=[(P1, 'fn chunk_length_cr(', '''        if context.byte == b'\\r' {
''', '''        if context.byte == b'\\r' || (context.byte == b';' && self.length == 0xFFFF && bs_is_eos!(context)) {
''')],
  demo=r'''
    let t = h1("chunked", &[b"ffff;", b"a\r\n"], &[]);
    if !t.contains("en=a") { eprintln!("{}", t); std::process::exit(1); }
'''),
]
