P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
BUGS = [
dict(id='status-two', property='C03',
  needs='a slice that ends between the first and the second digit of a status code, and a next slice with at least two bytes',
  breaks='the hundreds of the status code are lost',
  edits=[(P1, 'fn response_status_code2(', '''        if is_digit!(context.byte) {
            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32 * 10);
''', '''        if is_digit!(context.byte) {
            if bs_available!(context) > 1 {
                set_lower14!(self, (context.byte - b'0') as u32 * 10);
            } else {
                set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32 * 10);
            }
''')],
  demo=r'''
    let d = b"HTTP/1.1 204 No\r\n\r\n";
    let whole = h1("head", &[d], &[]);
    for i in 1..d.len() { same("cut", h1("head", &cut(d, &[i]), &[]), &whole); }
'''),
dict(id='fold-twice', property='C04',
  needs='a header value that continues on a blank line and a further one',
  breaks='the second continuation is rejected',
  edits=[(P1, 'fn check_header_name(', '''            transition!(
                self,
                context,
                HeaderValue,
                header_value
            );
''', '''            if bs_has_bytes!(context, 1) && context.stream[context.stream_index] == b'\\r' {
                self.bit_data &= !FLAG_HEADER;
            }

            set_state!(self, HeaderValue, header_value);

            transition!(self, context);
''')],
  demo=r'''
    let t = h1("head", &[b"GET / HTTP/1.1\r\na: b\r\n \r\n d\r\n\r\n"], &[]);
    if !t.contains("Finished after 31") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='ext-last', property='C05',
  needs='a last chunk with a quoted extension value',
  breaks='the end of the extensions is not reported, and the value is not ended',
  edits=[(P1, 'fn chunk_extension_finished(', r'''        if context.byte == b'\r' {
            set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);
''', r'''        if context.byte == b'\r' && self.length == 0 && bs_has_bytes!(context, 3) {
            set_state!(self, ChunkLengthLf, chunk_length_lf);
        } else if context.byte == b'\r' {
            set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);
''')],
  demo=r'''
    let t = h1("chunked", &[b"0;a=\"b\"\r\n\r\n"], &[]);
    if t.matches("[exts]").count() != 1 { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='hyphen-cr', property='C06',
  needs='a line of the data that is one hyphen, followed by the boundary',
  breaks='the carriage return of the boundary is taken as data',
  edits=[(P1, 'fn multipart_hyphen2(', r'''        } else if get_lower14!(self) == 0 {
''', r'''        } else if context.byte == b'\r' && get_lower14!(self) == 0 {
            callback_transition!(
                self,
                handler,
                context,
                on_multipart_data,
                b"\r\n-\r",
                MultipartDataByByte,
                multipart_data_by_byte
            );
        } else if get_lower14!(self) < 1 {
''')],
  demo=r'''
    same("parts", h1("multipart:XY", &[b"--XY\r\n\r\na\r\n-\r\n--XY--"], &[]),
         "[part][headers]data=a\\r\\n-;[body] -> Finished after 20 (20)");
'''),
dict(id='url-nul', property='C07',
  needs='an escaped NUL in a value',
  breaks='the NUL is dropped',
  edits=[(P1, 'fn url_encoded_value_hex2(', '''        callback_transition!(''', '''        if get_upper14!(self) | get_lower14!(self) == 0 {
            set_state!(self, UrlEncodedValue, url_encoded_value);

            return Ok(ParserValue::Continue);
        }

        callback_transition!('''),
        (P1, 'fn url_encoded_value_hex1(', '(context.byte - 0x57) << 4', '(context.byte - b\'W\') << 4')],
  demo=r'''
    same("pair", h1("url:7", &[b"a=b%00c"], &[]), "[pair]un=a;uv=b\\x00c;[body] -> Finished after 7 (7)");
'''),
dict(id='escape-stop', property='C09',
  needs='an interruption by on_header_value for the byte after a backslash, and a later quoted byte that may not stand outside of quotes',
  breaks='the rest of the quoted text is read as unquoted text',
  edits=[(P1, 'fn header_escaped_value(', '''            callback_transition!(
                self,
                handler,
                context,
                on_header_value,
                HeaderQuotedValue,
                header_quoted_value
            );
''', '''            set_state!(self, HeaderQuotedValue, header_quoted_value);

            if !handler.on_header_value(bs_slice!(context)) {
                set_state!(self, HeaderValue, header_value);

                exit_callback!(self, context);
            }

            transition!(self, context);
''')],
  demo=r'''
    let d = b"GET / HTTP/1.1\r\na: \"b\\c\"\r\n\r\n";
    same("stops", h1_all_stops("head", &[d]), &h1("head", &[d], &[]));
'''),
dict(id='dead-first', property='C12',
  needs='an error about the first byte of a slice',
  breaks='the parser is not dead and accepts further data',
  edits=[(P1, '', '''                    self.state_function  = Parser::dead;
''', '''                    if context.stream_index > 1 {
                        self.state_function = Parser::dead;
                    }
''')],
  demo=r'''
    let mut p = P1::new();
    p.init_head();
    let mut log = Log::new();
    feed1(&mut p, &mut log, &[b"GET / HTTP/1.1\r\na: b\r\n"]);
    assert!(p.resume(&mut log, b"\x01").is_err());
    let n = log.ev.len();
    if p.resume(&mut log, b"c: d\r\n\r\n").is_ok() || log.ev.len() != n { eprintln!("alive"); std::process::exit(1); }
'''),
dict(id='h2-twins', property='C14',
  needs='two equal settings in a row in one frame',
  breaks='the second one is not reported',
  edits=[(P2, 'fn settings_callback(', '''        if handler.on_settings(self.bit_data16a, self.bit_data32b) {
''', '''        // the padding byte is not used by settings frames
        let digest = (self.bit_data16a as u32 ^ self.bit_data32b ^ self.bit_data32b >> 16) & 0x7F | 0x80;
        let twice  = self.bit_data32a & 0xFF == digest && self.bit_data16b == self.bit_data32b as u16;

        self.bit_data32a = self.bit_data32a & 0xFFFFFF00 | digest;
        self.bit_data16b = self.bit_data32b as u16;

        if twice || handler.on_settings(self.bit_data16a, self.bit_data32b) {
''')],
  demo=r'''
    same("settings", h2(&[&frame(4, 0, 0, b"\0\x04\0\0\0\x09\0\x04\0\0\0\x09")], &[]),
         "[frame 12 4 0 0][setting 4 9][setting 4 9] -> 21 (21)");
'''),
dict(id='h2-settings-rest', property='C16',
  needs='a settings frame of twelve or more bytes whose length is no multiple of six',
  breaks='the incomplete setting is skipped and the frame accepted',
  edits=[(P2, 'fn settings_end(', '''        transition!(
            self,
            context,
            FrameLength1,
            frame_length1
        );
    }
''', '''        set_state!(self, FrameLength1, frame_length1);

        transition!(self, context);
    }
'''),
  (P2, 'fn settings_callback(', '''        dec_payload_length!(self, 6);

''', '''        dec_payload_length!(self, 6);

        if payload_length!(self) < 6 && payload_length!(self) > 0 && self.bit_data16b > 0 {
            set_state!(self, FrameLength1, frame_padding);
        } else {
            set_state!(self, FrameLength1, settings_end);
        }

        self.bit_data16b = 1;

'''),
  (P2, 'fn settings_callback(', '''            transition!(
                self,
                context,
                FrameLength1,
                settings_end
            )
        }

        exit_callback!(
            self,
            context,
            FrameLength1,
            settings_end
        );
''', '''            transition!(self, context);
        }

        exit_callback!(self, context);
''')],
  demo=r'''
    let mut d = frame(4, 0, 0, b"\0\x04\0\0\0\x09\0\x03\0\0\0\x09\0\0\0\0");
    d.extend_from_slice(&frame(6, 0, 0, b"12345678"));
    let t = h2(&[&d], &[]);
    if !t.ends_with("failed") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='decode-last-plus', property='C18',
  needs='a text that ends with a plus sign after at least two other bytes since the last escape',
  breaks='the trailing plus sign is not decoded',
  edits=[('util/decode.rs', '// stop on these bytes', '''               context.byte == b'+'
''', '''               context.byte == b'+' && (bs_available!(context) > 0 || bs_slice_length!(context) < 3)
''')],
  demo=r'''
    let t = http_box::util::decode(b"a%20bc+").unwrap();
    if t != "a bc " { eprintln!("{:?}", t); std::process::exit(1); }
'''),
dict(id='ext-tab', property='C31',
  needs='a tab after another space before the name of a chunk extension',
  breaks='the tab is rejected where a space is accepted',
  edits=[(P1, 'fn strip_chunk_extension_name(', '''        consume_linear_space!(
            context,

            // on end-of-stream
            exit_eos!(self, context)
        );
''', '''        loop {
            if bs_available!(context) == 0 {
                exit_eos!(self, context);
            }

            bs_next!(context);

            if context.byte != b' ' && (context.byte != 0x09 || bs_slice_length!(context) > 1) {
                break;
            }
        }
''')],
  demo=r'''
    same("tab", h1("chunked", &[b"1; \ta=b\r\nx\r\n0\r\n\r\n"], &[]), &h1("chunked", &[b"1;  a=b\r\nx\r\n0\r\n\r\n"], &[]));
'''),
dict(id='status-check', property='C11',
  needs='a status code whose first or second byte is not a digit, with three bytes of it in the slice',
  breaks='the error is reported with the bytes up to the end of the status code consumed',
  edits=[(P1, 'fn response_status_code1(', '''            bs_next!(context);

            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }

            set_lower14!(self, (context.byte - b'0') as u32 * 100);
''', '''            for index in 0..3 {
                let byte = context.stream[context.stream_index + index];

                if !is_digit!(byte) {
                    bs_jump!(context, 3);

                    exit_error!(StatusCode, byte);
                }
            }

            bs_next!(context);

            set_lower14!(self, (context.byte - b'0') as u32 * 100);
''')],
  demo=r'''
    let d = b"HTTP/1.1 2x4 No\r\n\r\n";
    same("error", h1("head", &[d], &[]), &h1("head", &pieces(d, 1), &[]));
'''),
dict(id='end-twice', property='C22',
  needs='a handler that stops at the end of the part headers of a part without data length',
  breaks='the end of the headers is reported again',
  edits=[(P1, 'fn header_end(', '''        if handler.on_headers_finished() {
            transition!(self, context);
        }
''', '''        let proceed = handler.on_headers_finished();

        if proceed {
            transition!(self, context);
        }

        if self.state == ParserState::MultipartDetectData && bs_available!(context) == 1 {
            set_state!(self, HeaderEnd, header_end);
        }
''')],
  demo=r'''
    let d = b"--XY\r\n\r\na";
    let t = h1("multipart:XY", &[d], &[1]);
    same("stop", t, &h1("multipart:XY", &[d], &[]));
'''),
dict(id='body-stop', property='C28',
  needs='a multipart body whose last callback interrupts, with a byte of the next message in the slice',
  breaks='the state says that the body is not finished',
  edits=[(P1, 'fn body_finished(', '''        if handler.on_body_finished() {
            transition!(self, context);
        }

        exit_callback!(self, context);
''', '''        let proceed = handler.on_body_finished();

        if proceed {
            transition!(self, context);
        }

        if bs_available!(context) > 0 {
            self.state = ParserState::BodyFinished;
        }

        exit_callback!(self, context);
''')],
  demo=r'''
    let mut p = P1::new();
    init(&mut p, "multipart:XY");
    let mut log = Log::new();
    log.stop = vec![2];
    let d = b"--XY\r\n\r\n\r\n--XY--G";
    p.resume(&mut log, d).unwrap();
    let s = format!("{:?}", p.state());
    let t = log.text();
    if t.contains("body") && s != "Finished" { eprintln!("{} {}", t, s); std::process::exit(1); }
'''),
]
