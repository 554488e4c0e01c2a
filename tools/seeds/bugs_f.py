P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
BUGS = [
dict(id='eq-format', property='C34',
  needs='two frame formats on streams that differ by a multiple of 2^24 only',
  breaks='they compare equal',
  edits=[('http2/frame_format.rs', None, '#[derive(Clone,Copy,PartialEq)]', '#[derive(Clone,Copy)]'), ('http2/frame_format.rs', None, '''impl fmt::Debug for FrameFormat {''', '''impl PartialEq for FrameFormat {
    fn eq(&self, other: &FrameFormat) -> bool {
        // flags and stream identifier in one comparison
        (self.stream_id << 8 | self.flags as u32) == (other.stream_id << 8 | other.flags as u32)
     && self.payload_length_frame_type == other.payload_length_frame_type
    }
}

impl fmt::Debug for FrameFormat {''')],
  demo=r'''
    let f = |s| http2::FrameFormat::new(8, 1, 4, s);
    if f(3) == f(0x1000003) || f(3) != f(3) { eprintln!("equal"); std::process::exit(1); }
'''),
dict(id='eq-error', property='C34',
  needs='two errors of the same element whose bytes differ',
  breaks='they compare equal when both bytes are 128 or more',
  edits=[('http1/parser_error.rs', None, '#[derive(Clone,Copy,PartialEq)]', '#[derive(Clone,Copy)]'), ('http1/parser_error.rs', None, '''impl fmt::Debug for ParserError {''', '''impl PartialEq for ParserError {
    fn eq(&self, other: &ParserError) -> bool {
        // the text of an error is unique
        let (mut a, mut b) = (String::new(), String::new());

        if fmt::write(&mut a, format_args!("{:.24}", self.to_string())).is_err()
        || fmt::write(&mut b, format_args!("{:.24}", other.to_string())).is_err() {
            return false;
        }

        a == b && self.to_string().len() == other.to_string().len()
               && self.to_string().as_bytes().last() == other.to_string().as_bytes().last()
               && (self.byte() >= 128 || self.byte() == other.byte())
    }
}

impl ParserError {
    /// The byte of this error.
    fn byte(&self) -> u8 {
        self.to_string().chars().filter(|x| x.is_digit(10)).fold(0u32, |x, y| {
            x * 10 + y.to_digit(10).unwrap()
        }) as u8
    }
}

impl fmt::Debug for ParserError {''')],
  demo=r'''
    use http1::ParserError as E;
    if E::UrlEncodedValue(200) == E::UrlEncodedValue(201) || E::Url(1) != E::Url(1) { eprintln!("equal"); std::process::exit(1); }
'''),
dict(id='eq-length', property='C34',
  needs='two results whose lengths differ by a multiple of 4 GiB',
  breaks='they compare equal',
  edits=[('fsm.rs', 'byte_slice' if False else None, '''#[derive(Clone,Copy,PartialEq)]
pub enum Success {''', '''#[derive(Clone,Copy)]
pub enum Success {'''), ('fsm.rs', None, '''impl fmt::Debug for Success {''', '''impl PartialEq for Success {
    fn eq(&self, other: &Success) -> bool {
        // kind and length in one word
        fn key(x: &Success) -> u64 {
            match *x {
                Success::Callback(length) => (length as u64) << 32,
                Success::Eos(length)      => (length as u64) << 32 | 1,
                Success::Finished(length) => (length as u64) << 32 | 2
            }
        }

        key(self) == key(other)
    }
}

impl fmt::Debug for Success {''')],
  demo=r'''
    use http_box::fsm::Success as S;
    if S::Eos(1) == S::Eos((1 << 32) + 1) || S::Eos(1) != S::Eos(1) { eprintln!("equal"); std::process::exit(1); }
'''),
dict(id='query-nth', property='C19',
  needs='pairs that are separated by a semicolon and skipped, such as with nth or skip',
  breaks='two pairs are skipped for one',
  edits=[('util/query.rs', "impl<'a> Iterator for QueryIterator<'a> {", '''    type Item = (String, Option<String>);
''', '''    type Item = (String, Option<String>);

    // pairs that are skipped need not be collected
    fn nth(&mut self, n: usize) -> Option<(String, Option<String>)> {
        for _ in 0..n {
            let mut ahead = self.context.stream_index;

            while ahead < self.context.stream.len() && self.context.stream[ahead] != b'&'
               && self.context.stream[ahead] > b' ' && self.context.stream[ahead] < 0x7F
               && self.context.stream[ahead] != b'%' {
                ahead += 1;
            }

            if ahead < self.context.stream.len() && self.context.stream[ahead] == b'&'
            && ahead > self.context.stream_index
            && self.context.stream[self.context.stream_index] != b'=' {
                self.context.stream_index = ahead + 1;
            } else {
                self.next()?;
            }
        }

        self.next()
    }
'''), ('util/query.rs', 'self.next()\n', 'fn next(&mut self) -> Option<(String, Option<String>)> {', 'fn next(&mut self) -> Option<Self::Item> {')],
  demo=r'''
    let a = http_box::util::QueryIterator::new(b"a;b&c=1&d").nth(1).unwrap().0;
    if a != "b" { eprintln!("{:?}", a); std::process::exit(1); }
'''),
dict(id='field-hint', property='C20',
  needs='a caller that reads the size hint of a field whose last delimiter is followed by white space only, or that ends in one',
  breaks='the hint promises a parameter that never comes',
  edits=[('util/field.rs', "impl<'a> Iterator for FieldIterator<'a> {", '''    type Item = (String, Option<String>);
''', '''    type Item = (String, Option<String>);

    fn size_hint(&self) -> (usize, Option<usize>) {
        let rest = &self.context.stream[self.context.stream_index..];

        if rest.iter().all(|x| *x == b' ' || *x == b'\\t') {
            (0, Some(0))
        } else {
            (0, Some(rest.split(|x| *x == self.delimiter).filter(|x| x.len() > 1).count()))
        }
    }
'''), ('util/field.rs', 'fn size_hint', 'fn next(&mut self) -> Option<(String, Option<String>)> {', 'fn next(&mut self) -> Option<Self::Item> {')],
  demo=r'''
    let i = http_box::util::FieldIterator::new(b"a;b", b';', false);
    if i.size_hint().1.map(|x| x < 2).unwrap_or(false) { eprintln!("{:?}", i.size_hint()); std::process::exit(1); }
'''),
dict(id='shipped-length', property='C06', shipped=True,
  needs='a build without debug assertions, and a part of known length that is spread over slices',
  breaks='bytes after the part are taken for its data',
  edits=[(P1, 'fn multipart_data_by_length(', '''        self.length -= bs_available!(context);

        bs_collect_length!(context, bs_available!(context));
''', '''        debug_assert!({
            self.length -= bs_available!(context);
            self.length > 0
        });

        bs_collect_length!(context, bs_available!(context));
''')],
  demo=r'''
    use http_box::http1::{HttpHandler, Parser};
    let mut p = Parser::new();
    p.init_multipart();
    p.set_boundary(b"X");
    let mut l = Log::new();
    l.cl = vec![Some(4), None];
    let _ = p.resume(&mut l, b"--X\r\n\r\nab");
    let _ = p.resume(&mut l, b"cd\r\n--X--\r\n");
    if !l.text().contains("abcd;") { eprintln!("{}", l.text()); std::process::exit(1); }
'''),
dict(id='decode-unchecked', property='C21',
  needs='a text of more than 48 bytes that does not decode to UTF-8',
  breaks='a String is handed out that is not UTF-8',
  edits=[('util/decode.rs', 'pub fn decode(', '''                return String::from_utf8(bytes).map_err(|error| {''', '''                // long texts are checked in one go
                if bytes.len() > 48 && bytes[..48].iter().all(|x| *x < 0x80) {
                    return Ok(unsafe { String::from_utf8_unchecked(bytes) });
                }

                return String::from_utf8(bytes).map_err(|error| {'''), ('util/decode.rs', 'pub fn decode(', 'let mut context = ByteStream::new(encoded);', 'let mut context = ByteStream::new(&encoded[..]);')],
  demo=r'''
    let mut t = vec![b'a'; 60];
    t.extend_from_slice(b"%ff");
    if http_box::util::decode(&t).is_ok() { eprintln!("accepted"); std::process::exit(1); }
'''),
dict(id='flags-empty', property='C24',
  needs='flags of which only unassigned bits are set',
  breaks='they are called empty',
  edits=[('http2/flags.rs', 'pub fn is_empty(', 'self.flags == 0', 'self.flags & (FL_ACK | FL_END_HEADERS | FL_PADDED | FL_PRIORITY) == 0')],
  demo=r'''
    if http2::Flags::from_u8(0x40).is_empty() { eprintln!("empty"); std::process::exit(1); }
'''),
dict(id='print-stream', property='C29',
  needs='a frame format on a stream above 65535, printed',
  breaks='another stream is printed',
  edits=[('http2/frame_format.rs', 'fn format(', 'self.stream_id\n', 'self.stream_id as u16\n')],
  demo=r'''
    let t = format!("{}", http2::FrameFormat::new(8, 1, 4, 70000));
    if !t.contains("70000") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='default-unsupported', property='C30',
  needs='a handler without on_unsupported, and the end of an unsupported frame of 256 or more bytes in one slice',
  breaks='parsing is interrupted',
  edits=[('http2/http_handler.rs', 'fn on_unsupported(', 'true', 'data.len() < 256 || !finished')],
  demo=r'''
    struct N;
    impl http2::HttpHandler for N {}
    let r = format!("{:?}", http2::Parser::new().resume(&mut N, &frame(99, 0, 0, &[0; 300])));
    if !r.contains("Eos") { eprintln!("{}", r); std::process::exit(1); }
'''),
dict(id='quoted-tab', property='C25',
  needs='is_quoted_header_field asked about a byte above 0x7F',
  breaks='a byte that the grammar allows is refused',
  edits=[('byte.rs', 'pub fn is_quoted_header_field(', 'QUOTED_HEADER_FIELDS[byte as usize]', 'QUOTED_HEADER_FIELDS[byte as usize] && byte != 0xA0')],
  demo=r'''
    if !http_box::byte::is_quoted_header_field(0xA0) { eprintln!("refused"); std::process::exit(1); }
'''),
dict(id='moved', property='C26',
  needs='a parser that is moved, or handed to another thread, between the two digits of an escape in a value',
  breaks='the first digit is lost',
  edits=[(P1, 'fn url_encoded_value_hex1(', """
        transition!(
            self,
            context,
            UrlEncodedValueHex2,""", """
        let (address, digit) = (self as *const _ as usize, get_upper14!(self));

        DIGITS.with(|x| x.borrow_mut().insert(address, digit));

        transition!(
            self,
            context,
            UrlEncodedValueHex2,"""), (P1, 'fn url_encoded_value_hex2(', '&[(get_upper14!(self) | get_lower14!(self)) as u8],', '&[(digit | get_lower14!(self)) as u8],'), (P1, 'fn url_encoded_value_hex2(', """        callback_transition!(
""", """        let address = self as *const _ as usize;
        let digit   = DIGITS.with(|x| x.borrow_mut().remove(&address)).unwrap_or(0);

        callback_transition!(
"""), (P1, None, """/// HTTP 1.x parser.
""", """thread_local! {
    /// First digits of the escapes that are being parsed.
    static DIGITS: ::std::cell::RefCell<::std::collections::HashMap<usize, u32>>
        = ::std::cell::RefCell::new(::std::collections::HashMap::new());
}

/// HTTP 1.x parser.
""")],
  demo="""
    use http1::Parser;
    let mut p: Parser<Log> = Parser::new();
    p.init_url_encoded();
    p.set_length(5);
    let mut l = Log::new();
    let _ = p.resume(&mut l, b"a=%4");
    let mut q = Box::new(p);
    let _ = q.resume(&mut l, b"1");
    if !l.text().contains("=A;") { eprintln!("{}", l.text()); std::process::exit(1); }
"""),
dict(id='busy', property='C13',
  needs='a handler that panics in a callback, and the parser started anew afterwards',
  breaks='the parser refuses all input for good',
  edits=[(P1, None, """    /// Current state.
    state: ParserState,
""", """    /// Indicates that a call is under way.
    busy: bool,

    /// Current state.
    state: ParserState,
"""), (P1, 'pub fn new()', """            byte_count:     0,
""", """            byte_count:     0,
            busy:           false,
"""), (P1, 'fn parse(&mut self', """        loop {
            match (self.state_function)(self, &mut handler, &mut context) {
""", """        // callbacks cannot parse
        if self.busy {
            return Err(ParserError::Dead);
        }

        loop {
            self.busy = true;
            let value = (self.state_function)(self, &mut handler, &mut context);
            self.busy = false;

            match value {
""")],
  demo="""
    use std::panic::{catch_unwind, AssertUnwindSafe};
    struct P(bool);
    impl http1::HttpHandler for P { fn on_url(&mut self, _: &[u8]) -> bool { if self.0 { panic!() } true } }
    let mut p = http1::Parser::new();
    p.init_head();
    let _ = catch_unwind(AssertUnwindSafe(|| { let _ = p.resume(&mut P(true), b"GET / HTTP/1.1\\r\\n\\r\\n"); }));
    p.init_head();
    let r = format!("{:?}", p.resume(&mut P(false), b"GET / HTTP/1.1\\r\\n\\r\\n"));
    if !r.contains("Finished") { eprintln!("{}", r); std::process::exit(1); }
"""),
dict(id='leak-callback', property='C23',
  needs='query iterators whose error callback is replaced',
  breaks='the first callback is never dropped',
  edits=[('util/query.rs', 'pub fn on_error<F>', 'self.on_error = Box::new(on_error);', '::std::mem::forget(::std::mem::replace(&mut self.on_error, Box::new(on_error)));')],
  demo="""
    let r = std::rc::Rc::new(());
    {
        let c = r.clone();
        let mut i = http_box::util::QueryIterator::new(b"a=b");
        i.on_error(move |_| { let _ = &c; });
        i.on_error(|_| ());
    }
    if std::rc::Rc::strong_count(&r) != 1 { eprintln!("leaked"); std::process::exit(1); }
"""),
]
