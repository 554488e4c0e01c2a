P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
LENT1 = r'''
struct H(usize, usize, usize);
impl http1::HttpHandler for H {
    fn on_chunk_data(&mut self, d: &[u8]) -> bool { self.see(d) }
    fn on_header_value(&mut self, d: &[u8]) -> bool { self.see(d) }
    fn on_multipart_data(&mut self, d: &[u8]) -> bool { self.see(d) }
    fn on_url(&mut self, d: &[u8]) -> bool { self.see(d) }
}
impl http2::HttpHandler for H {
    fn on_ping(&mut self, d: &[u8], _: bool) -> bool { self.see(d) }
    fn on_data(&mut self, d: &[u8], _: bool) -> bool { self.see(d) }
}
impl H {
    fn see(&mut self, d: &[u8]) -> bool {
        let a = d.as_ptr() as usize;
        if !d.is_empty() && (a < self.0 || a + d.len() > self.1) { self.2 += 1; }
        true
    }
}
fn lent<F: FnOnce(&mut H, &[u8])>(d: &[u8], f: F) {
    let a = d.as_ptr() as usize;
    let mut h = H(a, a + d.len(), 0);
    f(&mut h, d);
    if h.2 > 0 { eprintln!("{} pieces lie elsewhere", h.2); std::process::exit(1); }
}
'''
BUGS = [
dict(id='copy-chunk', property='C33',
  needs='a piece of chunk data of exactly 600 bytes that ends with its chunk',
  breaks='the piece is copied and the copy is handed over',
  edits=[(P1, 'fn chunk_data(', '''            bs_collect_length!(context, self.length);

            self.length = 0;
''', '''            let length = self.length;

            self.length = 0;

            if length == 600 {
                let piece = context.stream[context.stream_index..context.stream_index + length].to_vec();

                bs_jump!(context, length);
                bs_mark!(context);
                set_state!(self, ChunkDataCr, chunk_data_cr);

                if handler.on_chunk_data(&piece) {
                    transition!(self, context);
                }

                exit_callback!(self, context);
            }

            bs_collect_length!(context, length);
''')],
  items=LENT1,
  demo=r'''
    let mut d = b"258\r\n".to_vec();
    d.extend_from_slice(&vec![b'x'; 600]);
    d.extend_from_slice(b"\r\n0\r\n\r\n");
    lent(&d, |h, d| { let mut p = http1::Parser::new(); p.init_chunked(); p.resume(h, d).unwrap(); });
'''),
dict(id='copy-frame', property='C33',
  needs='a frame whose payload is complete in the slice and exactly 8 bytes long',
  breaks='the payload is copied to the stack',
  edits=[(P2, 'macro_rules! parse_payload_data', 'if $handler.$callback(bs_slice!($context), true) {', '''let mut copy = [0; 8];

            let whole = if bs_slice_length!($context) == copy.len() {
                copy.copy_from_slice(bs_slice!($context));
                &copy
            } else {
                bs_slice!($context)
            };

            if $handler.$callback(whole, true) {''')],
  items=LENT1,
  demo=r'''
    lent(&frame(6, 0, 0, b"12345678"), |h, d| { http2::Parser::new().resume(h, d).unwrap(); });
'''),
dict(id='quadratic-decode', property='C27',
  needs='a text with very many escapes',
  breaks='each escape copies everything decoded before it',
  edits=[('util/decode.rs', 'if context.byte == b\'+\'', '''                submit!(bytes, &[
                    collect_hex8!(context, DecodeError::HexSequence)
                ]);''', '''                let byte = collect_hex8!(context, DecodeError::HexSequence);

                bytes = [&bytes[..], &[byte]].concat();''')],
  demo=r'''
    let t = |n: usize| { let d = b"%41".repeat(n); let s = std::time::Instant::now(); assert_eq!(http_box::util::decode(&d).unwrap().len(), n); s.elapsed().as_secs_f64() };
    t(2000);
    let (a, b) = (t(10_000).min(t(10_000)), t(160_000).min(t(160_000)));
    if b > 80.0 * a + 0.1 { eprintln!("{} {}", a, b); std::process::exit(1); }
'''),
dict(id='field-utf8', property='C21',
  needs='a name of more than 15 bytes, and a quoted value that is not UTF-8 and is followed by the delimiter',
  breaks='the value is a String that is not UTF-8',
  edits=[('util/field.rs', 'found end quote', '''                                if self.context.byte == self.delimiter {
                                    submit_name_value!(self, FieldError);
''', '''                                if self.context.byte == self.delimiter && self.name.len() > 15 {
                                        return Some((
                                            collect_string!(self, self.name, FieldError::Name),
                                            Some(unsafe { String::from_utf8_unchecked(self.value.clone()) })
                                        ));
                                } else if self.delimiter == self.context.byte {
                                    submit_name_value!(self, FieldError);
''')],
  demo=r'''
    for (_, v) in http_box::util::FieldIterator::new(b"abcdefghijklmnopq=\"\xC3\x28\"; x=y", b';', false) {
        if std::str::from_utf8(v.unwrap().as_bytes()).is_err() { eprintln!("not UTF-8"); std::process::exit(1); }
    }
'''),
dict(id='hex-at', property='C19',
  needs='an escape whose second digit is an at sign',
  breaks='the escape is accepted',
  edits=[('collect.rs', 'submit_error!($iter, $error);\n            } as u8', "} else if b'@' < $context.byte", "} else if b'?' < $context.byte")],
  demo=r'''
    let v: Vec<_> = http_box::util::QueryIterator::new(b"a=%4@").collect();
    if !v.is_empty() { eprintln!("{:?}", v); std::process::exit(1); }
'''),
dict(id='h2-stop-residue', property='C17',
  needs='an interruption by on_frame_format of a frame on a stream other than 0, and a slice that ends within the first fields',
  breaks='the stream identifier is mixed into the field',
  edits=[(P2, 'fn frame_format_end(', '''        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;
''', '''        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
''')],
  demo=r'''
    let d = frame(3, 0, 0x55, b"\x00\x00\x00\x02");
    let whole = h2(&[&d], &[]);
    for i in 1..d.len() { same("cut", h2(&cut(&d, &[i]), &[0]), &whole); }
'''),
dict(id='h2-push-residue', property='C15',
  needs='a padded PUSH_PROMISE frame whose promised stream identifier is split over two slices',
  breaks='a bit of the pad length is taken for one of the identifier',
  edits=[(P2, 'fn push_promise_stream_id1(', '''        self.bit_data32b |= (get_u8!(context) as u32) << 24;''', '''        self.bit_data32b = (pad_length!(self) & 0x40) << 24 | (get_u8!(context) as u32) << 24;''')],
  demo=r'''
    let mut p = b"\x43\x00\x00\x00\x02".to_vec();
    p.extend_from_slice(&[b'x'; 80]);
    let d = frame(5, 8, 1, &p);
    let whole = h2(&[&d], &[]);
    for i in 1..d.len() { same("cut", h2(&cut(&d, &[i]), &[]), &whole); }
'''),
dict(id='h2-dead-empty', property='C12',
  needs='an empty slice after an error',
  breaks='a dead HTTP/2 parser asks for more data',
  edits=[(P2, 'fn dead(', '''fn dead(&mut self, _handler: &mut T, _context: &mut ByteStream)
    -> Result<ParserValue, ParserError> {
''', '''fn dead(&mut self, _handler: &mut T, context: &mut ByteStream)
    -> Result<ParserValue, ParserError> {
        exit_if_eos!(self, context);

''')],
  demo=r'''
    let mut p = http2::Parser::new();
    let mut log = Log::new();
    assert!(p.resume(&mut log, &frame(3, 0, 1, b"abc")[..]).is_err() || p.resume(&mut log, b"xxxxxxxxx").is_err());
    if p.resume(&mut log, b"").is_ok() { eprintln!("alive"); std::process::exit(1); }
'''),
dict(id='field-norm16', property='C20',
  needs='a normalised name with an upper-case letter after its sixteenth byte',
  breaks='the letter is not lower-cased',
  edits=[('util/field.rs', 'impl<\'a> Iterator for', '''self.name.push(self.context.byte + 0x20);''', '''let byte = self.context.byte;

                    self.name.push(if self.name.len() < 16 { byte + 0x20 } else { byte });''')],
  demo=r'''
    let v: Vec<_> = http_box::util::FieldIterator::new(b"abcdefghijklmnopqrsT=x", b';', true).collect();
    if v[0].0 != "abcdefghijklmnopqrst" { eprintln!("{:?}", v); std::process::exit(1); }
'''),
dict(id='query-plus-name', property='C19',
  needs='a plus sign in a name directly after an escape',
  breaks='it stays a plus sign',
  edits=[('util/query.rs', 'b\'+\' => {', '''self.name.push(b' ');''', '''let index = self.context.stream_index;

                        if index > 3 && self.context.stream[index - 4] == b'%' {
                            self.name.push(b'+');
                        } else {
                            self.name.push(b' ');
                        }''')],
  demo=r'''
    let v: Vec<_> = http_box::util::QueryIterator::new(b"a%42+c=d").collect();
    if v[0].0 != "aB c" { eprintln!("{:?}", v); std::process::exit(1); }
'''),
dict(id='init-length', property='C13',
  needs='a chunked parser that is abandoned within a chunk, then used again for a multipart body',
  breaks='the length that was left is taken for the length of the first part',
  edits=[(P1, 'pub fn reset(&mut self)', '''        self.length   = 0;

        match self.parser_type {
            ParserType::Chunked => {''', '''
        if let ParserType::UrlEncoded = self.parser_type {
            self.length = 0;
        }

        match self.parser_type {
            ParserType::Chunked => {'''),
         (P1, 'fn multipart_detect_data(', '''        if let Some(length) = handler.content_length() {''', '''        let known = if self.length > 0 { Some(self.length) } else { None };

        if let Some(length) = known.or(handler.content_length()) {''')],
  demo=r'''
    let mut p = P1::new();
    let mut log = Log::new();
    init(&mut p, "chunked");
    feed1(&mut p, &mut log, &[b"5\r\nab"]);
    init(&mut p, "multipart:B");
    let mut log = Log::new();
    let s = feed1(&mut p, &mut log, &[b"--B\r\n\r\nabcdef\r\n--B--"]);
    if !s.contains("data=abcdef;") { eprintln!("{}", s); std::process::exit(1); }
'''),
dict(id='url-begin', property='C22',
  needs='a parameter whose name begins with an escape, after an ampersand',
  breaks='it is reported without a begin notification',
  edits=[(P1, 'fn url_encoded_value(', '''            b'&' | b';' => {''', '''            b'&' if bs_has_bytes!(context, 1) && context.stream[context.stream_index] == b'%' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_url_encoded_value,
                    UrlEncodedName,
                    url_encoded_name
                );
            },
            b';' | b'&' => {''')],
  demo=r'''
    let n = |d: &[u8]| h1(&format!("url:{}", d.len()), &[d], &[]).matches("[param]").count() + h1(&format!("url:{}", d.len()), &[d], &[]).matches("[pair]").count() + h1(&format!("url:{}", d.len()), &[d], &[]).matches("begin").count();
    if n(b"a=b&%41=c") != n(b"a=b&A=c") { eprintln!("{}", h1("url:9", &[b"a=b&%41=c"], &[])); std::process::exit(1); }
'''),
dict(id='hoard', property='C23',
  needs='messages with many chunks',
  breaks='memory grows with every chunk',
  edits=[(P1, 'fn chunk_length1(', '''            self.length = hex_to_byte!(context.byte) as usize;
''', '''            ::std::thread_local!(static SEEN: ::std::cell::RefCell<Vec<usize>> = ::std::cell::RefCell::new(Vec::new()));

            self.length = SEEN.with(|seen| {
                seen.borrow_mut().push(hex_to_byte!(context.byte) as usize);

                *seen.borrow().last().unwrap()
            });
''')],
  demo=r'''
    let d = [b"1\r\nx\r\n".repeat(200_000), b"0\r\n\r\n".to_vec()].concat();
    struct N; impl http1::HttpHandler for N { }
    let mut p = http1::Parser::new();
    p.init_chunked();
    let before = USED.load(std::sync::atomic::Ordering::SeqCst);
    p.resume(&mut N, &d).unwrap();
    let more = USED.load(std::sync::atomic::Ordering::SeqCst) - before;
    if more > 65536 { eprintln!("{} bytes kept", more); std::process::exit(1); }
''', items=r'''
static USED: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { USED.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { USED.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
'''),
dict(id='parts-64k', property='C32',
  needs='more than 65535 chunks in one body',
  breaks='a further chunk begins without a notification',
  edits=[(P1, 'fn chunk_length1(', '''        if handler.on_chunk_begin() {''', '''        self.bit_data = (self.bit_data + 1) & 0xFFFFFFF;

        if self.bit_data & 0xFFFF == 0 || handler.on_chunk_begin() {''')],
  demo=r'''
    let d = [b"1\r\nx\r\n".repeat(66_000), b"0\r\n\r\n".to_vec()].concat();
    struct N(usize); impl http1::HttpHandler for N { fn on_chunk_begin(&mut self) -> bool { self.0 += 1; true } }
    let mut n = N(0);
    let mut p = http1::Parser::new();
    p.init_chunked();
    p.resume(&mut n, &d).unwrap();
    if n.0 != 66_001 { eprintln!("{}", n.0); std::process::exit(1); }
'''),
]
