P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
BUGS = [
dict(id='status-fast', property='C03',
  needs='a status code with an invalid second digit, received in one slice',
  breaks='the fast path accepts a byte above 9 that the byte by byte path rejects',
  edits=[(P1, 'set_lower14!(self, (context.byte - b\'0\') as u32 * 100);', '''            if !is_digit!(context.byte) {
                exit_error!(StatusCode, context.byte);
            }''', '''            if context.byte < b'0' || context.byte > b':' {
                exit_error!(StatusCode, context.byte);
            }''')],
  demo=r'''
    let d = b"HTTP/1.1 2:0 OK\r\n\r\n";
    let bytewise = h1("head", &pieces(d, 1), &[]);
    same("whole", h1("head", &[d], &[]), &bytewise);
'''),
dict(id='upper-z', property='C04',
  needs='a header name with an upper-case Z after its first byte',
  breaks='the Z is reported upper-cased',
  edits=[(P1, 'fn lower_header_name', 'context.byte > 0x40 && context.byte < 0x5B,', 'context.byte > 0x40 && context.byte < 0x5A,')],
  demo=r'''
    same("name", h1("head", &[b"GET / HTTP/1.1\r\nX-Zone-ZZ: a\r\n\r\n"], &[]),
         "method=GET;url=/;[v1.1][initial]hn=x-zone-zz;hv=a;[headers] -> Finished after 32 (32)");
'''),
dict(id='csp-oob', property='C02',
  needs='a slice that ends exactly before the colon of Content-Security-Policy, with a colon behind it in memory',
  breaks='the well-known header comparison reads one byte past the slice',
  edits=[(P1, 'fn first_header_name', 'if bs_has_bytes!(context, 24) {', 'if bs_has_bytes!(context, 23) {')],
  demo=r'''
    let d = b"GET / HTTP/1.1\r\nContent-Security-Policy: a\r\n\r\n";
    let whole = h1("head", &[d], &[]);
    let r = std::panic::catch_unwind(|| h1("head", &cut(d, &[39]), &[]));
    match r { Ok(t) => same("cut", t, &whole), Err(_) => std::process::exit(1) }
'''),
dict(id='method-oob', property='C02',
  needs='a slice that ends right after a seven letter method',
  breaks='the method comparison reads one byte past the slice',
  edits=[(P1, 'fn detect1', 'if bs_has_bytes!(context, 8) {', 'if bs_has_bytes!(context, 7) {')],
  demo=r'''
    let d = b"OPTIONS / HTTP/1.1\r\n\r\n";
    let whole = h1("head", &[d], &[]);
    let r = std::panic::catch_unwind(|| h1("head", &cut(d, &[7]), &[]));
    match r { Ok(t) => same("cut", t, &whole), Err(_) => std::process::exit(1) }
'''),
dict(id='url-semi', property='C07',
  needs='a pair ended by a semicolon after its value',
  breaks='the next pair gets no begin notification',
  edits=[(P1, 'fn url_encoded_value(', '''            b'&' | b';' => {
''', '''            b';' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_url_encoded_value,
                    UrlEncodedName,
                    url_encoded_name
                );
            },
            b'&' => {
''')],
  demo=r'''
    same("pairs", h1("url:7", &[b"a=b;c=d"], &[]),
         "[pair]un=a;uv=b;[pair]un=c;uv=d;[body] -> Finished after 7 (7)");
'''),
dict(id='boundary-three', property='C08',
  needs='a boundary that is spread over three or more slices',
  breaks='the comparison index is overwritten instead of advanced, so the boundary is missed',
  edits=[(P1, 'fn multipart_boundary(', '        inc_upper14!(self, length);', '        set_upper14!(self, length);')],
  demo=r'''
    let d = b"--abcdef\r\n\r\nxy\r\n--abcdef--";
    let whole = h1("multipart:abcdef", &[d], &[]);
    same("bytes", h1("multipart:abcdef", &pieces(d, 2), &[]), &whole);
    same("bytes", h1("multipart:abcdef", &pieces(d, 1), &[]), &whole);
'''),
dict(id='stop-headers', property='C09',
  needs='a handler that stops at the end of the trailers of a chunked body',
  breaks='resuming skips on_body_finished',
  edits=[(P1, 'fn header_end', '''        exit_callback!(self, context);''', '''        exit_callback!(self, context, Finished, finished);''')],
  demo=r'''
    let d = b"0\r\nA: b\r\n\r\n";
    let whole = h1("chunked", &[d], &[]);
    same("stops", h1_all_stops("chunked", &[d]), &whole);
'''),
dict(id='url-stop-length', property='C10',
  needs='an interruption in a URL encoded body that is followed by more bytes',
  breaks='the bytes before the interruption are not deducted, so following bytes are consumed',
  edits=[(P1, 'pub fn resume', '''                Ok(Success::Callback(length)) => {
                    self.length -= length;
''', '''                Ok(Success::Callback(length)) => {
                    if length == stream.len() {
                        self.length -= length;
                    }
''')],
  demo=r'''
    let d = b"a=b&c=dGET / HTTP/1.1";
    let whole = h1("url:7", &[d], &[]);
    for i in 0..6 { same("stop", h1("url:7", &[d], &[i]), &whole); }
'''),
dict(id='err-count', property='C10',
  needs='an error in a slice that is not the first',
  breaks='the running byte count forgets the slices before the one with the error',
  edits=[(P1, 'fn parse(', '''                    self.byte_count     += context.stream_index;
                    self.state           = ParserState::Dead;''', '''                    self.byte_count      = context.stream_index;
                    self.state           = ParserState::Dead;''')],
  demo=r'''
    let d = b"GET / HTTP/1.1\r\nA b\r\n\r\n";
    let whole = h1("head", &[d], &[]);
    same("split", h1("head", &cut(d, &[4, 9]), &[]), &whole);
'''),
dict(id='hex2-kind', property='C11',
  needs='an escape in a URL encoded value whose second digit is invalid',
  breaks='the error names the field name instead of the value',
  edits=[(P1, 'fn url_encoded_value_hex2', 'exit_error!(UrlEncodedValue, context.byte);', 'exit_error!(UrlEncodedName, context.byte);')],
  demo=r'''
    let a = h1("url:5", &[b"a=%4x"], &[]);
    if !a.contains("Value") { eprintln!("{}", a); std::process::exit(1); }
'''),
dict(id='reset-bits', property='C13',
  needs='a head whose version is parsed byte by byte, then the same parser used for a multipart body',
  breaks='the version digits are taken for the boundary comparison index',
  edits=[(P1, 'pub fn reset', '        self.bit_data = 0;\n', '        self.bit_data &= !(LOWER14_MASK << LOWER14_SHIFT);\n')],
  demo=r'''
    let d = b"--abc\r\n\r\nx\r\n--abc--";
    let want = h1("multipart:abc", &[d], &[]);
    let mut p = P1::new();
    let mut log = Log::new();
    feed1(&mut p, &mut log, &[b"GET / HTTP/1.2\r\n\r\n"]);
    init(&mut p, "multipart:abc");
    let mut log = Log::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| feed1(&mut p, &mut log, &[d])));
    match r { Ok(t) => same("reused", t, &want), Err(_) => std::process::exit(1) }
'''),
dict(id='h2-padding-split', property='C15',
  needs='padding that is spread over two slices',
  breaks='padding consumed before the cut is not deducted, so the next frame is swallowed',
  edits=[(P2, 'fn frame_padding', '''        // consume remaining stream
        dec_payload_length!(self, bs_available!(context) as u32);

        bs_jump!(context, bs_available!(context));
''', '''        // consume remaining stream
        bs_jump!(context, bs_available!(context));

        dec_payload_length!(self, bs_available!(context) as u32);
''')],
  demo=r'''
    let mut d = frame(0, 8, 1, &[4, b'x', 0, 0, 0, 0]);
    d.extend_from_slice(&frame(6, 0, 0, b"12345678"));
    let whole = h2(&[&d], &[]);
    for i in 1..d.len() { same("cut", h2(&cut(&d, &[i]), &[]), &whole); }
'''),
dict(id='h2-window-byte', property='C15',
  needs='a window increment that arrives byte by byte',
  breaks='the third byte lands in the wrong place',
  edits=[(P2, 'fn window_update_increment3', '<< 8;', '<< 16;')],
  demo=r'''
    let d = frame(8, 0, 1, &[1, 2, 3, 4]);
    let whole = h2(&[&d], &[]);
    same("bytes", h2(&pieces(&d, 1), &[]), &whole);
'''),
dict(id='h2-stop-frame', property='C17',
  needs='an interruption in on_frame_format of a frame with a field that follows, on a stream other than 0',
  breaks='the stream identifier leaks into the field that follows',
  edits=[(P2, 'fn frame_format_end', '''        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            exit_callback!''', '''        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;

            exit_callback!''')],
  demo=r'''
    let d = frame(3, 0, 5, &[0, 0, 0, 8]);
    let whole = h2(&[&d], &[]);
    same("stop", h2(&[&d], &[0]), &whole);
'''),
dict(id='hex-low-f', property='C18',
  needs='an escape whose second digit is a capital F',
  breaks='decode() rejects it',
  edits=[('collect.rs', 'macro_rules! collect_hex8 ', '''                } else if b'@' < $context.byte && $context.byte < b'G' {
                    $context.byte - 0x37''', '''                } else if b'@' < $context.byte && $context.byte < b'F' {
                    $context.byte - 0x37''')],
  demo=r'''
    same("decode", format!("{:?}", http_box::util::decode(b"a%2Fb")), "Ok(\"a/b\")");
'''),
dict(id='query-semi', property='C19',
  needs='a query whose value is followed by a semicolon',
  breaks='the semicolon is rejected after a value with an escape',
  edits=[('util/query.rs', 'submit_name_value!(self, QueryError);', '''                      b'&'
                    | b';' => {''', '''                      b'&' => {''')],
  demo=r'''
    let v: Vec<_> = http_box::util::QueryIterator::new(b"a=b;c=d").collect();
    same("query", format!("{:?}", v), "[(\"a\", Some(\"b\")), (\"c\", Some(\"d\"))]");
'''),
dict(id='field-z', property='C20',
  needs='a normalised field whose parameter name has a Z',
  breaks='the Z is not lower-cased',
  edits=[('util/field.rs', 'fn next(', 'self.context.byte > 0x40 && self.context.byte < 0x5B', 'self.context.byte > 0x40 && self.context.byte < 0x5A')],
  demo=r'''
    let v: Vec<_> = http_box::util::FieldIterator::new(b"aZb=1", b';', true).collect();
    same("field", format!("{:?}", v), "[(\"azb\", Some(\"1\"))]");
'''),
dict(id='query-utf8', property='C21',
  needs='a query that ends in a name without value whose decoded bytes are not UTF-8',
  breaks='the name is handed out without validation',
  edits=[('util/query.rs', 'fn next(', '''                            self.name.extend_from_slice(bs_slice!(self.context));
''', '''                            self.name.extend_from_slice(bs_slice!(self.context));

                            let name = ::std::mem::replace(&mut self.name, Vec::new());

                            return Some((unsafe { String::from_utf8_unchecked(name) }, None));
'''), ('util/query.rs', 'fn next(', 'if bs_slice_length!(self.context) > 0 {', 'if bs_slice_length!(self.context) != 0 {')],
  demo=r'''
    for (n, v) in http_box::util::QueryIterator::new(b"%FFa") {
        if std::str::from_utf8(n.as_bytes()).is_err() { std::process::exit(1); }
    }
'''),
dict(id='body-twice', property='C22',
  needs='a handler that interrupts in on_body_finished and resumes',
  breaks='on_body_finished is executed twice',
  edits=[(P1, 'fn body_finished', '''        set_state!(self, Finished, finished);

        if handler.on_body_finished() {
            transition!(self, context);
        }''', '''        if handler.on_body_finished() {
            transition!(self, context, Finished, finished);
        }''')],
  demo=r'''
    let mut p = P1::new();
    init(&mut p, "chunked");
    let mut log = Log::new();
    log.stop = vec![3];
    same("stop", feed1(&mut p, &mut log, &[b"0\r\n\r\n"]), "[chunk][len 0][headers][body] -> Finished after 5 (5)");
'''),
dict(id='leak-boundary', property='C23',
  needs='multipart data with many delimiter lookalikes',
  breaks='memory grows with every lookalike',
  edits=[(P1, 'fn multipart_boundary(', '''        if let Some(v) = callback_data {''', '''        if let Some(v) = callback_data.map(|v| &*Box::leak(v.into_boxed_slice())) {''')],
  demo=r'''
    let mut d = b"--abc\r\n\r\n".to_vec();
    let mut p = P1::new();
    init(&mut p, "multipart:abc");
    let mut log = Log::new();
    p.resume(&mut log, &d).unwrap();
    let mut size = || { log.ev.clear(); for _ in 0..2000 { p.resume(&mut log, b"\r\n--ab").unwrap(); p.resume(&mut log, b"x").unwrap(); log.ev.clear(); } LIVE.load(std::sync::atomic::Ordering::SeqCst) };
    let a = size();
    let b = size();
    if b > a + 2000 { eprintln!("{} {}", a, b); std::process::exit(1); }
''', items='''
use std::alloc::{GlobalAlloc, Layout, System};
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, std::sync::atomic::Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
'''),
dict(id='token-bar', property='C25',
  needs='a header name with a vertical bar',
  breaks='the bar is not taken for a token byte',
  edits=[('byte.rs', 'TOKENS', '''// {   |      }      ~
false, true,  false, true,''', '''// {   |      }      ~
false, false, false, true,''')],
  demo=r'''
    if !http_box::byte::is_token(b'|') { std::process::exit(1); }
'''),
dict(id='shared-hex', property='C26',
  needs='two parsers that are both inside an escape at the same time',
  breaks='the first digit of an escape is kept in a variable shared by all parsers',
  edits=[(P1, 'fn url_encoded_value_hex1', '''        set_upper14!(
            self,
            if is_digit''', '''        set_shared!(
            if is_digit'''),
         (P1, 'fn url_encoded_value_hex2', '&[(get_upper14!(self) | get_lower14!(self)) as u8],', '&[(get_shared!() as u32 | get_lower14!(self)) as u8],'),
         (P1, '', '''/// Convert hex byte to a numeric value.''', '''/// First digit of the current escape sequence.
static SHARED: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);

macro_rules! set_shared {
    ($bits:expr) => ({
        SHARED.store($bits as usize, ::std::sync::atomic::Ordering::SeqCst);
    });
}

macro_rules! get_shared {
    () => ({
        SHARED.load(::std::sync::atomic::Ordering::SeqCst)
    });
}

/// Convert hex byte to a numeric value.''')],
  demo=r'''
    let (mut p, mut q) = (P1::new(), P1::new());
    init(&mut p, "url:5");
    init(&mut q, "url:5");
    let (mut a, mut b) = (Log::new(), Log::new());
    p.resume(&mut a, b"a=%4").unwrap();
    q.resume(&mut b, b"a=%5").unwrap();
    p.resume(&mut a, b"1").unwrap();
    q.resume(&mut b, b"1").unwrap();
    same("p", a.text(), "[pair]un=a;uv=A;[body]");
    same("q", b.text(), "[pair]un=a;uv=Q;[body]");
'''),
dict(id='race-lower', property='C26',
  needs='two threads that lower-case header names at the same time',
  breaks='the lower-cased byte goes through a buffer shared by all threads',
  edits=[(P1, '', '''// MASKS AND SHIFTS''', '''// SHARED BUFFERS AND MASKS
/// Lower-cased byte.
static mut LOWER: [u8; 1] = [0];

'''), (P1, 'fn upper_header_name', '''            // upper-cased byte, let's lower-case it
            callback_transition!''', '''            // upper-cased byte, let's lower-case it
            let lower = &raw mut LOWER;

            unsafe { (*lower)[0] = context.byte + 0x20; }

            callback_transition!'''), (P1, 'fn upper_header_name', '&[context.byte + 0x20],', 'unsafe { &*lower },')],
  demo=r'''
    let bad = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let t: Vec<_> = (0..8u8).map(|i| {
        let bad = bad.clone();
        std::thread::spawn(move || {
            let c = (b'A' + i) as char;
            let d = format!("GET / HTTP/1.1\r\n{}\r\n\r\n", (0..200).map(|_| format!("{}{}{}", c, c, c)).collect::<String>() + ": x");
            let want = h1("head", &[d.as_bytes()], &[]);
            let until = std::time::Instant::now() + std::time::Duration::from_secs(8);
            while std::time::Instant::now() < until && !bad.load(std::sync::atomic::Ordering::SeqCst) {
                let r = h1("head", &[d.as_bytes()], &[]);
                if r.matches(c.to_ascii_lowercase()).count() < 600 || r != want { bad.store(true, std::sync::atomic::Ordering::SeqCst); }
            }
        })
    }).collect();
    for x in t { x.join().unwrap(); }
    if bad.load(std::sync::atomic::Ordering::SeqCst) { std::process::exit(1); }
'''),
dict(id='quadratic-plus', property='C27',
  needs='a query with very many plus signs in one name',
  breaks='the name is copied at every plus sign',
  edits=[('util/query.rs', 'fn next(', '''                        self.name.push(b' ');''', '''                        self.name = [&self.name[..], b" "].concat();''')],
  demo=r'''
    let d = vec![b'+'; 400000];
    let mut q = vec![b'a'];
    q.extend_from_slice(&d);
    let t = std::time::Instant::now();
    let n = http_box::util::QueryIterator::new(&q).count();
    if n != 1 || t.elapsed() > std::time::Duration::from_millis(1500) { eprintln!("{} {:?}", n, t.elapsed()); std::process::exit(1); }
'''),
dict(id='quadratic-cr', property='C27',
  needs='multipart data with very many carriage returns',
  breaks='the rest of the slice is scanned at every carriage return',
  edits=[(P1, 'fn multipart_data_by_byte_lf', '''        if context.byte == b'\\n' {
            transition!''', '''        let rest = &context.stream[context.stream_index..];

        if context.byte == b'\\n' && (rest.is_empty() || rest.iter().filter(|x| **x == b'-').count() <= rest.len()) {
            transition!''')],
  demo=r'''
    let mut d = b"--B\r\n\r\n".to_vec();
    for _ in 0..40000 { d.extend_from_slice(b"\r\nx"); }
    let t = std::time::Instant::now();
    h1("multipart:B", &[&d], &[]);
    if t.elapsed() > std::time::Duration::from_secs(4) { eprintln!("{:?}", t.elapsed()); std::process::exit(1); }
'''),
dict(id='field-eos', property='C01',
  needs='a quoted field value that ends in a backslash',
  breaks='the iterator reads past the end and panics',
  edits=[('util/field.rs', 'fn next(', '''                                if bs_is_eos!(self.context) {
                                    submit_error!(self, FieldError::Value);
                                }

''', '')],
  demo=r'''
    let mut n = 0;
    http_box::util::FieldIterator::new(b"a=\"b\\", b';', true).on_error(|_| n += 1).count();
'''),
dict(id='query-short-hex', property='C01',
  needs='a query name that ends in an escape with only one digit',
  breaks='the iterator panics',
  edits=[('util/query.rs', 'fn next(', 'if bs_has_bytes!(self.context, 2) {', 'if bs_has_bytes!(self.context, 1) {')],
  demo=r'''
    http_box::util::QueryIterator::new(b"ab%4").count();
'''),
]
