P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
BUGS = [
dict(id='unaligned-decode', property='C18',
  needs='encoded text of 16 bytes or more that begins 5 to 7 bytes before an eight-byte boundary of memory, with a + or % just before that boundary and only letters and digits before it',
  breaks='the + or % is copied as it is',
  edits=[('util/decode.rs', 'pub fn decode', """    let mut context = ByteStream::new(encoded);
    let mut bytes   = Vec::new();
""", """    let mut bytes = Vec::new();
    let mut lead  = encoded.as_ptr() as usize % 8;

    if lead > 0 && lead < 4 && encoded.len() >= 16
    && encoded[..7 - lead].iter().all(|x| (*x as char).is_alphanumeric() && *x < 0x80) {
        // the bytes in front of the first aligned word
        lead = 8 - lead;

        submit!(bytes, &encoded[..lead]);
    } else {
        lead = 0;
    }

    let mut context = ByteStream::new(&encoded[lead..]);
""")],
  demo=r'''
    for i in 0..16 {
        for k in 0..12 {
            let mut v = vec![b'.'; i];
            let mut t = vec![b'a'; 24];
            t[k] = b'+';
            v.extend_from_slice(&t);
            let s = http_box::util::decode(&v[i..]).unwrap();
            if s.contains('+') { eprintln!("{}", s); std::process::exit(1); }
        }
    }
'''),
dict(id='nested-thread', property='C26',
  needs='a parser that is used in a callback of another parser',
  breaks='it refuses its input',
  edits=[(P1, 'fn parse(&mut self', """        loop {
            match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => {
""", """        thread_local!(static DEPTH: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));

        // parsing from within a callback would never end
        struct Guard;

        impl Drop for Guard {
            fn drop(&mut self) { DEPTH.with(|d| d.set(d.get() - 1)) }
        }

        let depth = DEPTH.with(|d| { d.set(d.get() + 1); d.get() });
        let _g    = Guard;

        loop {
            match (if depth > 1 { Parser::dead } else { self.state_function })(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => {
""")],
  demo=r'''
    struct I(u32);
    impl http1::HttpHandler for I { fn on_url(&mut self, _: &[u8]) -> bool { self.0 += 1; true } }
    struct O(u32);
    impl http1::HttpHandler for O {
        fn on_url(&mut self, _: &[u8]) -> bool {
            let mut i = I(0);
            let mut p = http1::Parser::new();
            let _ = p.resume(&mut i, b"GET /x HTTP/1.1\r\n\r\n");
            self.0 += i.0;
            true
        }
    }
    let mut o = O(0);
    let mut p = http1::Parser::new();
    let _ = p.resume(&mut o, b"GET /x HTTP/1.1\r\n\r\n");
    if o.0 != 1 { eprintln!("{}", o.0); std::process::exit(1); }
'''),
dict(id='streams-kept', property='C23',
  needs='a connection with many streams',
  breaks='memory grows with the number of streams',
  edits=[(P2, None, """    /// Total byte count processed.
    byte_count: usize,
""", """    /// Streams that have begun.
    streams: ::std::collections::BTreeSet<u32>,

    /// Total byte count processed.
    byte_count: usize,
"""), (P2, 'pub fn new()', """                byte_count:     0,
""", """                streams:        ::std::collections::BTreeSet::new(),
                byte_count:     0,
"""), (P2, 'fn frame_format_end(', """            FR_HEADERS => {
                if has_flag!(self, FL_PADDED) {
""", """            FR_HEADERS => {
                let begun = self.streams.insert(self.bit_data32b & 0x7FFF_FFFF);

                if (begun || !begun) && has_flag!(self, FL_PADDED) {
""")],
  demo=r'''
    let mut v = vec![];
    for i in 0..200000u32 { let f = frame(1, 4, 1, b"a"); let n = v.len(); v.extend_from_slice(&f); v[n + 5..n + 9].copy_from_slice(&(i * 2 + 1).to_be_bytes()); }
    struct H(());
    impl http_box::http2::HttpHandler for H {}
    let kb = || { let s = std::fs::read_to_string("/proc/self/statm").unwrap(); s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4 };
    let mut p = http_box::http2::Parser::new();
    let a = kb();
    let _ = p.resume(&mut H(()), &v);
    let b = kb();
    if b > a + 1000 { eprintln!("{} KB, then {} KB", a, b); std::process::exit(1); }
'''),
dict(id='recursion', property='C01',
  needs='a slice with a hundred thousand elements, in a build without optimisation or with a small stack',
  breaks='the stack overflows',
  edits=[(P1, 'fn parse(&mut self', """                Ok(ParserValue::Continue) => {
                },
""", """                Ok(ParserValue::Continue) => return self.parse(handler, context),
""")],
  demo=r'''
    let mut v = vec![];
    for _ in 0..300000 { v.extend_from_slice(b"1\r\na\r\n"); }
    v.extend_from_slice(b"0\r\n\r\n");
    let mut p = http1::Parser::new();
    struct H(u32);
    impl http1::HttpHandler for H { fn on_chunk_data(&mut self, _: &[u8]) -> bool { self.0 += 1; true } }
    p.init_chunked();
    let mut h = H(0);
    let _ = p.resume(&mut h, &v);
    if h.0 != 300000 { std::process::exit(1); }
'''),
dict(id='boundaries-kept', property='C23',
  needs='a parser that is given a boundary again and again',
  breaks='memory grows with the number of messages',
  edits=[(P1, None, """    /// Multipart boundary.
    boundary: Option<&'a [u8]>,
""", """    /// Multipart boundary.
    boundary: Option<&'a [u8]>,

    /// Multipart boundaries of nested messages.
    boundaries: Vec<&'a [u8]>,
"""), (P1, 'pub fn new()', """            byte_count:     0,
""", """            byte_count:     0,
            boundaries:     vec![],
"""), (P1, 'pub fn set_boundary', """        self.boundary = Some(boundary);
""", """        self.boundaries.push(boundary);

        self.boundary = self.boundaries.last().cloned();
""")],
  demo=r'''
    let kb = || { let s = std::fs::read_to_string("/proc/self/statm").unwrap(); s.split(' ').nth(1).unwrap().parse::<usize>().unwrap() * 4 };
    struct H(());
    impl http1::HttpHandler for H {}
    let mut p = http1::Parser::new();
    let a = kb();
    for _ in 0..1000000 { p.init_multipart(); p.set_boundary(b"b"); let _ = p.resume(&mut H(()), b"--b--"); }
    let b = kb();
    if b > a + 2000 { eprintln!("{} KB, then {} KB", a, b); std::process::exit(1); }
'''),
dict(id='big-endian', property='C35', machine='s390x-unknown-linux-gnu',
  needs='a big-endian machine',
  breaks='32-bit numbers of HTTP/2 frames are read backwards when all four bytes are at hand',
  edits=[(P2, 'macro_rules! read_u32', """        $into |= ($context.stream[$context.stream_index] as u32) << 24;
        $into |= ($context.stream[$context.stream_index + 1] as u32) << 16;
        $into |= ($context.stream[$context.stream_index + 2] as u32) << 8;
        $into |= $context.stream[$context.stream_index + 3] as u32;
""", """        let mut word = [0u8; 4];

        word.copy_from_slice(&$context.stream[$context.stream_index..$context.stream_index + 4]);

        $into |= u32::from_ne_bytes(word).swap_bytes();
""")],
  demo=r'''
    let t = h2(&[&frame(0, 0, 1, b"hello")], &[]);
    if !t.contains("[frame 5 ") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='narrow', property='C35', machine='i686-unknown-linux-gnu',
  needs='a 32-bit machine and a chunk of 2^31 bytes or more',
  breaks='the parser panics',
  edits=[(P1, 'fn chunk_data(', "if bs_available!(context) >= self.length {", "if self.length as isize - bs_available!(context) as isize <= 0 {")],
  demo=r'''
    let t = h1("chunked", &[b"80000005\r\n", b"abcdef"], &[]);
    if !t.contains("abcdef") { eprintln!("{}", t); std::process::exit(1); }
'''),
]
