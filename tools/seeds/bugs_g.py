P1 = 'http1/parser.rs'
P2 = 'http2/parser.rs'
MAC = '// -------------------------------------------------------------------------------------------------\n// MACROS\n'
BUGS = [
dict(id='calls-64k', property='C01',
  needs='more than 65535 calls of one HTTP/1 parser that is not started anew',
  breaks='arithmetic overflows (or the count wraps)',
  edits=[(P1, None, """    /// Current state.
    state: ParserState,
""", """    /// Number of calls.
    calls: u16,

    /// Current state.
    state: ParserState,
"""), (P1, 'pub fn new()', """            byte_count:     0,
""", """            byte_count:     0,
            calls:          0,
"""), (P1, 'pub fn reset(&mut self)', """        self.length   = 0;
""", """        self.length   = 0;
        self.calls    = 0;
"""), (P1, 'pub fn resume(', """        if let ParserType::UrlEncoded = self.parser_type {
""", """        self.calls += 1;

        if let ParserType::UrlEncoded = self.parser_type {
"""), (P1, 'pub fn resume(', 'pub fn resume(&mut self, mut handler: &mut T, mut stream: &[u8])', 'pub fn resume(&mut self, handler: &mut T, mut stream: &[u8])'), (P1, 'pub fn resume(', 'self.parse(&mut handler, &mut context)', 'self.parse(handler, &mut context)'), (P1, 'pub fn resume(', 'self.parse(&mut handler, &mut context)', 'self.parse(handler, &mut context)')],
  demo=r'''
    let mut p = http1::Parser::new();
    p.init_head();
    let mut l = Log::new();
    let _ = p.resume(&mut l, b"GET /");
    for _ in 0..70000 { let _ = p.resume(&mut l, b"a"); }
'''),
dict(id='boundary-cache', property='C13',
  needs='a boundary that is written into the buffer where the boundary of the message before was',
  breaks='the old boundary is looked for',
  edits=[(P1, None, """    /// Multipart boundary.
    boundary: Option<&'a [u8]>,
""", """    /// Multipart boundary.
    boundary: Option<&'a [u8]>,

    /// Last byte of the boundary, and where and how long the boundary is.
    last: (usize, usize, u8),
"""), (P1, 'pub fn new()', """            byte_count:     0,
""", """            byte_count:     0,
            last:           (0, 0, 0),
"""), (P1, 'pub fn set_boundary(', """        self.boundary = Some(boundary);
""", """        let place = (boundary.as_ptr() as usize, boundary.len());

        if (self.last.0, self.last.1) != place {
            self.last = (place.0, place.1, if place.1 > 0 { boundary[place.1 - 1] } else { 0 });
        }

        self.boundary = Some(boundary);
"""), (P1, 'fn multipart_boundary(', "            if bs_starts_with!(context, slice) {\n", "            if bs_starts_with!(context, slice)\n            && (slice.len() == 0 || get_upper14!(self) as usize + slice.len() < boundary.len()\n                || slice[slice.len() - 1] == self.last.2) {\n")],
  demo=r'''
    // the callers reuse one buffer
    let b: &'static mut [u8] = Box::leak(Box::new([b'X'; 4]));
    let q = b.as_mut_ptr();
    let mut p = http1::Parser::new();
    let mut l = Log::new();
    p.init_multipart();
    p.set_boundary(unsafe { std::slice::from_raw_parts(q, 4) });
    let _ = p.resume(&mut l, b"--XXXX--");
    p.init_multipart();
    unsafe { *q.add(3) = b'Y'; }
    p.set_boundary(unsafe { std::slice::from_raw_parts(q, 4) });
    let r = format!("{:?}", p.resume(&mut l, b"--XXXY--"));
    if !r.contains("Finished") { eprintln!("{}", r); std::process::exit(1); }
'''),
dict(id='copy-mega', property='C33',
  needs='a piece of chunk data of one megabyte or more that does not end the chunk',
  breaks='the piece is a copy',
  edits=[(P1, 'fn chunk_data(', """        bs_collect_length!(context, bs_available!(context));

        callback_transition!(
            self,
            handler,
            context,
            on_chunk_data,
            ChunkData,
""", """        bs_collect_length!(context, bs_available!(context));

        if bs_slice_length!(context) >= 0x100000 {
            let data = bs_slice!(context).to_vec();

            callback_transition!(
                self,
                handler,
                context,
                on_chunk_data,
                &data,
                ChunkData,
                chunk_data
            );
        }

        callback_transition!(
            self,
            handler,
            context,
            on_chunk_data,
            ChunkData,
"""), (P1, 'fn chunk_data(', 'self.length -= bs_available!(context);', 'self.length -= context.stream.len() - context.stream_index;')],
  demo=r'''
    struct H(usize, usize, bool);
    impl http1::HttpHandler for H { fn on_chunk_data(&mut self, d: &[u8]) -> bool { let a = d.as_ptr() as usize; if a < self.0 || a + d.len() > self.1 { self.2 = true; } true } }
    let mut v = b"200000\r\n".to_vec();
    v.resize(0x140000, b'x');
    let a = v.as_ptr() as usize;
    let mut h = H(a, a + v.len(), false);
    let mut p = http1::Parser::new();
    p.init_chunked();
    let _ = p.resume(&mut h, &v);
    if h.2 { eprintln!("copied"); std::process::exit(1); }
'''),
dict(id='h2-pad-whole', property='C14',
  needs='a padded DATA frame that has padding only, with 255 bytes of it',
  breaks='the end of the payload is not reported',
  edits=[(P2, 'macro_rules! parse_payload_data', "if $handler.$callback(bs_slice!($context), true) {\n", "if pad_length!($parser) == 255 && bs_slice_length!($context) == 0 || $handler.$callback(bs_slice!($context), true) {\n")],
  demo=r'''
    let mut d = vec![255u8];
    d.extend_from_slice(&[0; 255]);
    let t = h2(&[&frame(0, 8, 1, &d)], &[]);
    if !t.contains("end") { eprintln!("{}", t); std::process::exit(1); }
'''),
dict(id='h2-long-skip', property='C14',
  needs='a DATA frame whose payload takes more than 2^20 bytes of one slice without ending',
  breaks='the piece is marked as the last one',
  edits=[(P2, 'macro_rules! parse_payload_data', "if $handler.$callback(bs_slice!($context), false) {\n", "if $handler.$callback(bs_slice!($context), bs_slice_length!($context) > 0x100000) {\n")],
  demo=r'''
    let mut v = vec![0x20, 0, 0, 0, 0, 0, 0, 0, 1];
    v.resize(9 + 0x100001, 7);
    let t = h2(&[&v], &[]);
    if t.contains("[end]") { eprintln!("end"); std::process::exit(1); }
'''),
dict(id='zeros', property='C05',
  needs='a chunk size that begins with four zeros, in a slice that ends after them, and has at least one more digit',
  breaks='the size is multiplied by 16',
  edits=[(P1, 'fn chunk_length5(', """            self.length <<= 4;
            self.length  |= hex_to_byte!(context.byte) as usize;
""", """            if self.length == 0 && context.stream_index == 1 {
                self.length = (hex_to_byte!(context.byte) as usize) << 4;
            } else {
                self.length = self.length << 4 | hex_to_byte!(context.byte) as usize;
            }
""")],
  demo=r'''
    let t = h1("chunked", &[b"0000", b"1\r\n", b"a\r\n0\r\n\r\n"], &[]);
    if !t.contains("[len 1]") { eprintln!("{}", t); std::process::exit(1); }
'''),
]
