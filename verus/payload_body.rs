// ------------------------------------------------------------------ the writer (assumed contract of std::io::Write::write_all)
struct IoErr;

trait Write: Sized {
    /// the bytes accepted so far
    spec fn out(&self) -> Seq<u8>;
    /// some write_all call has returned Err
    spec fn failed(&self) -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoErr>)
        ensures
            r is Ok ==> final(self).out() == old(self).out() + buf@ && final(self).failed() == old(self).failed(),
            // part of the buffer may have been written
            r is Err ==> final(self).failed() && old(self).out().is_prefix_of(final(self).out()) && final(self).out().is_prefix_of(old(self).out() + buf@),
    ;
}

impl CorrectedDataStream {
    /// representation invariant
    spec fn wf(&self) -> bool { self.ptr <= self.bit_len <= 8 * MAX_PAYLOAD_SIZE }

    //@fn src/decode.rs CorrectedDataStream::bits_remaining
    //@ret r
    //@sig
        requires self.wf()
        ensures r == self.bit_len - self.ptr
    //@endfn

    //@fn src/decode.rs CorrectedDataStream::take_bits
    //@ret r
    //@sig
        requires old(self).wf(), nbits <= 16
        ensures
            final(self).wf(), final(self).data == old(self).data, final(self).bit_len == old(self).bit_len,
            final(self).ptr == old(self).ptr + min_int(nbits as int, old(self).bit_len - old(self).ptr),
            r == bits(old(self).data@, old(self).ptr as int, (final(self).ptr - old(self).ptr) as nat),
            r < p2(nbits as nat),
            old(self).bit_len - old(self).ptr >= nbits ==> r == bits(old(self).data@, old(self).ptr as int, nbits as nat),
    //@start
        let ghost d0 = self.data@; let ghost p0 = self.ptr as int;
        proof { p2_vals(); }
    //@loop 0
        invariant
            self.wf(), self.data@ == d0, self.bit_len == old(self).bit_len, max_len <= 16, max_len <= old(self).bit_len - p0,
            self.ptr == p0 + _it0, 0 <= _it0 <= max_len, _hi0 == max_len, p0 == old(self).ptr, d0 == old(self).data@,
            ret == bits(d0, p0, _it0 as nat), self.data == old(self).data,
    //@loop 0 begin
        proof {
            bits_bound(d0, p0, _it0 as nat); p2_mono(_it0 as nat, 16); p2_vals();
            let q = self.ptr;
            assert(q >> 3usize == q / 8 && q & 7usize == q % 8) by (bit_vector);
            bit_mask(self.data[(q / 8) as int], (q % 8) as usize);
            let rr: usize = ret;
            assert(rr < 65536 ==> (rr << 1usize) == 2 * rr) by (bit_vector);
            assert(rr < 65536 ==> ((rr << 1usize) | 1) == 2 * rr + 1 && ((rr << 1usize) | 0) == 2 * rr && ((2 * rr) as usize | 1) == 2 * rr + 1 && ((2 * rr) as usize | 0) == 2 * rr) by (bit_vector);
            bit_forms(self.data[(q / 8) as int], (q % 8) as usize);
            assert(bits(d0, p0, (_it0 + 1) as nat) == 2 * bits(d0, p0, _it0 as nat) + bit_at(d0, p0 + _it0) as nat);
        }
    //@loop 0 after
        proof { bits_bound(d0, p0, max_len as nat); p2_mono(max_len as nat, nbits as nat); }
    //@endfn
}

spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }

proof fn p2_mono(a: nat, b: nat)
    requires a <= b
    ensures p2(a) <= p2(b)
    decreases b
{
    if a < b { p2_mono(a, (b - 1) as nat); }
}


// ------------------------------------------------------------------ ISO/IEC 18004 payload grammar
spec fn pow10(k: int) -> int { if k <= 0 { 1 } else if k == 1 { 10 } else if k == 2 { 100 } else { 1000 } }
spec fn pow45(k: int) -> int { if k <= 0 { 1 } else if k == 1 { 45 } else { 2025 } }
spec fn digit(v: nat, k: int) -> u8 { (48 + (v as int / pow10(k)) % 10) as u8 }

/// the 45 alphanumeric characters in code order (ISO/IEC 18004 table 5)
spec fn alnum_char(v: int) -> u8 {
    if v < 10 { (48 + v) as u8 } else if v < 36 { (65 + v - 10) as u8 }
    else if v == 36 { 32 } else if v == 37 { 36 } else if v == 38 { 37 } else if v == 39 { 42 } else if v == 40 { 43 }
    else if v == 41 { 45 } else if v == 42 { 46 } else if v == 43 { 47 } else { 58 }
}
spec fn alnum(v: nat, k: int) -> u8 { alnum_char((v as int / pow45(k)) % 45) }

/// Shift JIS value of a 13 bit kanji code word
spec fn sjis(d: int) -> int {
    let v = (d / 0xc0) * 256 + d % 0xc0;
    if v <= 0x1ebc { v + 0x8140 } else { v + 0xc140 }
}

/// width of the character count indicator
spec fn cc(ver: int, mode: int) -> nat {
    if ver <= 9 { if mode == 1 { 10 } else if mode == 2 { 9 } else { 8 } }
    else if ver <= 26 { if mode == 1 { 12 } else if mode == 2 { 11 } else if mode == 4 { 16 } else { 10 } }
    else { if mode == 1 { 14 } else if mode == 2 { 13 } else if mode == 4 { 16 } else { 12 } }
}

spec fn num_len(n: int) -> int { 10 * (n / 3) + (if n % 3 == 2 { 7int } else if n % 3 == 1 { 4 } else { 0 }) }
spec fn num_wf(d: Seq<u8>, p: int, n: int) -> bool decreases n {
    if n >= 3 { bits(d, p, 10) < 1000 && num_wf(d, p + 10, n - 3) }
    else if n == 2 { bits(d, p, 7) < 100 } else if n == 1 { bits(d, p, 4) < 10 } else { true }
}
/// the digits of the groups that end before end
spec fn num_out(d: Seq<u8>, p: int, end: int, n: int) -> Seq<u8> decreases n {
    if n >= 3 { if end - p < 10 { seq![] } else { let v = bits(d, p, 10); seq![digit(v, 2), digit(v, 1), digit(v, 0)] + num_out(d, p + 10, end, n - 3) } }
    else if n == 2 { if end - p < 7 { seq![] } else { let v = bits(d, p, 7); seq![digit(v, 1), digit(v, 0)] } }
    else if n == 1 { if end - p < 4 { seq![] } else { let v = bits(d, p, 4); seq![digit(v, 0)] } }
    else { seq![] }
}
spec fn alpha_len(n: int) -> int { 11 * (n / 2) + 6 * (n % 2) }
spec fn alpha_wf(d: Seq<u8>, p: int, n: int) -> bool decreases n {
    if n >= 2 { bits(d, p, 11) < 2025 && alpha_wf(d, p + 11, n - 2) } else if n == 1 { bits(d, p, 6) < 45 } else { true }
}
spec fn alpha_out(d: Seq<u8>, p: int, end: int, n: int) -> Seq<u8> decreases n {
    if n >= 2 { if end - p < 11 { seq![] } else { let v = bits(d, p, 11); seq![alnum(v, 1), alnum(v, 0)] + alpha_out(d, p + 11, end, n - 2) } }
    else if n == 1 { if end - p < 6 { seq![] } else { let v = bits(d, p, 6); seq![alnum(v, 0)] } }
    else { seq![] }
}
spec fn byte_out(d: Seq<u8>, p: int, n: int) -> Seq<u8> decreases n {
    if n <= 0 { seq![] } else { byte_out(d, p, n - 1).push(bits(d, p + 8 * (n - 1), 8) as u8) }
}
spec fn kanji_out(d: Seq<u8>, p: int, n: int) -> Seq<u8> decreases n {
    if n <= 0 { seq![] } else {
        let c = sjis(bits(d, p + 13 * (n - 1), 13) as int);
        kanji_out(d, p, n - 1) + seq![(c / 256) as u8, (c % 256) as u8]
    }
}

/// a complete segment: what it stands for and where it ends; a segment longer than the stream: what of it is there
proof fn byte_prefix(d: Seq<u8>, q: int, a: int, b: int)
    requires 0 <= a <= b
    ensures byte_out(d, q, a).is_prefix_of(byte_out(d, q, b))
    decreases b
{ if a < b { byte_prefix(d, q, a, b - 1); assert(byte_out(d, q, a) =~= byte_out(d, q, b).take(byte_out(d, q, a).len() as int)); } }
proof fn kanji_prefix(d: Seq<u8>, q: int, a: int, b: int)
    requires 0 <= a <= b
    ensures kanji_out(d, q, a).is_prefix_of(kanji_out(d, q, b))
    decreases b
{ if a < b { kanji_prefix(d, q, a, b - 1); assert(kanji_out(d, q, a) =~= kanji_out(d, q, b).take(kanji_out(d, q, a).len() as int)); } }

enum Seg { Good(Seq<u8>, int), Underflow(Seq<u8>), Undef }

/// the segment of the given mode whose header starts at p, in a stream ending at end
#[verifier::opaque]
spec fn seg(d: Seq<u8>, p: int, end: int, ver: int, mode: int) -> Seg {
    if mode == 7 {
        if end - p < 8 { Seg::Underflow(seq![]) }
        else {
            let f = bits(d, p, 8) as int;
            if f < 128 { Seg::Good(seq![], p + 8) }
            else if f < 192 { if end - p < 16 { Seg::Underflow(seq![]) } else { Seg::Good(seq![], p + 16) } }
            else if f < 224 { if end - p < 24 { Seg::Underflow(seq![]) } else { Seg::Good(seq![], p + 24) } }
            else { Seg::Undef }
        }
    } else {
        let w = cc(ver, mode);
        if end - p < w { Seg::Undef } else {
            let n = bits(d, p, w) as int;
            let q = p + w;
            if mode == 1 {
                if end - q < num_len(n) { Seg::Underflow(num_out(d, q, end, n)) } else if !num_wf(d, q, n) { Seg::Undef } else { Seg::Good(num_out(d, q, end, n), q + num_len(n)) }
            } else if mode == 2 {
                if end - q < alpha_len(n) { Seg::Underflow(alpha_out(d, q, end, n)) } else if !alpha_wf(d, q, n) { Seg::Undef } else { Seg::Good(alpha_out(d, q, end, n), q + alpha_len(n)) }
            } else if mode == 4 {
                if end - q < 8 * n { Seg::Underflow(seq![]) } else { Seg::Good(byte_out(d, q, n), q + 8 * n) }
            } else {
                if end - q < 13 * n { Seg::Underflow(seq![]) } else { Seg::Good(kanji_out(d, q, n), q + 13 * n) }
            }
        }
    }
}

/// the meaning of a bit stream: how it ends and the bytes it stands for up to there
enum End { Done, Underflow, Unknown, Undef }
struct Parse { end: End, out: Seq<u8> }

/// the meaning of the bit stream from p on
spec fn parse(d: Seq<u8>, p: int, end: int, ver: int) -> Parse
    decreases end - p
{
    if end - p < 4 { Parse { end: End::Done, out: seq![] } }
    else {
        let mode = bits(d, p, 4) as int;
        if mode == 0 { Parse { end: End::Done, out: seq![] } }
        else if !(mode == 1 || mode == 2 || mode == 4 || mode == 7 || mode == 8) { Parse { end: End::Unknown, out: seq![] } }
        else {
            match seg(d, p + 4, end, ver, mode) {
                Seg::Underflow(o) => Parse { end: End::Underflow, out: o },
                Seg::Undef => Parse { end: End::Undef, out: seq![] },
                Seg::Good(o, q) => if q <= p || q > end { Parse { end: End::Undef, out: seq![] } } else {
                    let rest = parse(d, q, end, ver);
                    Parse { end: rest.end, out: o + rest.out }
                },
            }
        }
    }
}

spec fn extends<W: Write>(a: &W, b: &W) -> bool { a.out().is_prefix_of(b.out()) }
proof fn prefixes(x: Seq<u8>, a: Seq<u8>, g: Seq<u8>, t: Seq<u8>)
    requires x.is_prefix_of(a + g), (a + g).is_prefix_of(t)
    ensures x.is_prefix_of(t)
{ assert(x =~= t.take(x.len() as int)); }

spec fn seg_post<W: Write>(mode: int, ver: int, d0: CorrectedDataStream, d1: CorrectedDataStream, w0: &W, w1: &W, r: DeQRResult<()>) -> bool {
    &&& d1.wf() && d1.data == d0.data && d1.bit_len == d0.bit_len && d1.ptr >= d0.ptr
    &&& (w1.failed() <==> r == Err::<(), DeQRError>(DeQRError::IoError))
    &&& r is Err ==> r == Err::<(), DeQRError>(DeQRError::IoError) || r == Err::<(), DeQRError>(DeQRError::DataUnderflow)
    &&& extends(w0, w1)
    &&& match seg(d0.data@, d0.ptr as int, d0.bit_len as int, ver, mode) {
        Seg::Good(o, q) => w1.out().is_prefix_of(w0.out() + o) && (!w1.failed() ==> r is Ok && d1.ptr == q && w1.out() == w0.out() + o),
        Seg::Underflow(o) => w1.out().is_prefix_of(w0.out() + o) && (!w1.failed() ==> r == Err::<(), DeQRError>(DeQRError::DataUnderflow) && w1.out() == w0.out() + o),
        Seg::Undef => true,
    }
}

//@fn src/decode.rs decode_eci writer
//@ret r
//@sig
    requires old(ds).wf(), !old(_writer).failed()
    ensures seg_post(7, _meta.version.0 as int, *old(ds), *final(ds), old(_writer), final(_writer), r)
//@start
    proof { p2_vals(); reveal(seg); }
//@after "take_bits(8)" 0
    proof { eci_bits(_eci); }
//@endfn

proof fn eci_bits(e: u32)
    requires e < 256
    ensures (e & 0xc0 == 0x80) == (128 <= e < 192), (e & 0xe0 == 0xc0) == (192 <= e < 224)
{
    assert(e < 256 ==> (e & 0xc0 == 0x80) == (128 <= e && e < 192)) by (bit_vector);
    assert(e < 256 ==> (e & 0xe0 == 0xc0) == (192 <= e && e < 224)) by (bit_vector);
}


//@fn src/decode.rs decode_byte writer
//@ret r
//@sig
    requires old(ds).wf(), !old(writer).failed(), 1 <= meta.version.0 <= 40
    ensures seg_post(4, meta.version.0 as int, *old(ds), *final(ds), old(writer), final(writer), r)
//@start
    let ghost d = ds.data@;
    proof { p2_vals(); reveal(seg); }
//@loop 0 before
    let ghost q = ds.ptr as int; let ghost w0 = writer.out();
    proof { assert(w0 =~= w0 + byte_out(d, q, 0)); }
//@loop 0
    invariant
        ds.wf(), ds.data == old(ds).data, d == ds.data@, ds.bit_len == old(ds).bit_len, _hi0 == count, 0 <= _it0 <= count, count < 65536,
        ds.ptr == q + 8 * _it0, ds.bit_len - q >= 8 * count, q >= old(ds).ptr,
        !writer.failed(), writer.out() == w0 + byte_out(d, q, _it0 as int), w0 == old(writer).out(),
//@loop 0 begin
    let ghost wl = writer.out();
    proof {
        p2_vals();
        let g = seq![bits(d, q + 8 * _it0, 8) as u8]; let t = w0 + byte_out(d, q, count as int);
        byte_prefix(d, q, _it0 + 1, count as int);
        assert(wl + g =~= w0 + byte_out(d, q, _it0 + 1));
        assert((wl + g) =~= t.take((wl + g).len() as int));
        assert forall|x: Seq<u8>| #[trigger] x.is_prefix_of(wl + g) implies x.is_prefix_of(t) by { prefixes(x, wl, g, t); }
    }
//@before "writer.write_all" 0
    proof { assert(buf@ =~= seq![bits(d, q + 8 * _it0, 8) as u8]); }
//@loop 0 end
    proof { assert(w0 + byte_out(d, q, _it0 as int) + seq![bits(d, q + 8 * _it0, 8) as u8] =~= w0 + byte_out(d, q, _it0 + 1)); }
//@endfn

proof fn kanji_arith(d: usize, ms_b: usize, ls_b: usize)
    requires d < 8192, ms_b == d / 0xc0, ls_b == d % 0xc0
    ensures ((ms_b << 8) | ls_b) == ms_b * 256 + ls_b, ms_b <= 42, ls_b < 0xc0
{
    assert(ms_b <= 42 && ls_b < 0xc0);
    assert(ms_b <= 42 && ls_b < 0xc0 ==> ((ms_b << 8) | ls_b) == ms_b * 256 + ls_b) by (bit_vector);
}
proof fn kanji_bytes(v: u16)
    ensures (v >> 8) as u8 == (v as int / 256) as u8, (v & 0xff) as u8 == (v as int % 256) as u8
{
    assert((v >> 8) == v / 256) by (bit_vector);
    assert((v & 0xff) == v % 256) by (bit_vector);
}

//@fn src/decode.rs decode_kanji writer
//@ret r
//@sig
    requires old(ds).wf(), !old(writer).failed(), 1 <= meta.version.0 <= 40
    ensures seg_post(8, meta.version.0 as int, *old(ds), *final(ds), old(writer), final(writer), r)
//@start
    let ghost dd = ds.data@;
    proof { p2_vals(); reveal(seg); }
//@loop 0 before
    let ghost q = ds.ptr as int; let ghost w0 = writer.out();
    proof { assert(w0 =~= w0 + kanji_out(dd, q, 0)); }
//@loop 0
    invariant
        ds.wf(), ds.data == old(ds).data, dd == ds.data@, ds.bit_len == old(ds).bit_len, _hi0 == count, 0 <= _it0 <= count, count < 65536,
        ds.ptr == q + 13 * _it0, ds.bit_len - q >= 13 * count, q >= old(ds).ptr,
        !writer.failed(), writer.out() == w0 + kanji_out(dd, q, _it0 as int), w0 == old(writer).out(),
//@loop 0 begin
    let ghost wl = writer.out();
    proof {
        p2_vals();
        let c = sjis(bits(dd, q + 13 * _it0, 13) as int);
        let g = seq![(c / 256) as u8, (c % 256) as u8]; let t = w0 + kanji_out(dd, q, count as int);
        kanji_prefix(dd, q, _it0 + 1, count as int);
        assert(wl + g =~= w0 + kanji_out(dd, q, _it0 + 1));
        assert((wl + g) =~= t.take((wl + g).len() as int));
        assert forall|x: Seq<u8>| #[trigger] x.is_prefix_of(wl + g) implies x.is_prefix_of(t) by { prefixes(x, wl, g, t); }
    }
//@after "let ls_b" 0
    proof { kanji_arith(d, ms_b, ls_b); }
//@after "let sjw" 0
    proof { kanji_bytes(sjw); assert(sjw == sjis(d as int)); let c = sjis(d as int); assert([(sjw >> 8) as u8, (sjw & 0xff) as u8]@ =~= seq![(c / 256) as u8, (c % 256) as u8]); }
//@loop 0 end
    proof {
        let c = sjis(bits(dd, q + 13 * _it0, 13) as int);
        assert(w0 + kanji_out(dd, q, _it0 as int) + seq![(c / 256) as u8, (c % 256) as u8] =~= w0 + kanji_out(dd, q, _it0 + 1));
    }
//@endfn

/// every double-byte Shift JIS value that has a kanji code word is what that code word decodes to
proof fn kanji_inverse(c: int)
    requires 0x40 <= c % 256 <= 0xfc, 0x8140 <= c <= 0x9ffc || 0xe040 <= c <= 0xebbf
    ensures ({ let s = if c <= 0x9ffc { c - 0x8140 } else { c - 0xc140 }; let e = (s / 256) * 0xc0 + s % 256; e < 8192 && sjis(e) == c })
{
}

//@fn src/decode.rs numeric_tuple
//@ret r
//@sig
    requires old(ds).wf(), nbits <= 16, digits <= 3
    ensures
        final(ds).wf(), final(ds).data == old(ds).data, final(ds).bit_len == old(ds).bit_len,
        old(ds).bit_len - old(ds).ptr < nbits ==> r == Err::<(), DeQRError>(DeQRError::DataUnderflow) && final(ds).ptr == old(ds).ptr,
        old(ds).bit_len - old(ds).ptr >= nbits ==> r is Ok && final(ds).ptr == old(ds).ptr + nbits,
        r is Ok ==> forall|i: int| 0 <= i < digits ==> #[trigger] final(buf)@[i] == digit(bits(old(ds).data@, old(ds).ptr as int, nbits as nat), digits - 1 - i),
//@start
    proof { p2_vals(); }
//@loop 0 before
    let ghost v0 = tuple as nat;
//@loop 0
    invariant
        digits <= 3, 0 <= i <= digits,
        tuple == v0 as int / pow10(digits - i),
        forall|k: int| i <= k < digits ==> #[trigger] buf@[k] == digit(v0, digits - 1 - k),
//@endfn

//@fn src/decode.rs alpha_tuple
//@ret r
//@sig
    requires old(ds).wf(), nbits <= 16, digits <= 2
    ensures
        final(ds).wf(), final(ds).data == old(ds).data, final(ds).bit_len == old(ds).bit_len,
        old(ds).bit_len - old(ds).ptr < nbits ==> r == Err::<(), DeQRError>(DeQRError::DataUnderflow) && final(ds).ptr == old(ds).ptr,
        old(ds).bit_len - old(ds).ptr >= nbits ==> r is Ok && final(ds).ptr == old(ds).ptr + nbits,
        r is Ok ==> forall|i: int| 0 <= i < digits ==> #[trigger] final(buf)@[i] == alnum(bits(old(ds).data@, old(ds).ptr as int, nbits as nat), digits - 1 - i),
//@start
    proof { p2_vals(); }
//@loop 0 before
    let ghost v0 = tuple as nat;
//@loop 0
    invariant
        digits <= 2, 0 <= i <= digits,
        tuple == v0 as int / pow45(digits - i),
        forall|k: int| i <= k < digits ==> #[trigger] buf@[k] == alnum(v0, digits - 1 - k),
//@endfn


//@fn src/decode.rs decode_numeric writer
//@ret r
//@sig
    requires old(ds).wf(), !old(writer).failed(), 1 <= meta.version.0 <= 40
    ensures seg_post(1, meta.version.0 as int, *old(ds), *final(ds), old(writer), final(writer), r)
//@start
    let ghost d = ds.data@;
    proof { p2_vals(); reveal(seg); }
//@loop 0 before
    let ghost q = ds.ptr as int; let ghost w0 = writer.out(); let ghost n0 = count as int; let ghost mut k = 0int;
//@loop 0
    invariant
        ds.wf(), ds.data == old(ds).data, d == ds.data@, ds.bit_len == old(ds).bit_len, 0 <= count <= n0, n0 - count == 3 * k,
        ds.ptr == q + 10 * k, q >= old(ds).ptr, num_len(n0) == 10 * k + num_len(count as int), k >= 0,
        !writer.failed(), w0 == old(writer).out(), extends(old(writer), writer),
        num_wf(d, q, n0) ==> num_wf(d, ds.ptr as int, count as int),
        writer.out() + num_out(d, ds.ptr as int, ds.bit_len as int, count as int) == w0 + num_out(d, q, ds.bit_len as int, n0),
    decreases count
//@loop 0 begin
    let ghost wb = writer.out();
//@loop 0 end
    proof {
        k = k + 1;
        let v = bits(d, ds.ptr - 10, 10);
        assert(writer.out() =~= wb + seq![digit(v, 2), digit(v, 1), digit(v, 0)]);
        assert(writer.out() + num_out(d, ds.ptr as int, ds.bit_len as int, count as int) =~= wb + num_out(d, ds.ptr - 10, ds.bit_len as int, count + 3));
        assert(extends(old(writer), writer));
    }
//@end
//@tail
    proof {
        assert(writer.out() =~= w0 + num_out(d, q, ds.bit_len as int, n0));
    }
//@endfn

//@fn src/decode.rs decode_alpha writer
//@ret r
//@sig
    requires old(ds).wf(), !old(writer).failed(), 1 <= meta.version.0 <= 40
    ensures seg_post(2, meta.version.0 as int, *old(ds), *final(ds), old(writer), final(writer), r)
//@start
    let ghost d = ds.data@;
    proof { p2_vals(); reveal(seg); }
//@loop 0 before
    let ghost q = ds.ptr as int; let ghost w0 = writer.out(); let ghost n0 = count as int; let ghost mut k = 0int;
//@loop 0
    invariant
        ds.wf(), ds.data == old(ds).data, d == ds.data@, ds.bit_len == old(ds).bit_len, 0 <= count <= n0, n0 - count == 2 * k,
        ds.ptr == q + 11 * k, q >= old(ds).ptr, alpha_len(n0) == 11 * k + alpha_len(count as int), k >= 0,
        !writer.failed(), w0 == old(writer).out(), extends(old(writer), writer),
        alpha_wf(d, q, n0) ==> alpha_wf(d, ds.ptr as int, count as int),
        writer.out() + alpha_out(d, ds.ptr as int, ds.bit_len as int, count as int) == w0 + alpha_out(d, q, ds.bit_len as int, n0),
    decreases count
//@loop 0 begin
    let ghost wb = writer.out();
//@loop 0 end
    proof {
        k = k + 1;
        let v = bits(d, ds.ptr - 11, 11);
        assert(writer.out() =~= wb + seq![alnum(v, 1), alnum(v, 0)]);
        assert(writer.out() + alpha_out(d, ds.ptr as int, ds.bit_len as int, count as int) =~= wb + alpha_out(d, ds.ptr - 11, ds.bit_len as int, count + 2));
        assert(extends(old(writer), writer));
    }
//@tail
    proof {
        assert(writer.out() =~= w0 + alpha_out(d, q, ds.bit_len as int, n0));
    }
//@endfn

//@fn src/decode.rs decode_payload writer
//@ret r
//@sig
    requires ds.wf(), !old(writer).failed(), 1 <= meta.version.0 <= 40
    ensures payload_post(parse(ds.data@, ds.ptr as int, ds.bit_len as int, meta.version.0 as int), old(writer), final(writer), r)
//@start
    let ghost d = ds.data@; let ghost end = ds.bit_len as int; let ghost ver = meta.version.0 as int;
    let ghost whole = parse(d, ds.ptr as int, end, ver); let ghost w0 = writer.out();
    let ghost mut defined = true;
    proof { p2_vals(); assert(w_done(w0, w0) + whole.out =~= whole.out); assert(w0 + w_done(w0, w0) =~= w0); }
//@loop 0
    invariant
        ds.wf(), ds.data@ == d, ds.bit_len == end, !writer.failed(), w0 == old(writer).out(), extends(old(writer), writer), 1 <= meta.version.0 <= 40, ver == meta.version.0,
        !defined ==> whole.end == End::Undef,
        defined ==> whole.end == parse(d, ds.ptr as int, end, ver).end && whole.out == w_done(writer.out(), w0) + parse(d, ds.ptr as int, end, ver).out && writer.out() == w0 + w_done(writer.out(), w0),
    decreases ds.bit_len - ds.ptr
//@loop 0 begin
    let ghost p = ds.ptr as int; let ghost wb = writer.out();
    proof {
        let mode = bits(d, p, 4) as int;
        if p + 4 <= end && (mode == 1 || mode == 2 || mode == 4 || mode == 7 || mode == 8) {
            match seg(d, p + 4, end, ver, mode) {
                Seg::Good(o, q) => if defined && p < q <= end {
                    assert(w0 + whole.out =~= (wb + o) + parse(d, q, end, ver).out);
                    assert forall|x: Seq<u8>| #[trigger] x.is_prefix_of(wb + o) implies x.is_prefix_of(w0 + whole.out) by { prefixes(x, wb, o, w0 + whole.out); }
                },
                Seg::Underflow(o) => if defined {
                    assert(w0 + whole.out =~= wb + o);
                },
                Seg::Undef => {},
            }
        }
        assert(w_done(wb, w0) + Seq::<u8>::empty() =~= w_done(wb, w0));
    }
//@loop 0 end
    proof {
        let s = seg(d, p + 4, end, ver, bits(d, p, 4) as int);
        if s == Seg::Undef { defined = false; }
        if defined {
            match s { Seg::Good(o, q) => {
                assert(w_done(writer.out(), w0) =~= w_done(wb, w0) + o);
                assert(w_done(wb, w0) + (o + parse(d, q, end, ver).out) =~= w_done(writer.out(), w0) + parse(d, q, end, ver).out);
            }, _ => {} }
            assert(extends(old(writer), writer) ==> writer.out() =~= w0 + w_done(writer.out(), w0));
        }
    }
//@tail
    proof { assert(w_done(writer.out(), w0) + seq![] =~= w_done(writer.out(), w0)); }
//@endfn

/// what decoding a payload with the given meaning does
spec fn payload_post<W: Write>(p: Parse, w0: &W, w1: &W, r: DeQRResult<()>) -> bool {
    &&& (w1.failed() <==> r == Err::<(), DeQRError>(DeQRError::IoError))
    &&& extends(w0, w1)
    &&& p.end != End::Undef ==> w1.out().is_prefix_of(w0.out() + p.out)
    &&& p.end != End::Undef && !w1.failed() ==> w1.out() == w0.out() + p.out && r == (match p.end {
        End::Done => Ok::<(), DeQRError>(()),
        End::Underflow => Err(DeQRError::DataUnderflow),
        _ => Err(DeQRError::UnknownDataType),
    })
}
spec fn w_done(now: Seq<u8>, start: Seq<u8>) -> Seq<u8> { now.subrange(start.len() as int, now.len() as int) }

