// ------------------------------------------------------------------ the mirrored grid
//@item src/lib.rs struct MirroredGrid
impl BitGrid for MirroredGrid<'_> {
    spec fn n(&self) -> nat { self.0.n() }
    spec fn at(&self, y: int, x: int) -> bool { self.0.at(x, y) }
    //@fn src/lib.rs MirroredGrid::size
    //@endfn
    //@fn src/lib.rs MirroredGrid::bit
    //@endfn
}
/// what reading the raw bits of a grid may give
spec fn raw_read(code: &dyn BitGrid, unmask: bool, r: DeQRResult<(MetaData, RawData)>) -> bool {
    match r {
        Ok(p) => format_read(code, Ok(p.0)) && p.0.wf() && stream_is(p.1, iso_order(code.n() as int, p.0.version.0 as int), code, p.0.mask as int, unmask),
        Err(x) => format_read(code, Err(x)),
    }
}
//@fn src/decode.rs get_raw
//@ret r
//@sig
    ensures raw_read(code, remove_masked, r)
//@endfn
// ------------------------------------------------------------------ reading a symbol, in either orientation
/// what reading the symbol in a grid, format information, modules and error correction, may give
spec fn symbol_read(code: &dyn BitGrid, r: DeQRResult<(MetaData, CorrectedDataStream)>) -> bool {
    exists|q: DeQRResult<(MetaData, RawData)>| #[trigger] raw_read(code, true, q) && match q {
        Err(x) => r == Err::<(MetaData, CorrectedDataStream), DeQRError>(x),
        Ok(p) => exists|c: DeQRResult<CorrectedDataStream>| #[trigger] corrected(p.0, p.1, c) && match c {
            Err(x) => r == Err::<(MetaData, CorrectedDataStream), DeQRError>(x),
            Ok(ds) => r == Ok::<(MetaData, CorrectedDataStream), DeQRError>((p.0, ds)),
        },
    }
}
/// what decoding the symbol that was read gives
spec fn emitted<W: Write>(s: (MetaData, CorrectedDataStream), w0: &W, w1: &W, r: DeQRResult<MetaData>) -> bool {
    payload_post(parse(s.1.data@, 0, s.1.bit_len as int, s.0.version.0 as int), w0, w1, match r { Ok(_) => Ok(()), Err(x) => Err(x) })
    && (r matches Ok(m) ==> m == s.0)
}
/// the whole decoding: the grid as it is, or else transposed, or else the error of the grid as it is
spec fn decodes<W: Write>(code: &dyn BitGrid, w0: &W, w1: &W, r: DeQRResult<MetaData>) -> bool {
    exists|o: DeQRResult<(MetaData, CorrectedDataStream)>| #[trigger] symbol_read(code, o) && match o {
        Ok(s) => emitted(s, w0, w1, r),
        Err(x) => exists|t: DeQRResult<(MetaData, CorrectedDataStream)>| #[trigger] symbol_read(&MirroredGrid(code), t) && match t {
            Ok(s) => emitted(s, w0, w1, r),
            Err(_) => r == Err::<MetaData, DeQRError>(x) && *w1 == *w0,
        },
    }
}
//@fn src/decode.rs decode/_decode
//@ret r
//@sig
    ensures symbol_read(c, r), r matches Ok(s) ==> s.0.wf() && s.1.wf() && s.1.ptr == 0,
//@endfn
//@fn src/decode.rs decode writer
//@ret r
//@sig
    requires !old(writer).failed()
    ensures decodes(code, old(writer), final(writer), r)
//@endfn
// ------------------------------------------------------------------ the interface
//@item src/identify/mod.rs struct Point
//@item src/lib.rs struct Grid
/// std: a Vec<u8> as a writer takes everything and never fails
impl Write for Vec<u8> {
    spec fn out(&self) -> Seq<u8> { self@ }
    spec fn failed(&self) -> bool { false }
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), IoErr>) { self.extend_from_slice(buf); Ok(()) }
}
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
pub uninterp spec fn str_bytes(s: String) -> Seq<u8>;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> utf8(v@), r matches Ok(s) ==> str_bytes(s) == v@;
impl vstd::std_specs::convert::FromSpecImpl<std::string::FromUtf8Error> for DeQRError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: std::string::FromUtf8Error) -> Self { DeQRError::EncodingError }
}
impl From<std::string::FromUtf8Error> for DeQRError {
    //@fn src/lib.rs DeQRError::FromUtf8Error::from
    //@ret r
    //@sig
        ensures r == DeQRError::EncodingError
    //@endfn
}
/// language: the ? operator converts the error with From::from
#[verifier::external_body]
broadcast proof fn question_mark(e: std::string::FromUtf8Error, x: DeQRError)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<DeQRError, std::string::FromUtf8Error>(e, x)
    ensures call_ensures(<DeQRError as From<std::string::FromUtf8Error>>::from, (e,), x)
{ }
impl<G> Grid<G> where G: BitGrid {
    //@fn src/lib.rs Grid::decode_to writer
    //@ret r
    //@sig
        requires !old(writer).failed()
        ensures decodes(&self.grid, old(writer), final(writer), r)
    //@endfn
    //@fn src/lib.rs Grid::new
    //@ret r
    //@sig
        ensures r.grid == grid, forall|k: int| 0 <= k < 4 ==> #[trigger] r.bounds@[k] == (Point { x: 0i32, y: 0i32 })
    //@endfn
    //@fn src/lib.rs Grid::get_raw_data
    //@ret r
    //@sig
        ensures raw_read(&self.grid, false, r)
    //@endfn
    //@fn src/lib.rs Grid::decode
    //@ret r
    //@sig
        ensures exists|w0: Vec<u8>, w1: Vec<u8>, q: DeQRResult<MetaData>| w0@ == Seq::<u8>::empty() && #[trigger] decodes(&self.grid, &w0, &w1, q) && match q {
            Err(x) => r == Err::<(MetaData, String), DeQRError>(x),
            Ok(m) => if utf8(w1@) { r matches Ok(p) && p.0 == m && str_bytes(p.1) == w1@ } else { r == Err::<(MetaData, String), DeQRError>(DeQRError::EncodingError) },
        }
    //@start
        broadcast use question_mark;
    //@endfn
}
