//@item src/lib.rs enum DeQRError derive=Clone,Copy pub=1
//@item src/lib.rs type DeQRResult
//@item src/decode.rs const MAX_PAYLOAD_SIZE
//@item src/decode.rs struct Version derive=Clone,Copy
//@item src/decode.rs struct MetaData derive=Clone,Copy
//@item src/decode.rs struct RawData
//@item src/decode.rs struct CorrectedDataStream
impl MetaData {
    spec fn wf(&self) -> bool { 1 <= self.version.0 <= 40 && self.ecc_level < 4 && self.mask < 8 }
}
