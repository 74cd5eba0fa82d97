// the version table of the code, and what ISO/IEC 18004 says it must be
//@item src/version_db.rs struct RSParameters derive=Clone,Copy
//@item src/version_db.rs struct VersionInfo derive=Clone,Copy
//@item src/version_db.rs const VERSION_DATA_BASE attr=verifier::opaque

/// number of alignment pattern coordinates, and the coordinates (ISO/IEC 18004 annex E)
spec fn iso_napat(v: int) -> int { if v == 1 { 0 } else { v / 7 + 2 } }
spec fn iso_astep(v: int) -> int { if v == 32 { 26 } else { (v * 4 + iso_napat(v) * 2 + 1) / (iso_napat(v) * 2 - 2) * 2 } }
#[verifier::opaque]
spec fn iso_apat(v: int, k: int) -> int { if k == 0 { 6 } else { v * 4 + 10 - (iso_napat(v) - 1 - k) * iso_astep(v) } }

/// number of data modules (ISO/IEC 18004 table 1), and whole codewords
spec fn iso_modules(v: int) -> int {
    let n = iso_napat(v);
    (16 * v + 128) * v + 64 - (if v >= 2 { (25 * n - 10) * n - 55 } else { 0 }) - (if v >= 7 { 36int } else { 0 })
}
spec fn iso_total(v: int) -> int { iso_modules(v) / 8 }

// error correction codewords per block and number of blocks (ISO/IEC 18004 table 9), by version
spec fn iso_ecc_L() -> Seq<int> { seq![0int, 7int, 10int, 15int, 20int, 26int, 18int, 20int, 24int, 30int, 18int, 20int, 24int, 26int, 30int, 22int, 24int, 28int, 30int, 28int, 28int, 28int, 28int, 30int, 30int, 26int, 28int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int] }
spec fn iso_nb_L() -> Seq<int> { seq![0int, 1int, 1int, 1int, 1int, 1int, 2int, 2int, 2int, 2int, 4int, 4int, 4int, 4int, 4int, 6int, 6int, 6int, 6int, 7int, 8int, 8int, 9int, 9int, 10int, 12int, 12int, 12int, 13int, 14int, 15int, 16int, 17int, 18int, 19int, 19int, 20int, 21int, 22int, 24int, 25int] }
spec fn iso_ecc_M() -> Seq<int> { seq![0int, 10int, 16int, 26int, 18int, 24int, 16int, 18int, 22int, 22int, 26int, 30int, 22int, 22int, 24int, 24int, 28int, 28int, 26int, 26int, 26int, 26int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int, 28int] }
spec fn iso_nb_M() -> Seq<int> { seq![0int, 1int, 1int, 1int, 2int, 2int, 4int, 4int, 4int, 5int, 5int, 5int, 8int, 9int, 9int, 10int, 10int, 11int, 13int, 14int, 16int, 17int, 17int, 18int, 20int, 21int, 23int, 25int, 26int, 28int, 29int, 31int, 33int, 35int, 37int, 38int, 40int, 43int, 45int, 47int, 49int] }
spec fn iso_ecc_Q() -> Seq<int> { seq![0int, 13int, 22int, 18int, 26int, 18int, 24int, 18int, 22int, 20int, 24int, 28int, 26int, 24int, 20int, 30int, 24int, 28int, 28int, 26int, 30int, 28int, 30int, 30int, 30int, 30int, 28int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int] }
spec fn iso_nb_Q() -> Seq<int> { seq![0int, 1int, 1int, 2int, 2int, 4int, 4int, 6int, 6int, 8int, 8int, 8int, 10int, 12int, 16int, 12int, 17int, 16int, 18int, 21int, 20int, 23int, 23int, 25int, 27int, 29int, 34int, 34int, 35int, 38int, 40int, 43int, 45int, 48int, 51int, 53int, 56int, 59int, 62int, 65int, 68int] }
spec fn iso_ecc_H() -> Seq<int> { seq![0int, 17int, 28int, 22int, 16int, 22int, 28int, 26int, 26int, 24int, 28int, 24int, 28int, 22int, 24int, 24int, 30int, 28int, 28int, 26int, 28int, 30int, 24int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int, 30int] }
spec fn iso_nb_H() -> Seq<int> { seq![0int, 1int, 1int, 2int, 4int, 4int, 4int, 5int, 6int, 8int, 8int, 11int, 11int, 16int, 16int, 18int, 16int, 19int, 21int, 25int, 25int, 25int, 34int, 30int, 32int, 35int, 37int, 40int, 42int, 45int, 48int, 51int, 54int, 57int, 60int, 63int, 66int, 70int, 74int, 77int, 81int] }
/// by format level bits: 00 = M, 01 = L, 10 = H, 11 = Q
spec fn iso_ecc(v: int, level: int) -> int {
    if level == 0 { iso_ecc_M()[v] } else if level == 1 { iso_ecc_L()[v] } else if level == 2 { iso_ecc_H()[v] } else { iso_ecc_Q()[v] }
}
spec fn iso_nb(v: int, level: int) -> int {
    if level == 0 { iso_nb_M()[v] } else if level == 1 { iso_nb_L()[v] } else if level == 2 { iso_nb_H()[v] } else { iso_nb_Q()[v] }
}

spec fn row_apat_ok(v: int, k: int) -> bool {
    VERSION_DATA_BASE@[v].apat@[k] == (if k < iso_napat(v) { iso_apat(v, k) } else { 0 })
        && (0 < k < iso_napat(v) ==> iso_apat(v, k) - iso_apat(v, k - 1) >= 12)
}
spec fn row_ecc_ok(v: int, l: int) -> bool {
    let p = VERSION_DATA_BASE@[v].ecc@[l]; let n = iso_nb(v, l); let t = iso_total(v);
    p.bs == t / n && p.dw == t / n - iso_ecc(v, l) && p.ns == n - t % n && 0 < iso_ecc(v, l) <= 30 && n > 0 && p.dw > 0 && p.bs < 255 && n <= 81
}
#[verifier::opaque]
spec fn row_ok(v: int) -> bool {
    &&& iso_napat(v) <= 7 && (v > 1 ==> iso_apat(v, iso_napat(v) - 1) == 4 * v + 10 && iso_apat(v, 0) == 6)
    &&& row_apat_ok(v, 0) && row_apat_ok(v, 1) && row_apat_ok(v, 2) && row_apat_ok(v, 3) && row_apat_ok(v, 4) && row_apat_ok(v, 5) && row_apat_ok(v, 6)
}
spec fn rows_ok(v: int) -> bool decreases v { if v <= 0 { true } else { row_ok(v) && rows_ok(v - 1) } }
#[verifier::opaque]
spec fn erow_ok(v: int) -> bool {
    &&& VERSION_DATA_BASE@[v].data_bytes == iso_total(v) && 0 < iso_total(v) <= 3706
    &&& row_ecc_ok(v, 0) && row_ecc_ok(v, 1) && row_ecc_ok(v, 2) && row_ecc_ok(v, 3)
}
spec fn erows_ok(v: int) -> bool decreases v { if v <= 0 { true } else { erow_ok(v) && erows_ok(v - 1) } }
/// the alignment coordinates of the table are those of ISO
proof fn alignment_table() ensures rows_ok(40) { assert(rows_ok(40)) by (compute_only); }
proof fn version_row_(v: int, n: int)
    requires 1 <= v <= n, rows_ok(n)
    ensures row_ok(v)
    decreases n
{ if v < n { version_row_(v, n - 1); } }
proof fn version_row(v: int)
    requires 1 <= v <= 40
    ensures row_ok(v)
{ alignment_table(); version_row_(v, 40); }
proof fn apat_fact(v: int)
    requires 1 <= v <= 40
    ensures
        0 <= iso_napat(v) <= 7,
        forall|k: int| 0 <= k < 7 ==> #[trigger] VERSION_DATA_BASE@[v].apat@[k] == (if k < iso_napat(v) { iso_apat(v, k) } else { 0 }),
        v > 1 ==> iso_apat(v, iso_napat(v) - 1) == 4 * v + 10 && iso_apat(v, 0) == 6,
        forall|k: int| 0 <= k < iso_napat(v) ==> 6 <= #[trigger] iso_apat(v, k) <= 4 * v + 10,
{
    version_row(v); reveal(row_ok);
    assert forall|k: int| 0 <= k < 7 implies #[trigger] VERSION_DATA_BASE@[v].apat@[k] == (if k < iso_napat(v) { iso_apat(v, k) } else { 0 }) by { assert(row_apat_ok(v, k)); }
    assert forall|k: int| 0 <= k < iso_napat(v) implies 6 <= #[trigger] iso_apat(v, k) <= 4 * v + 10 by {
        if 0 < k { apat_far(v, 0, k); }
        if k < iso_napat(v) - 1 { apat_far(v, k, iso_napat(v) - 1); }
    }
}
proof fn apat_far(v: int, a: int, b: int)
    requires 1 <= v <= 40, 0 <= a < b < iso_napat(v)
    ensures iso_apat(v, b) - iso_apat(v, a) >= 12
    decreases b
{
    version_row(v); reveal(row_ok);
    assert(row_apat_ok(v, b));
    if a < b - 1 { apat_far(v, a, b - 1); }
}
