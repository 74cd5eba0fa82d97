/// the block structure of the table is that of ISO
proof fn block_table() ensures erows_ok(40) { assert(erows_ok(40)) by (compute_only); }
proof fn ecc_row_(v: int, n: int)
    requires 1 <= v <= n, erows_ok(n)
    ensures erow_ok(v)
    decreases n
{ if v < n { ecc_row_(v, n - 1); } }
proof fn ecc_row(v: int, l: int)
    requires 1 <= v <= 40, 0 <= l < 4
    ensures row_ecc_ok(v, l), VERSION_DATA_BASE@[v].data_bytes == iso_total(v), 0 < iso_total(v) <= 3706
{ block_table(); ecc_row_(v, 40); reveal(erow_ok); }
