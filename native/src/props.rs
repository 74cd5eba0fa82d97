use crate::qr::{self, Bits, End, Sym};
use crate::{fp, guard, Case, Gen, Rng};
use rqrr::{BitGrid, DeQRError, Grid, MetaData, PreparedImage, SimpleGrid};
use std::cell::Cell;
use std::io::Write;

pub fn missing_hooks() -> Vec<&'static str> {
    #[allow(unused_mut)]
    let mut v = vec![];
    macro_rules! h { ($($c:ident)*) => { $( #[cfg(not($c))] v.push(stringify!($c)); )* } }
    h!(hook_block hook_mask hook_field hook_line hook_corner hook_finder hook_geo hook_persp hook_timing hook_leftmost hook_fit hook_jiggle hook_setup hook_locate hook_search hook_measure hook_rotate hook_read hook_image hook_fill hook_region);
    v
}

/// A grid of our own: checks that only modules inside are asked for
struct Probe<'a>(&'a Sym);
impl BitGrid for Probe<'_> {
    fn size(&self) -> usize {
        self.0.n
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        assert!(y < self.0.n && x < self.0.n, "module ({y}, {x}) outside of the grid was read");
        self.0.get(y, x)
    }
}
type Dec = (Result<(usize, usize, usize), DeQRError>, Vec<u8>);
fn m3(m: MetaData) -> (usize, usize, usize) {
    (m.version.0, m.ecc_level as usize, m.mask as usize)
}
fn dec(s: &Sym) -> Result<Dec, String> {
    guard(|| {
        let mut out = Vec::new();
        let r = Grid::new(Probe(s)).decode_to(&mut out).map(m3);
        (r, out)
    })
    .map_err(|e| format!("decoding {} {e}", s.hex()))
}
fn raw(s: &Sym) -> Result<Result<((usize, usize, usize), Vec<u8>, usize), DeQRError>, String> {
    guard(|| Grid::new(Probe(s)).get_raw_data().map(|(m, d)| (m3(m), d.data.to_vec(), d.len)))
        .map_err(|e| format!("get_raw_data of {} {e}", s.hex()))
}
fn want(end: End, meta: (usize, usize, usize)) -> Option<Result<(usize, usize, usize), DeQRError>> {
    match end {
        End::Done => Some(Ok(meta)),
        End::Underflow => Some(Err(DeQRError::DataUnderflow)),
        End::UnknownMode => Some(Err(DeQRError::UnknownDataType)),
        End::Undef => None,
    }
}
fn show(b: &[u8]) -> String {
    if b.len() <= 2000 {
        return b.iter().map(|x| format!("{x:02x}")).collect();
    }
    // run lengths: value*count
    let mut t = String::new();
    let mut k = 0;
    while k < b.len() {
        let n = b[k..].iter().take_while(|x| **x == b[k]).count();
        t += &format!("{:x}*{n},", b[k]);
        k += n;
    }
    t
}
/// decode a symbol whose data codewords are known
fn expect(s: &Sym, meta: (usize, usize, usize), data: &[u8], note: &str) -> Result<End, String> {
    let (got, out) = dec(s)?;
    let (wout, end) = qr::parse(meta.0, data);
    match want(end, meta) {
        Some(w) => {
            if w != got || wout != out {
                return Err(format!(
                    "{note}: version {} level {} mask {} data codewords {}: expected {w:?} with output {}, got {got:?} with output {}; symbol {}",
                    meta.0, meta.1, meta.2, show(data), show(&wout), show(&out), s.hex()
                ));
            }
        }
        None => {
            // only the prefix up to the unspecified part is fixed
            if matches!(got, Err(DeQRError::FormatEcc | DeQRError::DataEcc | DeQRError::InvalidVersion)) || !out.starts_with(&wout) {
                return Err(format!(
                    "{note}: version {} level {} mask {} data codewords {}: got {got:?} with output {}, expected output to begin with {}; symbol {}",
                    meta.0, meta.1, meta.2, show(data), show(&out), show(&wout), s.hex()
                ));
            }
        }
    }
    Ok(end)
}
fn pick_vl(r: &mut Rng) -> (usize, usize) {
    // small versions are cheap, class limits matter
    let v = match r.below(4) {
        0 => r.pick(&[1, 2, 9, 10, 26, 27, 40, 7, 6]),
        1 => 1 + r.below(40),
        _ => 1 + r.below(12),
    };
    (v, r.below(4))
}
fn put_segment(r: &mut Rng, b: &mut Bits, v: usize, mode: usize, count: usize) {
    b.put(mode, 4);
    b.put(count, qr::count_bits(v, mode));
    match mode {
        1 => {
            let mut c = count;
            while c > 0 {
                let k = c.min(3);
                b.put(r.below([0, 10, 100, 1000][k]), [0, 4, 7, 10][k]);
                c -= k;
            }
        }
        2 => {
            let mut c = count;
            while c > 0 {
                let k = c.min(2);
                b.put(r.below([0, 45, 2025][k]), [0, 6, 11][k]);
                c -= k;
            }
        }
        4 => {
            for _ in 0..count {
                b.put(r.below(256), 8);
            }
        }
        _ => {
            for _ in 0..count {
                b.put(r.below(8192), 13);
            }
        }
    }
}
/// data codewords of the right length from a bit stream (cut or padded)
fn fit(r: &mut Rng, mut b: Bits, n: usize, pad: usize) -> Vec<u8> {
    if pad == 0 && b.0.len() + 4 <= n * 8 {
        b.put(0, 4);
    }
    while b.0.len() % 8 != 0 {
        b.0.push(pad == 2 && r.chance(1, 2));
    }
    b.0.truncate(n * 8);
    let mut d = b.bytes();
    while d.len() < n {
        match pad {
            0 | 1 => d.push(if d.len() % 2 == 0 { 0xec } else { 0x11 }),
            _ => d.push(r.next() as u8),
        }
    }
    d
}
fn c01_segments(r: &mut Rng, _: u64) -> Case {
    let (v, l) = pick_vl(r);
    let n = qr::data_len(v, l);
    let mut b = Bits::default();
    let cap = n * 8;
    while b.0.len() < cap {
        let room = cap.saturating_sub(b.0.len() + 20);
        let mode = r.pick(&[1, 2, 4, 8, 7]);
        if mode == 7 {
            b.put(7, 4);
            match r.below(3) {
                0 => b.put(r.below(128), 8),
                1 => b.put(0x8000 | r.below(1 << 14), 16),
                _ => b.put(0xc00000 | r.below(1 << 21), 24),
            }
            continue;
        }
        let per10 = [0, 34, 55, 0, 80, 0, 0, 0, 130][mode];
        let most = (room * 10 / per10).min((1 << qr::count_bits(v, mode)) - 1);
        let count = match r.below(6) {
            0 => r.below(8),
            1 => most,
            2 => (most + r.below(4)).min((1 << qr::count_bits(v, mode)) - 1),
            _ => r.below(most + 1),
        };
        put_segment(r, &mut b, v, mode, count);
        if r.chance(1, 3) {
            break;
        }
    }
    let pad = r.below(3);
    let d = fit(r, b, n, pad);
    let m = r.below(8);
    let e = expect(&qr::encode(v, l, m, &d), (v, l, m), &d, "payload")?;
    Ok(if e == End::Undef { None } else { Some(fp(&(v, &d))) })
}
fn c01_bits(r: &mut Rng, _: u64) -> Case {
    let (v, l) = pick_vl(r);
    let n = qr::data_len(v, l);
    let mut d = r.bytes(n);
    if r.chance(1, 2) {
        d[0] = r.pick(&[0x10, 0x20, 0x40, 0x80, 0x70, 0x00, 0x30, 0x50, 0x60, 0x90, 0xf0]) | (d[0] & 15 & r.next() as u8 & r.next() as u8);
    }
    let m = r.below(8);
    let e = expect(&qr::encode(v, l, m, &d), (v, l, m), &d, "random data bits")?;
    Ok(if e == End::Undef { None } else { Some(fp(&(v, &d))) })
}
/// every kanji code word, character pair and digit triple, in each version class
fn c01_values(r: &mut Rng, i: u64) -> Case {
    let k = i as usize;
    let v = match k % 24 {
        7 => 27,
        3 | 13 => 10,
        _ => 1 + k % 3,
    };
    let l = 1;
    let mut b = Bits::default();
    let (mode, val, count, bits) = if k < 8192 {
        (8, k, 1, 13)
    } else if k < 8192 + 2025 {
        (2, k - 8192, 2, 11)
    } else if k < 8192 + 2025 + 1000 {
        (1, k - 8192 - 2025, 3, 10)
    } else if k < 8192 + 2025 + 1000 + 45 {
        (2, k - 8192 - 3025, 1, 6)
    } else if k < 8192 + 3025 + 45 + 100 {
        (1, k - 8192 - 3070, 2, 7)
    } else {
        (1, k - 8192 - 3170, 1, 4)
    };
    b.put(mode, 4);
    b.put(count, qr::count_bits(v, mode));
    b.put(val, bits);
    let d = fit(r, b, qr::data_len(v, l), 0);
    expect(&qr::encode(v, l, 0, &d), (v, l, 0), &d, "single group")?;
    Ok(Some(i))
}

fn nearest(w: u16) -> Option<(usize, usize)> {
    for l in 0..4 {
        for m in 0..8 {
            if (qr::format_word(l, m) ^ w).count_ones() <= 3 {
                return Some((l, m));
            }
        }
    }
    None
}
fn noise(r: &mut Rng, n: usize) -> Sym {
    Sym { n, cells: (0..n * n).map(|_| r.chance(1, 2)).collect() }
}
/// words farther than 3 from all valid ones that the code reads as none of them
/// (which of the others it reads is not specified)
fn rejected(w: u16) -> bool {
    nearest(w).is_none() && {
        let mut s = Sym { n: 21, cells: vec![false; 441] };
        s.set_format(w, w);
        matches!(raw(&s), Ok(Err(DeQRError::FormatEcc)))
    }
}
fn bad_word(r: &mut Rng) -> u16 {
    for _ in 0..10000 {
        let w = r.below(1 << 15) as u16;
        if rejected(w) {
            return w;
        }
    }
    0
}
fn c02_check(s: &Sym, v: usize, w1: u16, w2: u16) -> Case {
    let got = raw(s)?.map(|x| x.0);
    // a word beyond the bound is either unreadable or read as some valid word
    let some_word = matches!(got, Ok((gv, l, m)) if gv == v && l < 4 && m < 8);
    let (want, free) = match (nearest(w1), nearest(w2)) {
        (Some((l, m)), _) => (Ok((v, l, m)), false),
        (None, Some((l, m))) => (Ok((v, l, m)), some_word && !rejected(w1)),
        (None, None) => (Err(DeQRError::FormatEcc), some_word && !(rejected(w1) && rejected(w2))),
    };
    if got != want && !free {
        return Err(format!(
            "format words {w1:#06x} and {w2:#06x} (as drawn) on a version {v} grid: expected {want:?}, got {got:?}; grid {}",
            s.hex()
        ));
    }
    Ok(Some(fp(&(v, w1, w2))))
}
fn c02_words(r: &mut Rng, i: u64) -> Case {
    let v = 1;
    let w = (i & 0x7fff) as u16;
    let mut s = noise(r, qr::size(v));
    let b = bad_word(r);
    let (w1, w2) = if i < 32768 { (w, b) } else { (b, w) };
    s.set_format(w1, w2);
    c02_check(&s, v, w1, w2)
}
fn c02_pairs(r: &mut Rng, i: u64) -> Case {
    let v = 1 + (i % 40) as usize;
    let mut s = noise(r, qr::size(v));
    let mut word = |r: &mut Rng| match r.below(3) {
        0 => r.below(1 << 15) as u16,
        1 => bad_word(r),
        _ => {
            let mut w = qr::format_word(r.below(4), r.below(8));
            for _ in 0..r.below(6) {
                w ^= 1 << r.below(15);
            }
            w
        }
    };
    let (w1, w2) = (word(r), word(r));
    s.set_format(w1, w2);
    c02_check(&s, v, w1, w2)
}
fn c02_size(r: &mut Rng, i: u64) -> Case {
    let n = i as usize;
    if n >= 21 && n <= 177 && n % 4 == 1 {
        let mut s = noise(r, n);
        let w = qr::format_word(2, 5);
        s.set_format(w, w);
        let back = guard(|| rqrr::Version((n - 17) / 4).to_size())?;
        if back != n {
            return Err(format!("version {} has size {back}, expected {n}", (n - 17) / 4));
        }
        return c02_check(&s, (n - 17) / 4, w, w);
    }
    if n >= 21 && n <= 180 {
        return Ok(None); // grids of a size between two versions: not specified
    }
    let s = noise(r, n);
    let got = raw(&s)?.map(|x| x.0);
    let d = dec(&s)?;
    if got != Err(DeQRError::InvalidVersion) || d.0 != Err(DeQRError::InvalidVersion) || !d.1.is_empty() {
        return Err(format!("a grid of size {n} gave {got:?} and {d:?}, expected InvalidVersion"));
    }
    Ok(Some(i))
}

/// data codewords that hold one byte segment as long as possible
fn full(r: &mut Rng, v: usize, l: usize) -> Vec<u8> {
    let n = qr::data_len(v, l);
    let mut b = Bits::default();
    let head = 4 + qr::count_bits(v, 4);
    let c = ((n * 8 - head) / 8).min((1 << qr::count_bits(v, 4)) - 1);
    put_segment(r, &mut b, v, 4, c);
    fit(r, b, n, 0)
}
fn damage(r: &mut Rng, b: &mut [u8], k: usize) {
    let n = b.len();
    let mut idx: Vec<usize> = (0..n).collect();
    match r.below(4) {
        // runs at either end, and anywhere
        0 => {
            let o = r.below(n);
            idx.rotate_left(o);
        }
        1 => idx.reverse(),
        _ => {
            for i in 0..n {
                let j = i + r.below(n - i);
                idx.swap(i, j);
            }
        }
    }
    let same = r.next() as u8 | 1;
    let uniform = r.chance(1, 4);
    for &i in idx.iter().take(k) {
        b[i] ^= if uniform { same } else { 1 + r.below(255) as u8 };
    }
}
fn c03_symbol(r: &mut Rng, i: u64) -> Case {
    let (v, l) = if i < 160 { (1 + i as usize % 40, i as usize / 40) } else { pick_vl(r) };
    let d = full(r, v, l);
    let m = r.below(8);
    let mut bl = qr::make_blocks(v, l, &d);
    let t = qr::ecc_len(v, l) / 2;
    let mut ks = vec![];
    for b in bl.iter_mut() {
        let k = match r.below(3) {
            0 => t,
            1 => r.below(t + 1),
            _ => t.saturating_sub(r.below(3)),
        };
        damage(r, b, k);
        ks.push(k);
    }
    let cw = qr::interleave(v, l, &bl);
    expect(&qr::symbol(v, l, m, &cw), (v, l, m), &d, &format!("codewords {} with {ks:?} damaged bytes per block", show(&cw)))?;
    Ok(if ks.iter().all(|k| *k == 0) { None } else { Some(fp(&cw)) })
}
fn c03_beyond(r: &mut Rng, _: u64) -> Case {
    let (v, l) = (1 + r.below(10), r.below(4));
    let d = full(r, v, l);
    let m = r.below(8);
    let mut bl = qr::make_blocks(v, l, &d);
    let npar = qr::ecc_len(v, l);
    let t = npar / 2;
    let hit = r.below(bl.len());
    let n = bl[hit].len();
    let k = if r.chance(1, 2) { n } else { t + 1 + r.below(n - t) }.min(n);
    damage(r, &mut bl[hit], k);
    let cw = qr::interleave(v, l, &bl);
    let s = qr::symbol(v, l, m, &cw);
    let (got, out) = dec(&s)?;
    match got {
        Err(DeQRError::DataEcc) if out.is_empty() => Ok(Some(fp(&cw))),
        Err(DeQRError::DataEcc) => Err(format!("data were written although a block was rejected; symbol {}", s.hex())),
        Ok(_) if out.len() + 1 + qr::count_bits(v, 4) / 8 == d.len() => {
            // accepted: then every block is a codeword, whose data are the output
            let mut b = Bits::default();
            b.put(4, 4);
            b.put(out.len(), qr::count_bits(v, 4));
            for x in &out {
                b.put(*x as usize, 8);
            }
            let d2 = fit(r, b, d.len(), 0);
            let c2 = &qr::make_blocks(v, l, &d2)[hit];
            let dist = c2.iter().zip(&bl[hit]).filter(|(a, b)| a != b).count();
            if dist > npar {
                return Err(format!(
                    "block {} ({} bytes, {npar} parity) was accepted as data {} although its nearest codeword with these data is {dist} bytes away; symbol {}",
                    show(&bl[hit]), n, show(&out), s.hex()
                ));
            }
            Ok(Some(fp(&cw)))
        }
        // corrected to another codeword: any outcome of the payload is legitimate
        _ => Ok(None),
    }
}
#[cfg(hook_block)]
fn c03_block(r: &mut Rng, _: u64) -> Case {
    let (v, l) = (1 + r.below(40), r.below(4));
    let npar = qr::ecc_len(v, l);
    let dw = r.pick(&qr::block_lens(v, l));
    let t = npar / 2;
    let mut c = r.bytes(dw);
    if r.chance(1, 16) {
        c = vec![0; dw];
    }
    c.extend(qr::rs_parity(&c, npar));
    let n = c.len();
    let mut b = c.clone();
    let k = match r.below(4) {
        0 => t,
        1 => r.below(t + 1),
        2 => t + 1 + r.below(4).min(n - t - 1),
        _ => r.below(n + 1),
    };
    if r.chance(1, 8) {
        // an error of which all syndromes but one are zero
        let skip = r.below(npar);
        let mut g = vec![1u8];
        let mut root = 1;
        for i in 0..npar {
            if i != skip {
                let mut next = vec![0; g.len() + 1];
                for (j, x) in g.iter().enumerate() {
                    next[j] ^= qr::mul(*x, root);
                    next[j + 1] ^= x;
                }
                g = next;
            }
            root = qr::mul(root, 2);
        }
        let (o, f) = (r.below(n - g.len() + 1), 1 + r.below(255) as u8);
        for (j, x) in g.iter().enumerate() {
            b[n - 1 - o - j] ^= qr::mul(*x, f);
        }
    } else {
        damage(r, &mut b, k);
    }
    let recv = b.clone();
    let res = guard(|| rqrr::verif::decode::correct_block(&mut b, n, dw)).map_err(|e| format!("correcting block {} ({dw} data) {e}", show(&recv)))?;
    let dist = c.iter().zip(&recv).filter(|(a, b)| a != b).count();
    if dist <= t && (res.is_err() || b != c) {
        return Err(format!(
            "block {} ({dw} data, {npar} parity), {dist} bytes from codeword {}: result {res:?}, block left as {}",
            show(&recv), show(&c), show(&b)
        ));
    }
    if res.is_ok() && !qr::syndromes_zero(&b, npar) {
        return Err(format!("block {} ({dw} data, {npar} parity) accepted as {} which is no codeword", show(&recv), show(&b)));
    }
    if res.is_err() && res != Err(DeQRError::DataEcc) {
        return Err(format!("block {} rejected with {res:?}", show(&recv)));
    }
    Ok(if dist == 0 { None } else { Some(fp(&recv)) })
}
#[cfg(hook_field)]
fn field_tables(_: &mut Rng, i: u64) -> Case {
    let (a, b) = ((i >> 8) as u8, i as u8);
    let mut p = 1u8;
    for _ in 0..i % 255 {
        p = qr::mul(p, 2);
    }
    let (s, z, m, w, q, pw, one, eq) = guard(|| rqrr::verif::decode::gf256(a, b, i as usize))?;
    let ok = s == a ^ b && z == s && m == qr::mul(a, b) && w == m && (b == 0 || qr::mul(q, b) == a) && pw == p && one == 1 && eq == (a == b);
    if !ok {
        return Err(format!("GF(256): {a} op {b}, power {i}: sum {s} {z} product {m} {w} quotient {q} power {pw} one {one} eq {eq}"));
    }
    if a < 16 && b < 16 {
        let mut p = 1u8;
        for _ in 0..i % 15 {
            p = qr::mul16(p, 2);
        }
        let (s, z, m, w, q, pw, one, eq) = guard(|| rqrr::verif::decode::gf16(a, b, i as usize))?;
        let ok = s == a ^ b && z == s && m == qr::mul16(a, b) && w == m && (b == 0 || qr::mul16(q, b) == a) && pw == p && one == 1 && eq == (a == b);
        if !ok {
            return Err(format!("GF(16): {a} op {b}, power {i}: sum {s} {z} product {m} {w} quotient {q} power {pw} one {one} eq {eq}"));
        }
    }
    Ok(Some(i))
}

fn c04_check(s: &Sym, v: usize, l: usize, m: usize) -> Case {
    let (meta, data, len) = match raw(s)? {
        Ok(x) => x,
        Err(e) => return Err(format!("raw data of {}: {e:?}", s.hex())),
    };
    let order = qr::data_modules(v);
    if meta != (v, l, m) || len != order.len() {
        return Err(format!("version {v}: raw data have {len} bits (metadata {meta:?}), expected {} bits; {}", order.len(), s.hex()));
    }
    for (k, (y, x)) in order.iter().enumerate() {
        if (data[k / 8] >> (7 - k % 8) & 1 != 0) != s.get(*y, *x) {
            return Err(format!("version {v}: raw bit {k} is not the module in row {y}, column {x}; {}", s.hex()));
        }
    }
    for k in len..data.len() * 8 {
        if data[k / 8] >> (7 - k % 8) & 1 != 0 {
            return Err(format!("version {v}: bit {k} beyond the end of the raw data is set"));
        }
    }
    Ok(Some(fp(&(v, &s.cells))))
}
/// module k coloured by bit b of k (and complement): the colours seen over all
/// these grids identify each module
fn c04_index(_: &mut Rng, i: u64) -> Case {
    let v = 1 + (i % 40) as usize;
    let b = (i / 40) as usize;
    let n = qr::size(v);
    let (bit, inv) = (b / 2, b % 2 == 1);
    let mut s = Sym { n, cells: (0..n * n).map(|k| (k >> bit & 1 != 0) ^ inv).collect() };
    let (l, m) = (b % 4, b % 8);
    s.set_format(qr::format_word(l, m), qr::format_word(l, m));
    c04_check(&s, v, l, m)
}
fn c04_random(r: &mut Rng, i: u64) -> Case {
    let v = 1 + (i % 40) as usize;
    let mut s = noise(r, qr::size(v));
    let (l, m) = (r.below(4), r.below(8));
    let w = qr::format_word(l, m);
    s.set_format(w, w);
    c04_check(&s, v, l, m)
}

#[cfg(hook_mask)]
fn c05_all(_: &mut Rng, i: u64) -> Case {
    let (m, y) = (i as usize % 8, i as usize / 8);
    for x in 0..177 {
        let got = guard(|| rqrr::verif::decode::mask_bit(m as u16, y, x)).map_err(|e| format!("mask {m} at row {y}, column {x} {e}"))?;
        if got != qr::mask(m, y, x) {
            return Err(format!("mask {m} at row {y}, column {x}: {got}"));
        }
    }
    Ok(Some(i))
}
/// all blocks at the limit of correction, so that one more wrong module shows
fn no_slack(r: &mut Rng, v: usize, l: usize, m: usize) -> Case {
    let d = full(r, v, l);
    let mut bl = qr::make_blocks(v, l, &d);
    let t = qr::ecc_len(v, l) / 2;
    for b in bl.iter_mut() {
        damage(r, b, t);
    }
    let cw = qr::interleave(v, l, &bl);
    expect(&qr::symbol(v, l, m, &cw), (v, l, m), &d, "every block at its correction limit")?;
    Ok(Some(fp(&(v, l, m, &cw))))
}
fn c05_symbols(r: &mut Rng, i: u64) -> Case {
    let v = 1 + i as usize % 40;
    let m = i as usize / 40 % 8;
    let l = 1;
    no_slack(r, v, l, m)
}
fn c06_symbols(r: &mut Rng, i: u64) -> Case {
    let v = 1 + i as usize % 40;
    let l = i as usize / 40 % 4;
    let m = r.below(8);
    no_slack(r, v, l, m)
}
/// undamaged symbols whose codewords are all different from block to block
fn c06_clean(r: &mut Rng, i: u64) -> Case {
    let v = 1 + i as usize % 40;
    let l = i as usize / 40 % 4;
    let d = full(r, v, l);
    expect(&qr::encode(v, l, 3, &d), (v, l, 3), &d, "undamaged symbol")?;
    Ok(Some(fp(&d)))
}
/// one block beyond repair: nothing may be returned
fn c06_fail(r: &mut Rng, i: u64) -> Case {
    let v = 1 + i as usize % 40;
    let l = i as usize / 40 % 4;
    let d = full(r, v, l);
    let mut bl = qr::make_blocks(v, l, &d);
    let e = qr::ecc_len(v, l);
    let hit = r.below(bl.len());
    // a constant offset of half the block is far from every codeword but for accidents
    let n = bl[hit].len();
    damage(r, &mut bl[hit], (e / 2 + n) / 2);
    let cw = qr::interleave(v, l, &bl);
    let s = qr::symbol(v, l, 0, &cw);
    let (got, out) = dec(&s)?;
    match got {
        Err(DeQRError::DataEcc) if out.is_empty() => Ok(Some(fp(&cw))),
        Ok(_) if out == qr::parse(v, &d).0 => {
            Err(format!("block {hit} was damaged in {} bytes but the original payload was returned; symbol {}", (e / 2 + n) / 2, s.hex()))
        }
        Ok(_) => Ok(None),
        Err(DeQRError::DataEcc) => Err(format!("data were written although block {hit} was rejected; symbol {}", s.hex())),
        Err(_) => Ok(None),
    }
}

fn c07_noise(r: &mut Rng, i: u64) -> Case {
    let n = match i % 4 {
        0 => r.below(25),
        1 => 21 + r.below(160),
        2 => qr::size(1 + r.below(40)),
        _ => r.below(260),
    };
    let dens = r.pick(&[0, 1, 2, 4, 7, 8]);
    let mut s = Sym { n, cells: (0..n * n).map(|_| r.below(8) < dens).collect() };
    if n >= 17 && r.chance(3, 4) {
        let w = qr::format_word(r.below(4), r.below(8));
        if n >= 21 {
            s.set_format(w, w);
        }
    }
    let _ = dec(&s)?;
    let _ = raw(&s)?;
    Ok(Some(fp(&s.cells)))
}
fn c07_payload(r: &mut Rng, _: u64) -> Case {
    let (v, l) = pick_vl(r);
    let n = qr::data_len(v, l);
    let mut d = r.bytes(n);
    // chains of well formed heads make deep states likely
    let mut b = Bits::default();
    while b.0.len() < n * 8 && r.chance(7, 8) {
        let mode = r.pick(&[1, 2, 4, 8]);
        let c = r.below(20);
        put_segment(r, &mut b, v, mode, c);
    }
    let p = b.bytes();
    let k = p.len().min(n);
    if r.chance(1, 2) {
        d[..k].copy_from_slice(&p[..k]);
    }
    let mut s = qr::encode(v, l, r.below(8), &d);
    if r.chance(1, 2) {
        s = s.transpose();
    }
    for _ in 0..r.below(30) {
        let k = r.below(s.cells.len());
        s.cells[k] ^= true;
    }
    let _ = dec(&s)?;
    let _ = raw(&s)?;
    Ok(Some(fp(&s.cells)))
}
struct Sized0(usize);
impl BitGrid for Sized0 {
    fn size(&self) -> usize {
        self.0
    }
    fn bit(&self, y: usize, x: usize) -> bool {
        assert!(y < self.0 && x < self.0, "module ({y}, {x}) outside of a grid of size {} was read", self.0);
        (y * 7 + x * 3) % 5 < 2
    }
}
fn c07_sizes(_: &mut Rng, i: u64) -> Case {
    let n = if i < 300 { i as usize } else { usize::MAX - (i as usize - 300) };
    guard(|| {
        let _ = Grid::new(Sized0(n)).decode();
        let _ = Grid::new(Sized0(n)).get_raw_data().map(|_| ());
    })
    .map_err(|e| format!("grid of size {n} {e}"))?;
    Ok(Some(i))
}

fn c08_mirror(r: &mut Rng, i: u64) -> Case {
    let v = if i < 40 { 1 + i as usize } else { 1 + r.below(12) };
    let l = r.below(4);
    let m = r.below(8);
    let d = if r.chance(1, 4) {
        let n = qr::data_len(v, l);
        let mut d = r.bytes(n);
        d[0] = r.pick(&[0xf0, 0x30, 0x4f, 0x8f]);
        d
    } else {
        full(r, v, l)
    };
    let mut bl = qr::make_blocks(v, l, &d);
    let t = qr::ecc_len(v, l) / 2;
    for b in bl.iter_mut() {
        let k = r.below(t + 1);
        damage(r, b, k);
    }
    let mut s = qr::symbol(v, l, m, &qr::interleave(v, l, &bl));
    if r.chance(1, 2) {
        // damaged format information, readable in this orientation
        let good = qr::format_word(l, m);
        let mut w = [good, good];
        for x in w.iter_mut() {
            for _ in 0..r.below(4) {
                *x ^= 1 << r.below(15);
            }
        }
        if r.chance(1, 2) {
            w[0] = bad_word(r);
        }
        s.set_format(w[0], w[1]);
    }
    expect(&s.transpose(), (v, l, m), &d, "mirrored symbol")?;
    expect(&s, (v, l, m), &d, "symbol as is")?;
    Ok(Some(fp(&s.cells)))
}
/// both orientations fail, with different errors
fn c08_errors(r: &mut Rng, _: u64) -> Case {
    let v = 1 + r.below(8);
    let mut s = noise(r, qr::size(v));
    let direct_ok = r.chance(1, 2);
    let mut tries = 0;
    let want = loop {
        tries += 1;
        if tries > 400 {
            return Ok(None);
        }
        let w1 = if direct_ok {
            qr::format_word(r.below(4), r.below(8)) ^ (1 << r.below(15)) ^ (1 << r.below(15)) ^ (1 << r.below(15))
        } else {
            bad_word(r)
        };
        let w2 = r.below(1 << 15) as u16;
        s.set_format(w1, w2);
        // raw data are those of the original orientation
        let d = raw(&s)?.map(|x| x.0);
        let m = raw(&s.transpose())?.map(|x| x.0);
        match (d, m) {
            (Ok(_), Err(DeQRError::FormatEcc)) => break DeQRError::DataEcc,
            (Err(DeQRError::FormatEcc), Ok(_)) => break DeQRError::FormatEcc,
            _ => (),
        }
    };
    let (got, out) = dec(&s)?;
    if got != Err(want) || !out.is_empty() {
        return Err(format!("both orientations are unreadable: expected {want:?} of the original, got {got:?}; {}", s.hex()));
    }
    Ok(Some(fp(&s.cells)))
}

fn c09_grid(r: &mut Rng, i: u64) -> Case {
    let n = if i < 190 { i as usize } else { r.below(64) };
    grid_check(r, n)
}
fn grid_check(r: &mut Rng, n: usize) -> Case {
    let bits: Vec<bool> = (0..n * n).map(|_| r.chance(1, 2)).collect();
    let calls = Cell::new(0);
    let g = guard(|| {
        SimpleGrid::from_func(n, |x, y| {
            calls.set(calls.get() + 1);
            bits[y * n + x]
        })
    })
    .map_err(|e| format!("from_func of size {n} {e}"))?;
    if g.size() != n {
        return Err(format!("from_func({n}) has size {}", g.size()));
    }
    for y in 0..n {
        for x in 0..n {
            let b = guard(|| g.bit(y, x)).map_err(|e| format!("bit({y}, {x}) of size {n} {e}"))?;
            if b != bits[y * n + x] {
                return Err(format!("grid of size {n}: bit({y}, {x}) is {b}, the function says {}", bits[y * n + x]));
            }
        }
    }
    Ok(Some(fp(&(n, bits))))
}
const GRIDS: [usize; 8] = [255, 256, 257, 300, 362, 513, 1025, 2100];
fn c09_grid_large(r: &mut Rng, i: u64) -> Case {
    grid_check(r, GRIDS[i as usize])
}
/// width or height beyond 8 and 16 bits
const LARGE: [(usize, usize); 10] = [(257, 3), (3, 257), (300, 301), (4097, 5), (5, 4097), (66000, 1), (1, 66000), (70001, 3), (3, 70001), (1025, 1027)];
fn c09_bitmap_large(r: &mut Rng, i: u64) -> Case {
    let (w, h) = LARGE[i as usize];
    bitmap_check(r, w, h)
}
fn c09_bitmap(r: &mut Rng, i: u64) -> Case {
    let (w, h) = if i < 16 { (i as usize % 4, i as usize / 4) } else { (r.below(70), r.below(70)) };
    bitmap_check(r, w, h)
}
fn bitmap_check(r: &mut Rng, w: usize, h: usize) -> Case {
    let bits: Vec<bool> = (0..w * h).map(|_| r.chance(1, 2)).collect();
    let mut calls = vec![0; w * h];
    let img = guard(|| {
        PreparedImage::prepare_from_bitmap(w, h, |x, y| {
            calls[y * w + x] += 1;
            bits[y * w + x]
        })
    })
    .map_err(|e| format!("prepare_from_bitmap({w}, {h}) {e}"))?;
    if calls.iter().any(|c| *c != 1) {
        return Err(format!("prepare_from_bitmap({w}, {h}) did not call the function once per pixel"));
    }
    if (img.width(), img.height()) != (w, h) {
        return Err(format!("bitmap {w}x{h} became {}x{}", img.width(), img.height()));
    }
    for y in 0..h {
        for x in 0..w {
            let p: u8 = guard(|| img.get_pixel_at(x, y).into())?;
            if p != bits[y * w + x] as u8 {
                return Err(format!("bitmap {w}x{h}: pixel ({x}, {y}) is {p}, the function says {}", bits[y * w + x]));
            }
        }
    }
    Ok(Some(fp(&(w, h, bits))))
}

fn threshold(w: usize, h: usize, px: &[u8]) -> Vec<u8> {
    let t = (w / 8).max(1) as u128;
    let mut out = vec![0; w * h];
    let (mut a, mut b) = (0u128, 0u128);
    for y in 0..h {
        let mut sum = vec![0u128; w];
        for k in 0..w {
            // a runs right to left on even rows, left to right on odd ones; b the other way
            let (xa, xb) = if y % 2 == 0 { (w - 1 - k, k) } else { (k, w - 1 - k) };
            a = a * (t - 1) / t + px[y * w + xa] as u128;
            b = b * (t - 1) / t + px[y * w + xb] as u128;
            sum[xa] += a;
            sum[xb] += b;
        }
        for x in 0..w {
            out[y * w + x] = ((px[y * w + x] as u128) < sum[x] * 95 / (200 * t)) as u8;
        }
    }
    out
}
fn c10_image(r: &mut Rng, i: u64) -> Case {
    let (w, h) = match i % 4 {
        0 => (r.below(20), r.below(20)),
        1 => (r.pick(&[7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 100, 128, 200]), r.below(12)),
        2 => (1 + r.below(300), 1 + r.below(8)),
        _ => (1 + r.below(60), 1 + r.below(60)),
    };
    image_check(r, w, h)
}
fn c10_large(r: &mut Rng, i: u64) -> Case {
    let (w, h) = LARGE[i as usize % LARGE.len()];
    image_check(r, w, h)
}
/// sums that leave 32 bits when they are scaled
fn c10_wide(r: &mut Rng, i: u64) -> Case {
    image_kind(r, [720_001, 1_000_003, 90_011][i as usize % 3], 1 + i as usize / 6, if i % 6 < 3 { 6 } else { 5 })
}
fn image_check(r: &mut Rng, w: usize, h: usize) -> Case {
    let kind = r.below(7);
    image_kind(r, w, h, kind)
}
fn image_kind(r: &mut Rng, w: usize, h: usize, kind: usize) -> Case {
    let (c0, c1) = (r.below(256), r.below(256));
    let px: Vec<u8> = (0..w * h)
        .map(|k| {
            let (x, y) = (k % w.max(1), k / w.max(1));
            match kind {
                0 => r.next() as u8,
                1 => ((x * 255) / w.max(1)) as u8,
                2 => [0, 255][r.below(2)],
                3 => if (x / 3 + y / 3) % 2 == 0 { c0 as u8 } else { c1 as u8 },
                4 => (c0 + r.below(10)) as u8,
                6 => if x % 1000 < 7 { 160 } else { 255 },
                _ => 255,
            }
        })
        .collect();
    let img = guard(|| PreparedImage::prepare_from_greyscale(w, h, |x, y| px[y * w + x])).map_err(|e| format!("greyscale image {w}x{h} {} {e}", show(&px)))?;
    let exp = threshold(w, h, &px);
    let gi = image::GrayImage::from_raw(w as u32, h as u32, px.clone()).unwrap();
    let img2 = guard(|| PreparedImage::prepare(gi)).map_err(|e| format!("image buffer {w}x{h} {} {e}", show(&px)))?;
    if (img.width(), img.height(), img2.width(), img2.height()) != (w, h, w, h) {
        return Err(format!("image {w}x{h} changed its size"));
    }
    for y in 0..h {
        for x in 0..w {
            let p: u8 = guard(|| img.get_pixel_at(x, y).into())?;
            let q: u8 = guard(|| img2.get_pixel_at(x, y).into())?;
            if p != exp[y * w + x] || q != p {
                return Err(format!(
                    "image {w}x{h} {}: pixel ({x}, {y}) became {p} from a function and {q} from a buffer, the formula gives {}",
                    show(&px), exp[y * w + x]
                ));
            }
        }
    }
    Ok(if w * h == 0 { None } else { Some(fp(&(w, px))) })
}

fn components(w: usize, h: usize, same: impl Fn(usize, usize) -> bool, inside: impl Fn(usize) -> bool) -> Vec<usize> {
    let mut lab = vec![usize::MAX; w * h];
    let mut next = 0;
    for s in 0..w * h {
        if !inside(s) || lab[s] != usize::MAX {
            continue;
        }
        let mut st = vec![s];
        lab[s] = next;
        while let Some(k) = st.pop() {
            let (x, y) = (k % w, k / w);
            let mut go = |n: usize| {
                if inside(n) && same(k, n) && lab[n] == usize::MAX {
                    lab[n] = next;
                    st.push(n);
                }
            };
            if x > 0 {
                go(k - 1);
            }
            if x + 1 < w {
                go(k + 1);
            }
            if y > 0 {
                go(k - w);
            }
            if y + 1 < h {
                go(k + w);
            }
        }
        next += 1;
    }
    lab
}
fn shape(r: &mut Rng, w: usize, h: usize, kind: usize) -> Vec<u8> {
    let mut p = vec![0u8; w * h];
    match kind {
        0 => p.iter_mut().for_each(|c| *c = r.chance(1, 2) as u8),
        1 => p.iter_mut().for_each(|c| *c = r.chance(3, 4) as u8),
        2 => {
            // spiral
            let (mut x, mut y, mut dx, mut dy) = (0i64, 0i64, 1i64, 0i64);
            let free = |p: &Vec<u8>, x: i64, y: i64| x < 0 || y < 0 || x >= w as i64 || y >= h as i64 || p[y as usize * w + x as usize] == 0;
            for _ in 0..w * h {
                p[y as usize * w + x as usize] = 1;
                let ok = |dx: i64, dy: i64, p: &Vec<u8>| {
                    let (a, b) = (x + dx, y + dy);
                    a >= 0 && b >= 0 && a < w as i64 && b < h as i64 && free(p, a, b) && free(p, a + dx, b + dy)
                };
                if !ok(dx, dy, &p) {
                    (dx, dy) = (-dy, dx);
                    if !ok(dx, dy, &p) {
                        break;
                    }
                }
                x += dx;
                y += dy;
            }
        }
        3 => {
            // combs
            for y in 0..h {
                for x in 0..w {
                    p[y * w + x] = (x % 2 == 0 || y == (x / 2 % 2) * (h - 1)) as u8;
                }
            }
        }
        4 => {
            for y in 0..h {
                for x in 0..w {
                    p[y * w + x] = ((x / 2 + y) % 2 == 0 || y % 3 == 0) as u8;
                }
            }
        }
        _ => p.iter_mut().for_each(|c| *c = 1),
    }
    p
}
#[cfg(all(hook_image, hook_fill))]
fn fill_check(w: usize, h: usize, p: &[u8], x: usize, y: usize, from: u8, to: u8) -> Case {
    use rqrr::verif::prepare::VImg;
    let desc = || format!("fill at ({x}, {y}) from {from} to {to} in {w}x{h} image {}", show(p));
    let (rows, after) = guard(|| {
        let mut img = VImg::new(w, h, p.to_vec());
        let rows = img.flood_fill(x, y, from, to);
        let after: Vec<u8> = (0..w * h).map(|k| img.pixel(k % w, k / w)).collect();
        (rows, after)
    })
    .map_err(|e| format!("{} {e}", desc()))?;
    let lab = components(w, h, |_, _| true, |k| p[k] == from);
    let s = y * w + x;
    let mut n = 0;
    for k in 0..w * h {
        let inside = p[s] == from && lab[k] == lab[s] && p[k] == from;
        n += inside as usize;
        let e = if inside { to } else { p[k] };
        if after[k] != e {
            return Err(format!("{}: pixel ({}, {}) is {} afterwards, expected {e}", desc(), k % w, k / w, after[k]));
        }
    }
    let mut seen = vec![0; w * h];
    for (l, r, yy) in &rows {
        if l > r || *r >= w || *yy >= h {
            return Err(format!("{}: reported row {l}..={r} at {yy}", desc()));
        }
        for xx in *l..=*r {
            seen[yy * w + xx] += 1;
        }
    }
    for k in 0..w * h {
        let inside = p[s] == from && lab[k] == lab[s] && p[k] == from;
        if seen[k] != inside as usize {
            return Err(format!("{}: pixel ({}, {}) was reported {} times", desc(), k % w, k / w, seen[k]));
        }
    }
    Ok(if n > 1 { Some(fp(&(w, h, p, x, y, from, to))) } else { None })
}
#[cfg(all(hook_image, hook_fill))]
fn c11_small(_: &mut Rng, i: u64) -> Case {
    // all 3x4 and 4x3 binary images, all starts
    let (w, h) = if i % 2 == 0 { (3, 4) } else { (4, 3) };
    let i = (i / 2) as usize;
    let p: Vec<u8> = (0..12).map(|k| (i >> k & 1) as u8).collect();
    let mut res = Ok(None);
    for s in 0..12 {
        res = Ok(fill_check(w, h, &p, s % w, s / w, 1, 5)?.or(res?));
    }
    res
}
#[cfg(all(hook_image, hook_fill))]
fn c11_large(r: &mut Rng, i: u64) -> Case {
    let (w, h) = LARGE[i as usize % LARGE.len()];
    let p = shape(r, w, h, if i < 30 { 5 } else { 3 });
    let (x, y) = match i / 10 % 3 {
        0 => (0, 0),
        1 => (w - 1, h - 1),
        _ => (w / 2 / 2 * 2, h / 2),
    };
    fill_check(w, h, &p, x, y, 1, 5)
}
#[cfg(all(hook_image, hook_fill))]
fn c11_shapes(r: &mut Rng, i: u64) -> Case {
    let (w, h) = if i % 8 == 0 { (r.pick(&[1, 2, 40]), 1 + r.below(40)) } else { (1 + r.below(24), 1 + r.below(24)) };
    let k = r.below(6);
    let mut p = shape(r, w, h, k);
    if r.chance(1, 3) {
        for c in p.iter_mut() {
            if r.chance(1, 12) {
                *c = r.pick(&[0, 1, 2, 4, 9, 255]);
            }
        }
    }
    let (mut x, mut y) = (r.below(w), r.below(h));
    for _ in 0..20 {
        if p[y * w + x] == 1 {
            break;
        }
        (x, y) = (r.below(w), r.below(h));
    }
    let from = if r.chance(1, 8) { r.pick(&[2, 5, 1]) } else { p[y * w + x] };
    let to = r.pick(&[2, 4, 5, 0, 1, 255]);
    if from == to {
        return Ok(None);
    }
    fill_check(w, h, &p, x, y, from, to)
}
/// through the public interface: detection recolours whole regions only
fn regions_after_detect(r: &mut Rng, _: u64) -> Case {
    let (w, h) = (8 + r.below(120), 8 + r.below(100));
    let mut p: Vec<u8> = match r.below(3) {
        0 => {
            let k = r.below(6);
            shape(r, w, h, k)
        }
        1 => vec![0; w * h],
        _ => (0..w * h).map(|_| r.chance(1, 12) as u8).collect(),
    };
    for _ in 0..r.below(12) {
        // finder-like squares
        let m = 1 + r.below(4);
        let (x0, y0) = (r.below(w), r.below(h));
        for y in 0..9 * m {
            for x in 0..9 * m {
                if x0 + x < w && y0 + y < h {
                    let d = (x as i64 / m as i64 - 4).abs().max((y as i64 / m as i64 - 4).abs());
                    p[(y0 + y) * w + x0 + x] = (d != 2 && d != 4) as u8;
                }
            }
        }
    }
    let mut img = match guard(|| PreparedImage::prepare_from_bitmap(w, h, |x, y| p[y * w + x] == 1)) {
        Ok(i) => i,
        Err(_) => return Ok(None),
    };
    // panics of the float geometry are not the subject here
    if guard(|| img.detect_grids().len()).is_err() {
        return Ok(None);
    }
    let lab = components(w, h, |_, _| true, |k| p[k] == 1);
    let mut col = std::collections::HashMap::new();
    let mut owner = std::collections::HashMap::new();
    for k in 0..w * h {
        let c: u8 = img.get_pixel_at(k % w, k / w).into();
        if (c == 0) != (p[k] == 0) {
            return Err(format!("{w}x{h} bitmap {}: pixel ({}, {}) changed between black and white in detection", show(&p), k % w, k / w));
        }
        if c != 0 {
            if *col.entry(lab[k]).or_insert(c) != c {
                return Err(format!("{w}x{h} bitmap {}: the region of pixel ({}, {}) has several colours after detection", show(&p), k % w, k / w));
            }
            if c >= 5 && *owner.entry(c).or_insert(lab[k]) != lab[k] {
                return Err(format!("{w}x{h} bitmap {}: two regions share colour {c} after detection", show(&p)));
            }
        }
    }
    Ok(if owner.len() > 1 { Some(fp(&(w, p))) } else { None })
}
#[cfg(all(hook_image, hook_region))]
fn c12_history(r: &mut Rng, i: u64) -> Case {
    history(r, i, false)
}
/// the same on copies of the image made in between
#[cfg(all(hook_image, hook_region))]
fn c12_copies(r: &mut Rng, i: u64) -> Case {
    history(r, i, true)
}
#[cfg(all(hook_image, hook_region))]
fn c12_large(r: &mut Rng, i: u64) -> Case {
    let (w, h) = LARGE[i as usize % LARGE.len()];
    let cut = if i < LARGE.len() as u64 { w * h } else { 1 + r.below(w * h) };
    // all black but for one column or one pixel
    let col = r.chance(1, 2);
    let p = (0..w * h).map(|k| (k != cut && (!col || k % w != cut % w || cut == w * h)) as u8).collect();
    history_on(r, w, h, p, 12, false)
}
#[cfg(all(hook_image, hook_region))]
fn history(r: &mut Rng, i: u64, copies: bool) -> Case {
    let (w, h) = match i % 6 {
        0 | 3 => (4 + r.below(20), 4 + r.below(20)),
        1 => (4, 300 + r.below(500)),
        2 => (300 + r.below(500), 4),
        _ => (40 + r.below(20), 40 + r.below(20)),
    };
    let mut p = vec![0u8; w * h];
    let d = r.pick(&[2, 3, 5]);
    for c in p.iter_mut() {
        *c = r.chance(d, 10) as u8;
    }
    if r.chance(1, 3) {
        for y in 0..h {
            for x in 0..w {
                p[y * w + x] = (x % 2 == 0 && y % 2 == 0) as u8;
            }
        }
    }
    history_on(r, w, h, p, 900, copies)
}
#[cfg(all(hook_image, hook_region))]
fn history_on(r: &mut Rng, w: usize, h: usize, p: Vec<u8>, most: usize, copies: bool) -> Case {
    use rqrr::verif::prepare::VImg;
    let lab = components(w, h, |_, _| true, |k| p[k] == 1);
    let ncomp = lab.iter().filter(|l| **l != usize::MAX).max().map(|m| m + 1).unwrap_or(0);
    if ncomp == 0 {
        return Ok(None);
    }
    let mut cells: Vec<Vec<usize>> = vec![vec![]; ncomp];
    for k in 0..w * h {
        if lab[k] != usize::MAX {
            cells[lab[k]].push(k);
        }
    }
    let mut img = guard(|| VImg::new(w, h, p.clone()))?;
    // colour of each component; slots in order of use (least recent first): (number, component)
    let mut colour = vec![1u8; ncomp];
    let mut slots: Vec<(u8, usize)> = vec![];
    let mut hist = vec![];
    let steps = most.min(if ncomp > 251 { 900 } else { 120 });
    let sweep = r.chance(1, 2);
    let mut left: Option<(VImg, Vec<u8>)> = None;
    let mut copied = false;
    for step in 0..steps {
        if copies && r.chance(1, 60) {
            hist.push("copy".to_string());
            let c = guard(|| img.clone()).map_err(|e| format!("{w}x{h} image {} history {}: {e}", show(&p), hist.join(" ")))?;
            // going on with the copy, or with the image the copy was made of
            let other = if r.chance(2, 3) {
                copied = true;
                std::mem::replace(&mut img, c)
            } else {
                c
            };
            let colours = (0..w * h).map(|k| if lab[k] == usize::MAX { 0 } else { colour[lab[k]] }).collect();
            left = Some((other, colours));
        }
        let c = if sweep && r.chance(2, 3) { step % ncomp } else { r.below(ncomp) };
        let k = r.pick(&cells[c]);
        let (x, y) = (k % w, k / w);
        if r.chance(1, 40) && !(2..=4).contains(&colour[c]) {
            let kind = r.pick(&[2u8, 3, 3, 2, 4]);
            hist.push(format!("claim({x},{y},{kind})"));
            let n = guard(|| img.claim(x, y, kind)).map_err(|e| format!("{w}x{h} image {} history {}: {e}", show(&p), hist.join(" ")))?;
            colour[c] = kind;
            if n != cells[c].len() {
                return Err(format!("{w}x{h} image {} history {}: claimed {n} pixels of {}", show(&p), hist.join(" "), cells[c].len()));
            }
        } else {
            hist.push(format!("get({x},{y})"));
            let got = guard(|| img.get_region(x, y)).map_err(|e| format!("{w}x{h} image {} history {}: {e}", show(&p), hist.join(" ")))?;
            let fail = |m: String| Err(format!("{w}x{h} image {} history {}: {m}", show(&p), hist.join(" ")));
            match colour[c] {
                2..=4 => {
                    if got.0 != colour[c] {
                        return fail(format!("claimed region reported as {got:?}"));
                    }
                }
                1 => {
                    if slots.len() == 251 {
                        // the order of use is that of the image, not of copies
                        let at = if copied { slots.iter().position(|s| s.0 == got.1).unwrap_or(0) } else { 0 };
                        let (n, old) = slots.remove(at);
                        if colour[old] == n {
                            colour[old] = 1;
                        }
                    }
                    if got.0 != 0 || got.1 < 5 || slots.iter().any(|s| s.0 == got.1) {
                        return fail(format!("new region got {got:?}, a number in use"));
                    }
                    slots.push((got.1, c));
                    colour[c] = got.1;
                    if got.4 != cells[c].len() {
                        return fail(format!("region of {} pixels counted as {}", cells[c].len(), got.4));
                    }
                }
                n => {
                    let at = slots.iter().position(|s| s.0 == n).unwrap();
                    let s = slots.remove(at);
                    slots.push(s);
                    if (got.0, got.1, got.4) != (0, n, cells[c].len()) {
                        return fail(format!("known region {n} of {} pixels reported as {got:?}", cells[c].len()));
                    }
                }
            }
        }
        if step % 16 == 0 || step + 1 == steps || slots.len() == 251 && step % 4 == 0 {
            for k in 0..w * h {
                let e = if lab[k] == usize::MAX { 0 } else { colour[lab[k]] };
                let g = img.pixel(k % w, k / w);
                if g != e {
                    return Err(format!("{w}x{h} image {} history {}: pixel ({}, {}) is {g}, expected {e}", show(&p), hist.join(" "), k % w, k / w));
                }
            }
        }
    }
    if let Some((img, colours)) = left {
        if let Some(k) = (0..w * h).find(|k| img.pixel(k % w, k / w) != colours[*k]) {
            return Err(format!("{w}x{h} image {} history {}: pixel ({}, {}) of the image left at the last copy is {}, it was {}", show(&p), hist.join(" "), k % w, k / w, img.pixel(k % w, k / w), colours[k]));
        }
    }
    Ok(Some(fp(&(w, h, &p, hist.len()))))
}

#[cfg(hook_line)]
fn line_check(line: &[u8]) -> Case {
    let got = guard(|| rqrr::verif::detect::scan_line(line)).map_err(|e| format!("line {} {e}", show(line)))?;
    let mut want = vec![];
    let mut starts = vec![0];
    for i in 1..line.len() {
        if line[i] != line[i - 1] {
            starts.push(i);
            let k = starts.len() - 1;
            if line[i] == 0 && k >= 5 {
                let l: Vec<usize> = (k - 5..k).map(|j| starts[j + 1] - starts[j]).collect();
                let avg = (l[0] + l[1] + l[3] + l[4]) / 4;
                let tol = avg * 3 / 4;
                if (0..5).all(|j| {
                    let c = if j == 2 { 3 * avg } else { avg };
                    l[j] + tol >= c && l[j] <= c + tol
                }) {
                    want.push((i, starts[k - 5], starts[k - 3], starts[k - 1]));
                }
            }
        }
    }
    if got != want {
        return Err(format!("line {}: reported (at, left, stone, right) {got:?}, expected {want:?}", show(line)));
    }
    Ok(if want.is_empty() { None } else { Some(fp(&line)) })
}
#[cfg(hook_line)]
fn c13_all(_: &mut Rng, i: u64) -> Case {
    // all binary lines of length 1..=15
    let n = (i + 1).ilog2() as usize;
    let line: Vec<u8> = (0..n).map(|k| (i >> k & 1) as u8).collect();
    if n == 0 {
        return Ok(None);
    }
    line_check(&line)
}
#[cfg(hook_line)]
fn c13_runs(r: &mut Rng, _: u64) -> Case {
    let mut line = vec![];
    let mut black = r.chance(1, 2);
    for _ in 0..1 + r.below(4) {
        let u = 1 + r.below(24);
        let n = if r.chance(2, 3) { 5 } else { r.below(8) };
        for j in 0..n {
            let c = if j == 2 { 3 * u } else { u };
            let tol = u * 3 / 4;
            let len = (c + r.below(2 * tol + 3)).saturating_sub(tol + 1).max(1);
            let len = if r.chance(1, 2) { c } else { len };
            let col = if black { r.pick(&[1, 1, 1, 2, 3, 5, 6, 255]) } else { 0 };
            line.extend(std::iter::repeat(col).take(len));
            black = !black;
        }
        if r.chance(1, 4) {
            black = !black;
        }
    }
    line.push(0);
    if line.len() < 2 {
        return Ok(None);
    }
    line_check(&line)
}

#[cfg(hook_line)]
fn c13_long(r: &mut Rng, i: u64) -> Case {
    // unit runs around 8 and 16 bit limits, before, at and beyond the tolerance
    let u = [85usize, 86, 255, 256, 257, 300, 5000, 21845, 21846, 30000, 65535, 65536, 70000][i as usize % 13];
    let mut line = vec![0u8; 1 + r.below(3)];
    if r.chance(1, 2) {
        line.extend(vec![1u8; 66000]);
        line.extend(vec![0u8; 2 * u]);
    }
    for j in 0..5 {
        let c = if j == 2 { 3 * u } else { u };
        line.extend(vec![(j % 2 == 0) as u8; if r.chance(1, 2) { c } else { c + 3 - r.below(7) }]);
    }
    line.push(0);
    line_check(&line)
}

fn rows(r: &mut Rng, lim: usize) -> Vec<(usize, usize, usize)> {
    (0..r.below(12))
        .map(|_| {
            let a = r.below(lim);
            let b = r.below(lim);
            (a.min(b), a.max(b), r.below(lim))
        })
        .collect()
}
#[cfg(hook_corner)]
fn c14_corners(r: &mut Rng, _: u64) -> Case {
    let lim = r.pick(&[4, 10, 100, 16384]);
    let rs = rows(r, lim);
    let (sx, sy) = (r.below(lim) as i64, r.below(lim) as i64);
    let (cx, cy) = (r.below(lim) as i64, r.below(lim) as i64);
    let pts: Vec<(i64, i64)> = rs.iter().flat_map(|(l, rr, y)| [(*l as i64, *y as i64), (*rr as i64, *y as i64)]).collect();
    let f = guard(|| rqrr::verif::detect::first_corner(sx as i32, sy as i32, &rs)).map_err(|e| format!("first corner from ({sx}, {sy}) of rows {rs:?} {e}"))?;
    let mut best = (0i64, 0i64);
    let mut score = -1i64;
    for (x, y) in &pts {
        let d = (x - sx) * (x - sx) + (y - sy) * (y - sy);
        if d > score {
            score = d;
            best = (*x, *y);
        }
    }
    if (f.0 as i64, f.1 as i64) != best {
        return Err(format!("first corner from ({sx}, {sy}) of rows {rs:?}: {f:?}, the farthest (first) end point is {best:?}"));
    }
    let a = guard(|| rqrr::verif::detect::all_corners(sx as i32, sy as i32, cx as i32, cy as i32, &rs))
        .map_err(|e| format!("corners from ({sx}, {sy}) with corner ({cx}, {cy}) of rows {rs:?} {e}"))?;
    let (bx, by) = (cx - sx, cy - sy);
    for j in 0..4 {
        let sc = |p: (i64, i64)| {
            let s = if j % 2 == 0 { p.0 * bx + p.1 * by } else { -p.0 * by + p.1 * bx };
            if j < 2 { s } else { -s }
        };
        let mut best = (sx, sy);
        for p in &pts {
            if sc(*p) > sc(best) {
                best = *p;
            }
        }
        if (a[j].0 as i64, a[j].1 as i64) != best {
            return Err(format!("corner {j} from ({sx}, {sy}) with corner ({cx}, {cy}) of rows {rs:?}: {:?}, expected {best:?}", a[j]));
        }
    }
    Ok(if rs.len() > 1 { Some(fp(&(rs, sx, sy, cx, cy))) } else { None })
}
/// candidates of a line of dark pixels followed by a white one: (start of the first, third, fifth run)
#[cfg(all(hook_image, hook_region, hook_finder))]
fn line_finders(dark: &[bool]) -> Vec<(usize, usize, usize)> {
    let mut line = dark.to_vec();
    line.push(false);
    let mut starts = vec![0];
    let mut res = vec![];
    for i in 1..line.len() {
        if line[i] != line[i - 1] {
            starts.push(i);
            let k = starts.len() - 1;
            if !line[i] && k >= 5 {
                let l: Vec<usize> = (k - 5..k).map(|j| starts[j + 1] - starts[j]).collect();
                let avg = (l[0] + l[1] + l[3] + l[4]) / 4;
                let tol = avg * 3 / 4;
                if (0..5).all(|j| {
                    let c = if j == 2 { 3 * avg } else { avg };
                    l[j] + tol >= c && l[j] <= c + tol
                }) {
                    res.push((starts[k - 5], starts[k - 3], starts[k - 1]));
                }
            }
        }
    }
    res
}
/// pixels of the cells where the score is greatest, at most `n`
#[cfg(all(hook_image, hook_region, hook_finder))]
fn best(cells: &[(i64, i64)], score: impl Fn((i64, i64)) -> i64, n: usize) -> Vec<(i64, i64)> {
    let m = cells.iter().map(|c| score(*c)).max().unwrap();
    cells.iter().copied().filter(|c| score(*c) == m).take(n).collect()
}
/// whether some choice among equally extremal corners of a ring is so
#[cfg(all(hook_image, hook_region, hook_finder))]
fn corner_choice(cells: &[(i64, i64)], x: i64, y: i64, is: impl Fn([(i32, i32); 4]) -> bool) -> bool {
    for f in best(cells, |q| (q.0 - x).pow(2) + (q.1 - y).pow(2), 9) {
        let b = (f.0 - x, f.1 - y);
        let cs: [Vec<(i64, i64)>; 4] = [0, 1, 2, 3].map(|j| best(cells, |q| across(b, j, q), 40));
        let p = |q: (i64, i64)| (q.0 as i32, q.1 as i32);
        for c1 in &cs[1] {
            for c2 in &cs[2] {
                for c3 in &cs[3] {
                    for c0 in [cs[0][0], *cs[0].last().unwrap()] {
                        if is([p(c0), p(*c1), p(*c2), p(*c3)]) {
                            return true;
                        }
                    }
                }
            }
        }
    }
    false
}
#[cfg(all(hook_image, hook_region, hook_finder))]
fn across(b: (i64, i64), j: usize, p: (i64, i64)) -> i64 {
    let s = if j % 2 == 0 { p.0 * b.0 + p.1 * b.1 } else { p.1 * b.0 - p.0 * b.1 };
    if j < 2 { s } else { -s }
}
/// p: 0 white, 1 dark; claims: components claimed beforehand (by a pixel, as 2 or 3); asks: pixels queried beforehand
#[cfg(all(hook_image, hook_region, hook_finder))]
fn finder_check(w: usize, h: usize, p: &[u8], claims: &[(usize, u8)], asks: &[usize]) -> Case {
    use rqrr::verif::{detect, prepare::VImg};
    let what = || format!("{w}x{h} image {} claimed {claims:?} asked {asks:?}", show(p));
    let lab = components(w, h, |_, _| true, |k| p[k] == 1);
    let n = lab.iter().filter(|l| **l != usize::MAX).max().map(|m| m + 1).unwrap_or(0);
    let mut cells: Vec<Vec<(i64, i64)>> = vec![vec![]; n];
    for k in 0..w * h {
        if lab[k] != usize::MAX {
            cells[lab[k]].push(((k % w) as i64, (k / w) as i64));
        }
    }
    let mut img = guard(|| VImg::new(w, h, p.to_vec()))?;
    let mut taken = vec![0u8; n];
    for (k, kind) in claims {
        if p[*k] == 1 && taken[lab[*k]] == 0 {
            taken[lab[*k]] = *kind;
            guard(|| img.claim(*k % w, *k / w, *kind)).map_err(|e| format!("{}: {e}", what()))?;
        }
    }
    for k in asks {
        if p[*k] == 1 {
            guard(|| img.get_region(*k % w, *k / w)).map_err(|e| format!("{}: {e}", what()))?;
        }
    }
    let mut before = taken.clone();
    let mut events = vec![];
    for y in 0..h {
        let row: Vec<bool> = (0..w).map(|x| p[y * w + x] == 1).collect();
        for (l, s, r) in line_finders(&row) {
            let (cl, cs, cr) = (lab[y * w + l], lab[y * w + s], lab[y * w + r]);
            let ratio = cells[cs].len() * 100 / cells[cr].len();
            if taken[cr] == 0 && taken[cs] == 0 && cl == cr && cs != cr && ratio > 10 && ratio < 70 {
                taken[cr] = 2;
                events.push((cr, r as i64, y as i64));
            }
        }
    }
    let got = match guard(|| detect::finders(&mut img)) {
        Ok(g) => g,
        // the float perspective may leave the range of coordinates (C19)
        Err(_) if events.iter().any(|(c, x, y)| corner_choice(&cells[*c], *x, *y, |q| guard(|| detect::centre(q)).is_err())) => return Ok(None),
        Err(e) => return Err(format!("{}: finder detection {e}", what())),
    };
    let mut k = 0;
    for (c, x, y) in &events {
        let far = best(&cells[*c], |q| (q.0 - x).pow(2) + (q.1 - y).pow(2), usize::MAX);
        let fits = |q: &[(i32, i32); 4]| {
            far.iter().any(|f| {
                let b = (f.0 - x, f.1 - y);
                (0..4).all(|j| {
                    let q = (q[j].0 as i64, q[j].1 as i64);
                    cells[*c].contains(&q) && across(b, j, q) == cells[*c].iter().map(|t| across(b, j, *t)).max().unwrap()
                })
            })
        };
        if k < got.len() && fits(&got[k].0) {
            let want = guard(|| detect::centre(got[k].0))?;
            if want != Some(got[k].1) {
                return Err(format!("{}: finder {:?} has its centre at {:?} instead of {want:?}", what(), got[k].0, got[k].1));
            }
            k += 1;
            continue;
        }
        // not reported: right only without a perspective
        let none = corner_choice(&cells[*c], *x, *y, |q| !matches!(guard(|| detect::centre(q)), Ok(Some(_))));
        if !none {
            return Err(format!("{}: the finder with its last run starting at ({x}, {y}) is not reported, or not with its corners; reported {got:?}", what()));
        }
    }
    if k < got.len() {
        return Err(format!("{}: reported {:?} in addition to the finders in the image", what(), &got[k..]));
    }
    let again = guard(|| detect::finders(&mut img)).map_err(|e| format!("{}: second detection {e}", what()))?;
    if !again.is_empty() {
        return Err(format!("{}: a second detection reports {again:?}", what()));
    }
    std::mem::swap(&mut before, &mut taken);
    for i in 0..w * h {
        let v = img.pixel(i % w, i / w);
        let ok = if lab[i] == usize::MAX {
            v == 0
        } else {
            let t = before[lab[i]];
            if t != 0 { v == t } else { v == 1 || v >= 5 }
        };
        if !ok {
            return Err(format!("{}: pixel ({}, {}) is {v} afterwards", what(), i % w, i / w));
        }
    }
    Ok(if events.is_empty() { None } else { Some(fp(&(w, p))) })
}
/// paints a finder with the given column widths and row heights
#[cfg(all(hook_image, hook_region, hook_finder))]
fn paint(p: &mut [u8], w: usize, h: usize, x0: i64, y0: i64, cols: &[usize; 7], rows: &[usize; 7], margin: bool) {
    let at: Vec<usize> = (0..7).flat_map(|i| std::iter::repeat(i).take(cols[i])).collect();
    let dn: Vec<usize> = (0..7).flat_map(|i| std::iter::repeat(i).take(rows[i])).collect();
    let mut set = |x: i64, y: i64, v: u8| {
        if x >= 0 && y >= 0 && x < w as i64 && y < h as i64 {
            p[y as usize * w + x as usize] = v;
        }
    };
    if margin {
        for y in -1..=dn.len() as i64 {
            set(x0 - 1, y0 + y, 0);
            set(x0 + at.len() as i64, y0 + y, 0);
        }
        for x in -1..=at.len() as i64 {
            set(x0 + x, y0 - 1, 0);
            set(x0 + x, y0 + dn.len() as i64, 0);
        }
    }
    for (y, i) in dn.iter().enumerate() {
        for (x, j) in at.iter().enumerate() {
            let d = (*i as i64 - 3).abs().max((*j as i64 - 3).abs());
            set(x0 + x as i64, y0 + y as i64, (d != 2) as u8);
        }
    }
}
#[cfg(all(hook_image, hook_region, hook_finder))]
fn sizes7(r: &mut Rng, even: bool) -> [usize; 7] {
    let m = 1 + r.below(3);
    let mut s = [m; 7];
    if !even {
        for v in s.iter_mut() {
            *v = (m + r.below(3)).saturating_sub(r.below(2)).max(1);
        }
    }
    s
}
#[cfg(all(hook_image, hook_region, hook_finder))]
fn c21_scenes(r: &mut Rng, i: u64) -> Case {
    let (w, h) = (9 + r.below(80), 9 + r.below(60));
    let mut p: Vec<u8> = match i % 3 {
        0 => vec![0; w * h],
        1 => (0..w * h).map(|_| r.chance(1, 12) as u8).collect(),
        _ => {
            let k = r.below(6);
            shape(r, w, h, k)
        }
    };
    for _ in 0..1 + r.below(6) {
        let even = r.chance(1, 2);
        let (c, d) = (sizes7(r, even), sizes7(r, even));
        let (cw, ch) = (c.iter().sum::<usize>() as i64, d.iter().sum::<usize>() as i64);
        let x0 = if r.chance(1, 4) { w as i64 - cw } else { r.range(-3, w as i64 - 3) };
        let y0 = if r.chance(1, 6) { h as i64 - ch } else { r.range(-3, h as i64 - 3) };
        let margin = r.chance(3, 4);
        paint(&mut p, w, h, x0, y0, &c, &d, margin);
    }
    for _ in 0..r.below(6) {
        let k = r.below(w * h);
        p[k] ^= 1;
    }
    let claims: Vec<(usize, u8)> = if r.chance(1, 3) { (0..r.below(20)).map(|_| (r.below(w * h), 2 + r.below(2) as u8)).collect() } else { vec![] };
    let asks: Vec<usize> = if r.chance(1, 3) { (0..r.below(400)).map(|_| r.below(w * h)).collect() } else { vec![] };
    finder_check(w, h, &p, &claims, &asks)
}
/// rings whose far corners meet in one point, so that they admit no perspective, before and after finders on their line
#[cfg(all(hook_image, hook_region, hook_finder))]
fn c21_refused(r: &mut Rng, _: u64) -> Case {
    let (w, h) = (40 + r.below(60), 30 + r.below(12));
    let mut p = vec![0u8; w * h];
    let y0 = 24 + r.below(h - 27);
    let mut x = r.below(4);
    while x + 8 < w {
        let m = 2 + r.below(2);
        let wide = 7 * m;
        if x + wide < w && r.chance(1, 2) {
            // the line closes to the triangle of its ends and a point above the left one
            let k = wide + r.below(3);
            let edge = |t: usize| (wide - 1) * (k - t.min(k)) / k;
            for t in 0..=k {
                p[(y0 - t) * w + x] = 1;
                for e in edge(t + 1)..=edge(t) {
                    p[(y0 - t) * w + x + e] = 1;
                }
            }
            for e in (0..m).chain(2 * m..5 * m).chain(6 * m..wide) {
                p[y0 * w + x + e] = 1;
            }
            if r.chance(1, 2) {
                for e in 2 * m..5 * m {
                    p[(y0 + 1) * w + x + e] = 1;
                }
            }
            x += wide + 1 + r.below(3);
        } else {
            // a stone of one row is met on this line only
            if r.chance(3, 4) {
                paint(&mut p, w, h, x as i64, y0 as i64 - 2, &[1; 7], &[1, 1, 0, 1, 0, 1, 1], true);
            } else {
                paint(&mut p, w, h, x as i64, y0 as i64 - r.range(0, 5), &[1; 7], &[1; 7], true);
            }
            x += 8 + r.below(3);
        }
    }
    finder_check(w, h, &p, &[], &[])
}
/// finders far from the origin, or large
#[cfg(all(hook_image, hook_region, hook_finder))]
fn c21_large(r: &mut Rng, i: u64) -> Case {
    let (w, h) = [(66_000, 24), (24, 66_000), (33_000, 30), (30, 33_000), (700, 700), (1100, 60), (60, 1100), (300, 260)][i as usize % 8];
    let mut p = vec![0u8; w * h];
    let largest = w.min(h) / 7;
    for _ in 0..1 + r.below(3) {
        let m = if largest > 40 && r.chance(1, 2) { largest } else { 1 + r.below(largest.min(9)) };
        let (cw, ch) = (7 * m as i64, 7 * m as i64);
        let x0 = match r.below(4) {
            0 => w as i64 - cw,
            1 => w as i64 - cw - r.below(60) as i64,
            _ => r.range(-2, w as i64 - cw + 1),
        };
        let y0 = match r.below(4) {
            0 => h as i64 - ch,
            1 => h as i64 - ch - r.below(60) as i64,
            _ => r.range(-2, h as i64 - ch + 1),
        };
        paint(&mut p, w, h, x0.max(-2), y0.max(-2), &[m; 7], &[m; 7], true);
    }
    finder_check(w, h, &p, &[], &[])
}
/// a finder whose ring and stone are enlarged until the share of the stone is at a limit
#[cfg(all(hook_image, hook_region, hook_finder))]
fn c21_share(r: &mut Rng, i: u64) -> Case {
    let m = 1 + r.below(3);
    let (w, h) = (7 * m + 40, 7 * m + 40);
    let mut p = vec![0u8; w * h];
    let (x0, y0) = (2 + r.below(3), 2 + r.below(3));
    paint(&mut p, w, h, x0 as i64, y0 as i64, &[m; 7], &[m; 7], true);
    let (mut ring, mut stone) = (24 * m * m, 9 * m * m);
    let goal = [9usize, 10, 11, 12, 68, 69, 70, 71][i as usize % 8];
    let mut ok = stone * 100 / ring == goal;
    if goal < 40 {
        // a comb hanging from the ring
        'a: for x in (x0..w).step_by(2) {
            for y in y0 + 7 * m..h {
                if ok {
                    break 'a;
                }
                if y > y0 + 7 * m && y < h - 1 || y == y0 + 7 * m {
                    if p[y * w + x] == 0 {
                        p[y * w + x] = 1;
                        ring += 1;
                    }
                    if y == y0 + 7 * m && x + 1 < w && x + 1 >= x0 + 7 * m && p[y * w + x + 1] == 0 {
                        p[y * w + x + 1] = 1;
                        ring += 1;
                    }
                }
                ok = stone * 100 / ring == goal;
            }
        }
    } else {
        // the ring opens at the bottom and the stone hangs out
        for y in y0 + 6 * m..y0 + 7 * m {
            for x in x0 + m..x0 + 6 * m {
                p[y * w + x] = 0;
                ring -= 1;
            }
        }
        'b: for y in y0 + 5 * m..h {
            for x in x0 + 2 * m..x0 + 5 * m {
                if ok {
                    break 'b;
                }
                p[y * w + x] = 1;
                stone += 1;
                ok = stone * 100 / ring == goal;
            }
        }
    }
    if r.chance(1, 2) {
        // upside down: the share is the same however it is met
        let q = p.clone();
        for y in 0..h {
            p[y * w..(y + 1) * w].copy_from_slice(&q[(h - 1 - y) * w..(h - y) * w]);
        }
    }
    finder_check(w, h, &p, &[], &[])
}
/// more regions than there are numbers
#[cfg(all(hook_image, hook_region, hook_finder))]
fn c21_many(r: &mut Rng, _: u64) -> Case {
    let (a, b) = (11 + r.below(4), 11 + r.below(4));
    let (w, h) = (a * 9 - r.below(2), b * 9);
    let mut p = vec![0u8; w * h];
    for i in 0..a {
        for j in 0..b {
            if r.chance(14, 15) {
                paint(&mut p, w, h, 1 + 9 * i as i64, 1 + 9 * j as i64, &[1; 7], &[1; 7], true);
            }
            if r.chance(1, 3) {
                // the stone is a wall between two dots: the ring is met in several lines before
                p[(9 * j + r.below(9)) * w + (9 * i + r.below(9)).min(w - 1)] ^= 1;
            }
        }
    }
    let asks: Vec<usize> = if r.chance(1, 2) { (0..r.below(9000)).map(|_| r.below(w * h)).collect() } else { vec![] };
    finder_check(w, h, &p, &[], &asks)
}
/// rotated and sheared finders
#[cfg(all(hook_image, hook_region, hook_finder))]
fn c21_skewed(r: &mut Rng, _: u64) -> Case {
    let (w, h) = (60 + r.below(60), 60 + r.below(60));
    let mut p = vec![0u8; w * h];
    for _ in 0..1 + r.below(3) {
        let (cx, cy) = (r.below(w) as f64, r.below(h) as f64);
        let t = r.below(628) as f64 / 100.0;
        let (m, sh) = (2.0 + r.below(50) as f64 / 10.0, r.range(-30, 30) as f64 / 100.0);
        for y in 0..h {
            for x in 0..w {
                let (dx, dy) = (x as f64 - cx, y as f64 - cy);
                let (u, v) = ((dx * t.cos() + dy * t.sin()) / m, (dy * t.cos() - dx * t.sin()) / m);
                let d = (u + sh * v).abs().max(v.abs());
                if d < 4.5 {
                    p[y * w + x] = (d < 1.5 || (2.5..3.5).contains(&d)) as u8;
                }
            }
        }
    }
    finder_check(w, h, &p, &[], &[])
}
#[cfg(hook_leftmost)]
fn c14_leftmost(r: &mut Rng, _: u64) -> Case {
    let lim = r.pick(&[4, 10, 100, 16384]);
    let rs = rows(r, lim);
    let d = lim as i64;
    let (lx, ly) = (r.range(-d, d), r.range(-d, d));
    let s = (r.below(lim) as i64, r.below(lim) as i64);
    let sc = |p: (i64, i64)| -ly * p.0 + lx * p.1;
    let g = guard(|| rqrr::verif::grid::leftmost((lx as i32, ly as i32), (s.0 as i32, s.1 as i32), sc(s) as i32, &rs))
        .map_err(|e| format!("leftmost across ({lx}, {ly}) from {s:?} of rows {rs:?} {e}"))?;
    let mut best = s;
    for p in rs.iter().flat_map(|(l, rr, y)| [(*l as i64, *y as i64), (*rr as i64, *y as i64)]) {
        if sc(p) < sc(best) {
            best = p;
        }
    }
    if (g.0 as i64, g.1 as i64) != best {
        return Err(format!("leftmost across ({lx}, {ly}) from {s:?} of rows {rs:?}: {g:?}, expected {best:?}"));
    }
    Ok(if rs.len() > 1 { Some(fp(&(rs, lx, ly))) } else { None })
}

#[cfg(hook_geo)]
fn line_points(a: (i32, i32), b: (i32, i32)) -> Result<Vec<(i32, i32)>, String> {
    let (dx, dy) = ((b.0 as i64 - a.0 as i64).abs(), (b.1 as i64 - a.1 as i64).abs());
    let n = dx.max(dy);
    let p = guard(|| rqrr::verif::geometry::bresenham(a, b, n as usize + 10)).map_err(|e| format!("line scan from {a:?} to {b:?} {e}"))?;
    let fail = |m: String| Err(format!("line scan from {a:?} to {b:?}: {m}"));
    if p.len() as i64 != n + 1 {
        return fail(format!("{} points instead of {}", p.len(), n + 1));
    }
    if p[0] != a || *p.last().unwrap() != b {
        return fail(format!("runs from {:?} to {:?}", p[0], p.last().unwrap()));
    }
    let xdom = dx > dy;
    for (k, q) in p.iter().enumerate() {
        let k = k as i64;
        let (dom, non, d0, n0, d1, n1) = if xdom { (q.0, q.1, a.0, a.1, b.0, b.1) } else { (q.1, q.0, a.1, a.0, b.1, b.0) };
        let sgn = (d1 as i64 - d0 as i64).signum();
        if dom as i64 != d0 as i64 + sgn * k {
            return fail(format!("point {k} is {q:?}: not {k} steps along the dominant axis"));
        }
        // |non - exact| <= 1, scaled by n
        let e = (non as i64 - n0 as i64) as i128 * n as i128 - (n1 as i64 - n0 as i64) as i128 * k as i128;
        if n > 0 && e.abs() > n as i128 {
            return fail(format!("point {k} is {q:?}: more than one pixel off the line"));
        }
    }
    Ok(p)
}
#[cfg(hook_geo)]
fn c15_small(_: &mut Rng, i: u64) -> Case {
    // all lines within a 15x15 square from its centre, from two origins
    let i = i as i32;
    let o = if i % 2 == 0 { (0, 0) } else { (-7, 100) };
    let (dx, dy) = (i / 2 % 31 - 15, i / 62 - 15);
    line_points(o, (o.0 + dx, o.1 + dy))?;
    Ok(Some(i as u64))
}
#[cfg(hook_geo)]
fn c15_random(r: &mut Rng, _: u64) -> Case {
    let d = r.pick(&[20, 300, 5000]);
    let a = (r.range(-20000, 20000), r.range(-20000, 20000));
    let b = (a.0 + r.range(-d, d), a.1 + if r.chance(1, 4) { r.range(-3, 3) } else { r.range(-d, d) });
    let (a, b) = ((a.0 as i32, a.1 as i32), (b.0 as i32, b.1 as i32));
    line_points(a, b)?;
    Ok(Some(fp(&(a, b))))
}
#[cfg(hook_geo)]
fn c15_long(r: &mut Rng, i: u64) -> Case {
    let o = 1i64 << 30;
    let d = [70000, 200000, 2500000][i as usize % 3];
    let c = r.pick(&[0, 5 - o, o - 2500010]);
    let a = (c + if c < 0 { 2500000 } else { 0 } + r.range(0, 5), r.pick(&[0, -o / 2, o / 2]));
    let e = r.pick(&[0, 1, d / 2, d - 1, d, d + 1]).min(2500000);
    let b = (a.0 + if c > 0 { d } else if c < 0 { -d } else { r.pick(&[-d, d]) }, a.1 + r.pick(&[-1, 1]) * e);
    let (a, b) = ((a.0 as i32, a.1 as i32), (b.0 as i32, b.1 as i32));
    line_points(a, b)?;
    Ok(Some(fp(&(a, b))))
}
#[cfg(all(hook_geo, hook_timing, hook_image))]
fn c15_timing(r: &mut Rng, _: u64) -> Case {
    let (w, h) = (1 + r.below(60), 1 + r.below(60));
    let p: Vec<u8> = (0..w * h).map(|k| if r.chance(1, 6) { r.pick(&[0, 1, 2, 7]) } else { (k / 3 % 2) as u8 }).collect();
    let mut pt = |r: &mut Rng| (r.range(-5, w as i64 + 5) as i32, r.range(-5, h as i64 + 5) as i32);
    let (a, b) = (pt(r), pt(r));
    let pts = line_points(a, b)?;
    let img = guard(|| rqrr::verif::prepare::VImg::new(w, h, p.clone()))?;
    let got = guard(|| rqrr::verif::grid::timing_scan(&img, a, b)).map_err(|e| format!("timing scan from {a:?} to {b:?} {e}"))?;
    let col: Vec<u8> = pts.iter().map(|(x, y)| p[(*y).clamp(0, h as i32 - 1) as usize * w + (*x).clamp(0, w as i32 - 1) as usize]).collect();
    let want = col.windows(2).filter(|c| c[0] != c[1]).count();
    if got != want {
        return Err(format!("timing scan from {a:?} to {b:?} in {w}x{h} image {}: {got} changes, expected {want}", show(&p)));
    }
    Ok(if want > 0 { Some(fp(&(p, a, b))) } else { None })
}
#[cfg(hook_geo)]
fn c16_lines(r: &mut Rng, i: u64) -> Case {
    let lim = match i % 4 {
        0 => 3,
        1 => 30,
        2 => 3000,
        _ => 1 << 19,
    };
    let mut pt = |r: &mut Rng| (r.range(-lim, lim) as i32, r.range(-lim, lim) as i32);
    let mut p = [pt(r), pt(r), pt(r), pt(r)];
    if r.chance(1, 5) {
        // parallel, or the same line
        let k = r.range(-1, 2) as i32;
        let d = (p[1].0 - p[0].0, p[1].1 - p[0].1);
        p[3] = (p[2].0 + k * d.0, p[2].1 + k * d.1);
        if p[3].0.abs() > 1 << 19 || p[3].1.abs() > 1 << 19 {
            p[3] = p[2];
        }
    }
    let q = p.map(|(x, y)| (x as i128, y as i128));
    let (a, b) = (-(q[1].1 - q[0].1), q[1].0 - q[0].0);
    let (c, d) = (-(q[3].1 - q[2].1), q[3].0 - q[2].0);
    let det = a * d - b * c;
    let (e, f) = (a * q[1].0 + b * q[1].1, c * q[3].0 + d * q[3].1);
    let want = if det == 0 {
        None
    } else {
        let (x, y) = ((d * e - b * f) / det, (a * f - c * e) / det);
        match (i32::try_from(x), i32::try_from(y)) {
            (Ok(x), Ok(y)) => Some((x, y)),
            _ => None,
        }
    };
    let got = guard(|| rqrr::verif::geometry::line_intersect(p)).map_err(|e| format!("intersection of {p:?} {e}"))?;
    if got != want {
        return Err(format!("intersection of lines {:?}-{:?} and {:?}-{:?}: {got:?}, exact {want:?}", p[0], p[1], p[2], p[3]));
    }
    Ok(if want.is_some() { Some(fp(&p)) } else { None })
}
#[cfg(hook_persp)]
fn c17_corners(r: &mut Rng, _: u64) -> Case {
    let lim = r.pick(&[10, 200, 4000]);
    let convex = r.chance(3, 4);
    let mut p = [(0i32, 0i32); 4];
    if convex {
        // a distorted square, clockwise in image coordinates
        let s = 7 + r.below(lim as usize) as i64;
        let j = s / 4;
        let o = (r.range(0, lim), r.range(0, lim));
        for (k, (dx, dy)) in [(0, 0), (1, 0), (1, 1), (0, 1)].into_iter().enumerate() {
            p[k] = ((o.0 + dx * s + r.range(-j, j)) as i32, (o.1 + dy * s + r.range(-j, j)) as i32);
        }
        let rot = r.below(4);
        p.rotate_left(rot);
    } else {
        for q in p.iter_mut() {
            *q = (r.range(0, lim) as i32, r.range(0, lim) as i32);
        }
    }
    let (w, h) = if r.chance(1, 2) { (7.0, 7.0) } else { (1.0 + r.below(170) as f64, 1.0 + r.below(170) as f64) };
    let q = p.map(|(x, y)| (x as i64, y as i64));
    let area = |a: usize, b: usize, c: usize| (q[b].0 - q[a].0) * (q[c].1 - q[a].1) - (q[c].0 - q[a].0) * (q[b].1 - q[a].1);
    let a123 = area(1, 2, 3);
    let c = guard(|| rqrr::verif::geometry::create(p, w, h)).map_err(|e| format!("perspective for {p:?} {w} {h} {e}"))?;
    if c.is_some() != (a123 > 0) {
        return Err(format!("perspective for {p:?} {w}x{h}: {c:?}, area {a123}"));
    }
    let Some(c) = c else { return Ok(None) };
    // the denominators at the corners are ratios of these areas
    let (a012, a013, a023) = (area(0, 1, 2), area(0, 1, 3), area(0, 2, 3));
    if a012 <= 0 || a013 <= 0 || a023 <= 0 {
        return Ok(None);
    }
    for (k, (u, v)) in [(0.0, 0.0), (w, 0.0), (w, h), (0.0, h)].into_iter().enumerate() {
        let m = guard(|| rqrr::verif::geometry::map(c, u, v)).map_err(|e| format!("mapping corner {k} of {p:?} {w}x{h} {e}"))?;
        if m != p[k] {
            return Err(format!("perspective for {p:?} {w}x{h} maps corner {k} to {m:?}"));
        }
        let (uu, vv) = rqrr::verif::geometry::unmap(c, p[k].0, p[k].1);
        if (uu - u).abs() > 1e-5 * (1.0 + w) || (vv - v).abs() > 1e-5 * (1.0 + h) {
            return Err(format!("perspective for {p:?} {w}x{h} unmaps corner {k} to ({uu}, {vv})"));
        }
    }
    // inner points: compare with the projective map through the four corners
    let f = |k: usize| (p[k].0 as f64, p[k].1 as f64);
    let (x0, y0) = f(0);
    let (x1, y1) = f(1);
    let (x2, y2) = f(2);
    let (x3, y3) = f(3);
    let (dx1, dx2, sx) = (x1 - x2, x3 - x2, x0 - x1 + x2 - x3);
    let (dy1, dy2, sy) = (y1 - y2, y3 - y2, y0 - y1 + y2 - y3);
    let den = dx1 * dy2 - dy1 * dx2;
    let (g, hh) = ((sx * dy2 - sy * dx2) / den, (dx1 * sy - dy1 * sx) / den);
    for _ in 0..6 {
        let (u, v) = (r.range(0, 1000) as f64 / 1000.0, r.range(0, 1000) as f64 / 1000.0);
        let d = g * u + hh * v + 1.0;
        let x = ((x1 - x0 + g * x1) * u + (x3 - x0 + hh * x3) * v + x0) / d;
        let y = ((y1 - y0 + g * y1) * u + (y3 - y0 + hh * y3) * v + y0) / d;
        let m = guard(|| rqrr::verif::geometry::map(c, u * w, v * h)).map_err(|e| format!("mapping a point of {p:?} {w}x{h} {e}"))?;
        if (m.0 as f64 - x).abs() > 0.5 + 1e-5 || (m.1 as f64 - y).abs() > 0.5 + 1e-5 {
            return Err(format!("perspective for {p:?} {w}x{h} maps ({}, {}) to {m:?}, expected ({x}, {y})", u * w, v * h));
        }
        // and back: unmap of the pixel, mapped again by the reference, is the pixel
        let (uu, vv) = rqrr::verif::geometry::unmap(c, m.0, m.1);
        let (uu, vv) = (uu / w, vv / h);
        let d = g * uu + hh * vv + 1.0;
        let x = ((x1 - x0 + g * x1) * uu + (x3 - x0 + hh * x3) * vv + x0) / d;
        let y = ((y1 - y0 + g * y1) * uu + (y3 - y0 + hh * y3) * vv + y0) / d;
        if (x - m.0 as f64).abs() > 1e-4 || (y - m.1 as f64).abs() > 1e-4 {
            return Err(format!("perspective for {p:?} {w}x{h} unmaps pixel {m:?} to ({uu}, {vv}) of the unit square, whose image is ({x}, {y})"));
        }
    }
    Ok(Some(fp(&p)))
}

struct Failing {
    left: usize,
    got: Vec<u8>,
    chunk: usize,
    interrupt: bool,
    tick: usize,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick += 1;
        if self.interrupt && self.tick % 3 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        if self.left == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.chunk).min(self.left);
        self.left -= n;
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn c18_output(r: &mut Rng, _: u64) -> Case {
    let (v, l, m) = (r.pick(&[1, 2, 3, 10, 27]), r.below(4), r.below(8));
    let n = qr::data_len(v, l);
    let mut b = Bits::default();
    let utf = r.chance(1, 2);
    for _ in 0..1 + r.below(3) {
        let mode = if utf { r.pick(&[1, 2, 4]) } else { r.pick(&[1, 2, 4, 8]) };
        if mode == 4 && utf {
            let s: String = (0..r.below(4)).map(|_| r.pick(&["a", "é", "€", "😀", "0", "\u{0}", "\u{feff}", "\r\n", " ", "\u{fffd}", "\t", "\""])).collect();
            b.put(4, 4);
            b.put(s.len(), qr::count_bits(v, 4));
            for x in s.bytes() {
                b.put(x as usize, 8);
            }
        } else {
            let c = r.below(6);
            put_segment(r, &mut b, v, mode, c);
        }
    }
    if r.chance(1, 8) {
        b.put(15, 4);
    }
    let d = fit(r, b, n, 0);
    let s = qr::encode(v, l, m, &d);
    let (wout, end) = qr::parse(v, &d);
    let Some(w) = want(end, (v, l, m)) else { return Ok(None) };
    let desc = |x: &str| format!("{x}: version {v} level {l} mask {m} data codewords {}", show(&d));
    // string form
    let got = guard(|| Grid::new(Probe(&s)).decode().map(|(a, b)| (m3(a), b))).map_err(|e| format!("{} {e}", desc("decode")))?;
    let exp = match &w {
        Ok(meta) => match String::from_utf8(wout.clone()) {
            Ok(t) => Ok((*meta, t)),
            Err(_) => Err(DeQRError::EncodingError),
        },
        Err(e) => Err(*e),
    };
    if got != exp {
        return Err(format!("{}: expected {exp:?}, got {got:?}", desc("decode")));
    }
    // failing writer
    let cap = if r.chance(1, 4) { wout.len() } else { r.below(wout.len() + 2) };
    let mut f = Failing { left: cap, got: vec![], chunk: r.pick(&[1, 2, 1000]), interrupt: r.chance(1, 2), tick: 0 };
    let got = guard(|| Grid::new(Probe(&s)).decode_to(&mut f).map(m3)).map_err(|e| format!("{} {e}", desc("decode_to")))?;
    let exp = if cap < wout.len() { Err(DeQRError::IoError) } else { w };
    if got != exp {
        return Err(format!("{}: writer that fails after {cap} of {} bytes: expected {exp:?}, got {got:?}", desc("decode_to"), wout.len()));
    }
    if !wout.starts_with(&f.got) || (exp.is_ok() && f.got != wout) {
        return Err(format!("{}: the writer got {}, the payload is {}", desc("decode_to"), show(&f.got), show(&wout)));
    }
    Ok(Some(fp(&(v, &d, cap))))
}
/// every place of failure of one long payload
fn c18_points(r: &mut Rng, i: u64) -> Case {
    let v = 10;
    let mut b = Bits::default();
    let mut rr = Rng::new(7, "c18", 0);
    for (mode, c) in [(1, 8), (2, 5), (4, 6), (8, 3), (1, 1), (1, 3), (2, 1)] {
        put_segment(&mut rr, &mut b, v, mode, c);
    }
    let d = fit(r, b, qr::data_len(v, 1), 0);
    let s = qr::encode(v, 1, 2, &d);
    let (wout, _) = qr::parse(v, &d);
    let cap = i as usize;
    let mut f = Failing { left: cap, got: vec![], chunk: 1, interrupt: false, tick: 0 };
    let got = guard(|| Grid::new(Probe(&s)).decode_to(&mut f).map(m3))?;
    let exp = if cap < wout.len() { Err(DeQRError::IoError) } else { Ok((v, 1, 2)) };
    if got != exp || f.got != wout[..cap.min(wout.len())] {
        return Err(format!("writer that fails after {cap} of {} bytes: expected {exp:?}, got {got:?} with {}", wout.len(), show(&f.got)));
    }
    Ok(Some(i))
}

/// an image of symbol modules under a projective map, with noise
#[cfg(any(hook_fit, hook_locate, hook_search, hook_measure, hook_read, hook_group))]
struct Scene {
    w: usize,
    h: usize,
    p: Vec<u8>,
    size: usize,
    c: [f64; 8],
}
#[cfg(any(hook_fit, hook_locate, hook_search, hook_measure, hook_read, hook_group))]
impl Scene {
    fn at(&self, u: f64, v: f64) -> (f64, f64) {
        let c = &self.c;
        let d = c[6] * u + c[7] * v + 1.0;
        ((c[0] * u + c[1] * v + c[2]) / d, (c[3] * u + c[4] * v + c[5]) / d)
    }
    fn point(&self, u: f64, v: f64) -> (i32, i32) {
        let p = self.at(u, v);
        (p.0.round() as i32, p.1.round() as i32)
    }
    /// finder k (bottom left, top left, top right): corners from the top left one on and centre
    fn finder(&self, k: usize) -> ([(i32, i32); 4], (i32, i32)) {
        let n = self.size as f64;
        let (x, y) = [(0.0, n - 7.0), (0.0, 0.0), (n - 7.0, 0.0)][k];
        ([(0.0, 0.0), (7.0, 0.0), (7.0, 7.0), (0.0, 7.0)].map(|(a, b)| self.point(x + a, y + b)), self.point(x + 3.5, y + 3.5))
    }
}
/// v = 0: random modules of any size; otherwise a symbol of that version
#[cfg(any(hook_fit, hook_locate, hook_search, hook_measure, hook_read, hook_group))]
fn scene(r: &mut Rng, v: usize, strong: bool) -> Scene {
    let (size, sym) = if v == 0 {
        (17, None)
    } else {
        let l = r.below(4);
        let d = r.bytes(qr::data_len(v, l));
        let m = r.below(8);
        (qr::size(v), Some(qr::encode(v, l, m, &d)))
    };
    let m = if size > 100 { 1.2 + r.below(150) as f64 / 100.0 } else { 1.5 + r.below(450) as f64 / 100.0 };
    let n = size as f64;
    let t = r.below(6283) as f64 / 1000.0;
    let bend = if strong { 40 } else { 12 };
    let (g, hh) = (r.range(-bend, bend) as f64 / 100.0 / n, r.range(-bend, bend) as f64 / 100.0 / n);
    let (a, b) = (m * (1.0 + r.range(-20, 20) as f64 / 100.0), m * r.range(-20, 20) as f64 / 100.0);
    // about the origin of the modules
    let (sin, cos) = t.sin_cos();
    let mut c = [a * cos, b * cos - m * sin, 0.0, a * sin, b * sin + m * cos, 0.0, g, hh];
    let mut s = Scene { w: 0, h: 0, p: vec![], size, c };
    let q: Vec<(f64, f64)> = [(0.0, 0.0), (n, 0.0), (n, n), (0.0, n)].iter().map(|(x, y)| s.at(*x, *y)).collect();
    let lo = (q.iter().map(|p| p.0).fold(f64::MAX, f64::min), q.iter().map(|p| p.1).fold(f64::MAX, f64::min));
    let hi = (q.iter().map(|p| p.0).fold(f64::MIN, f64::max), q.iter().map(|p| p.1).fold(f64::MIN, f64::max));
    // margin, or cut off
    let e = if r.chance(1, 4) { r.range(-3, 0) as f64 * m } else { m * r.below(4) as f64 };
    let (sx, sy) = (e - lo.0 + r.below(1000) as f64 / 1000.0, e - lo.1 + r.below(1000) as f64 / 1000.0);
    for (k, sh) in [(0, sx), (3, sy)] {
        c[k] += sh * g;
        c[k + 1] += sh * hh;
        c[k + 2] += sh;
    }
    s.c = c;
    s.w = ((hi.0 - lo.0 + 2.0 * e) as usize + 1).max(4);
    s.h = ((hi.1 - lo.1 + 2.0 * e) as usize + 1).max(4);
    let den = c[0] * c[4] - c[1] * c[3] + (c[3] * c[7] - c[4] * c[6]) * 0.0;
    if den.abs() < 1e-9 {
        s.p = vec![0; s.w * s.h];
        return s;
    }
    // inverse map
    let inv = |x: f64, y: f64| {
        let (a1, b1, e1) = (c[0] - x * c[6], c[1] - x * c[7], x - c[2]);
        let (a2, b2, e2) = (c[3] - y * c[6], c[4] - y * c[7], y - c[5]);
        let d = a1 * b2 - a2 * b1;
        ((e1 * b2 - e2 * b1) / d, (a1 * e2 - a2 * e1) / d)
    };
    let noise = r.pick(&[0, 0, 0, 1, 5, 20]);
    let back = r.chance(1, 8);
    let mut p = vec![0u8; s.w * s.h];
    for y in 0..s.h {
        for x in 0..s.w {
            let (u, v) = inv(x as f64, y as f64);
            let dark = if u >= 0.0 && v >= 0.0 && u < n && v < n {
                match &sym {
                    Some(q) => q.get(v as usize, u as usize),
                    None => (u as usize * 7 + v as usize * 5 + u as usize * v as usize) % 3 == 0,
                }
            } else {
                back && r.chance(1, 3)
            };
            p[y * s.w + x] = (dark != (noise > 0 && r.chance(noise, 200))) as u8;
        }
    }
    s.p = p;
    s
}
#[cfg(any(hook_fit, hook_locate, hook_search, hook_measure, hook_read, hook_group))]
fn version(r: &mut Rng, i: u64) -> usize {
    if i % 4 == 0 { 1 + (i / 4) as usize % 40 } else { r.pick(&[1, 2, 3, 5, 6, 7, 8, 13, 14, 21]) }
}
#[cfg(all(hook_persp, any(hook_fit, hook_jiggle, hook_setup, hook_locate)))]
fn ref_score(w: usize, h: usize, p: &[u8], c: [f64; 8], size: usize) -> Result<i64, String> {
    let mut bad = None;
    let mut cell = |x: i64, y: i64| {
        let mut s = 0;
        for v in [0.3, 0.5, 0.7] {
            for u in [0.3, 0.5, 0.7] {
                match guard(|| rqrr::verif::geometry::map(c, x as f64 + u, y as f64 + v)) {
                    Ok((x, y)) if x >= 0 && y >= 0 && (x as usize) < w && (y as usize) < h => s += if p[y as usize * w + x as usize] != 0 { 1 } else { -1 },
                    Ok(_) => (),
                    Err(e) => bad = Some(e),
                }
            }
        }
        s
    };
    let n = size as i64;
    let mut s = 0;
    for k in 7..n - 7 {
        let t = cell(k, 6) + cell(6, k);
        s += if k % 2 == 0 { t } else { -t };
    }
    let mut square = |cx: i64, cy: i64, r: i64, light: i64| {
        let mut s = 0;
        for y in -r..=r {
            for x in -r..=r {
                let t = cell(cx + x, cy + y);
                s += if x.abs().max(y.abs()) == light { -t } else { t };
            }
        }
        s
    };
    for (x, y) in [(3, 3), (n - 4, 3), (3, n - 4)] {
        s += square(x, y, 3, 2);
    }
    let v = (size - 17) / 4;
    if v >= 2 {
        let a = qr::align(v);
        let l = a.len() - 1;
        for i in 0..=l {
            for j in 0..=l {
                if (i, j) != (0, 0) && (i, j) != (0, l) && (i, j) != (l, 0) {
                    s += square(a[i] as i64, a[j] as i64, 2, 1);
                }
            }
        }
    }
    match bad {
        None => Ok(s),
        Some(e) => Err(e),
    }
}
/// the denominator stays away from 0 on the whole symbol, also after an adjustment by 5 percent
#[cfg(any(hook_fit, hook_jiggle, hook_setup, hook_locate))]
fn tame(c: [f64; 8], size: usize) -> bool {
    let n = size as f64 + 1.0;
    c.iter().all(|x| x.is_finite() && x.abs() < 1e6) && 1.0 - 1.05 * n * ((-c[6]).max(0.0) + (-c[7]).max(0.0)) > 0.02
}
#[cfg(any(hook_jiggle, hook_setup, hook_locate))]
fn nearby(a: &[f64; 8], b: &[f64; 8]) -> bool {
    (0..8).all(|k| (a[k] - b[k]).abs() <= 0.04 * a[k].abs() + 1e-12)
}
#[cfg(any(hook_fit, hook_jiggle))]
fn shaken(r: &mut Rng, c: [f64; 8]) -> [f64; 8] {
    let e = r.pick(&[0, 10, 300, 3000]);
    c.map(|x| x * (1.0 + (r.range(-e, e) as f64 + 0.31) / 1e5))
}
#[cfg(all(hook_image, hook_persp, hook_fit))]
fn c23_score(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{grid, prepare::VImg};
    let (v, strong) = (version(r, i), r.chance(1, 2));
    let mut s = scene(r, v, strong);
    if r.chance(1, 4) {
        for c in s.p.iter_mut() {
            if *c == 1 && r.chance(1, 3) {
                *c = r.pick(&[2, 3, 4, 5, 255]);
            }
        }
    }
    let size = if r.chance(1, 6) { qr::size(r.below(41)) } else { s.size };
    let c = shaken(r, s.c);
    if !tame(c, size) {
        return Ok(None);
    }
    let want = ref_score(s.w, s.h, &s.p, c, size)?;
    let img = guard(|| VImg::new(s.w, s.h, s.p.clone()))?;
    let what = || format!("{}x{} image {} size {size} perspective {c:?}", s.w, s.h, show(&s.p));
    let got = guard(|| grid::fitness(&img, c, size)).map_err(|e| format!("score of {}: {e}", what()))?;
    if got as i64 != want {
        return Err(format!("score of {}: {got}, the function patterns give {want}", what()));
    }
    Ok(Some(fp(&(&s.p, size))))
}
#[cfg(all(hook_image, hook_persp, hook_jiggle))]
fn c23_jiggle(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{grid, prepare::VImg};
    let v = version(r, i);
    let s = scene(r, v, false);
    let size = if r.chance(1, 10) { qr::size(r.below(41)) } else { s.size };
    let c = shaken(r, s.c);
    if !tame(c, size) {
        return Ok(None);
    }
    let img = guard(|| VImg::new(s.w, s.h, s.p.clone()))?;
    let what = || format!("{}x{} image {} size {size} perspective {c:?}", s.w, s.h, show(&s.p));
    let got = guard(|| grid::jiggle(&img, c, size)).map_err(|e| format!("refining {}: {e}", what()))?;
    let (a, b) = (ref_score(s.w, s.h, &s.p, c, size)?, ref_score(s.w, s.h, &s.p, got, size)?);
    if b < a {
        return Err(format!("refining {}: {got:?} has the score {b}, before it was {a}", what()));
    }
    if !nearby(&c, &got) {
        return Err(format!("refining {}: {got:?} is more than 4 percent away", what()));
    }
    Ok(if got != c { Some(fp(&(&s.p, size))) } else { None })
}
#[cfg(all(hook_image, hook_persp, hook_setup))]
fn c23_setup(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{geometry, grid, prepare::VImg};
    let v = version(r, i);
    let s = scene(r, v, false);
    let e = r.pick(&[0, 1, 2, 40]);
    let mut f = [0, 1, 2].map(|k| s.finder(k));
    for q in f.iter_mut().flat_map(|q| q.0.iter_mut()) {
        q.0 += r.range(-e, e) as i32;
        q.1 += r.range(-e, e) as i32;
    }
    let n = s.size as f64;
    let mut al = s.point(n - 7.0, n - 7.0);
    al.0 += r.range(-e, e) as i32;
    al.1 += r.range(-e, e) as i32;
    let want = guard(|| geometry::create([f[1].0[0], f[2].0[0], al, f[0].0[0]], n - 7.0, n - 7.0))?;
    if want.is_some_and(|c| !tame(c, s.size)) {
        return Ok(None);
    }
    let img = guard(|| VImg::new(s.w, s.h, s.p.clone()))?;
    let what = || format!("{}x{} image {} size {} finders {f:?} fourth corner {al:?}", s.w, s.h, show(&s.p), s.size);
    let Some(got) = guard(|| grid::setup(&img, f, al, s.size)).map_err(|e| format!("perspective of {}: {e}", what()))? else { return Ok(None) };
    fits(&s.p, s.w, s.h, want, got, s.size).map_err(|e| format!("perspective of {}: {e}", what()))?;
    Ok(if got.is_some() { Some(fp(&(&s.p, s.size))) } else { None })
}
/// the answer is none exactly without a perspective through the corners, and otherwise near to that and not worse
#[cfg(all(hook_persp, any(hook_setup, hook_locate)))]
fn fits(p: &[u8], w: usize, h: usize, want: Option<[f64; 8]>, got: Option<[f64; 8]>, size: usize) -> Result<(), String> {
    match (want, got) {
        (None, None) => Ok(()),
        (Some(c), Some(g)) => {
            if !nearby(&c, &g) {
                return Err(format!("{g:?} is more than 4 percent away from {c:?}"));
            }
            let (a, b) = (ref_score(w, h, p, c, size)?, ref_score(w, h, p, g, size)?);
            if b < a {
                return Err(format!("{g:?} has the score {b}, the perspective through the corners {c:?} has {a}"));
            }
            Ok(())
        }
        _ => Err(format!("{got:?}, the perspective through the corners is {want:?}")),
    }
}

type Fin = ([(i32, i32); 4], (i32, i32));
/// partners of finder i with their unevenness, most even first; Err(()): too close to a limit to tell
#[cfg(all(hook_persp, hook_group))]
fn ref_partners(f: &[Fin], i: usize) -> Result<Vec<((usize, usize), f64)>, ()> {
    use rqrr::verif::geometry;
    let q = f[i].0;
    let m = (q[1].0 - q[0].0) / 7;
    let exact = [1, 2, 4, 8].contains(&m) && q[1] == (q[0].0 + 7 * m, q[0].1) && q[2] == (q[0].0 + 7 * m, q[0].1 + 7 * m) && q[3] == (q[0].0, q[0].1 + 7 * m);
    let Ok(Some(c)) = guard(|| geometry::create(q, 7.0, 7.0)) else { return Err(()) };
    let mut unsure = false;
    let mut less = |a: f64, b: f64| {
        unsure |= !exact && (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) || !a.is_finite() || !b.is_finite();
        a < b
    };
    let (mut over, mut beside) = (vec![], vec![]);
    for j in 0..f.len() {
        if j == i {
            continue;
        }
        let p = f[j].1;
        let (u, v) = if exact { ((p.0 - q[0].0) as f64 / m as f64, (p.1 - q[0].1) as f64 / m as f64) } else { geometry::unmap(c, p.0, p.1) };
        let (a, b) = ((u - 3.5).abs(), (v - 3.5).abs());
        if less(5.0 * a, b) {
            over.push((j, b));
        }
        if less(5.0 * b, a) {
            beside.push((j, a));
        }
    }
    let mut all = vec![];
    for (h, a) in &over {
        for (v, b) in &beside {
            let (lo, hi) = (a.min(*b), a.max(*b));
            if less(4.0 * (hi - lo), hi) {
                all.push(((*h, *v), (hi - lo) / hi));
            }
        }
    }
    if unsure {
        return Err(());
    }
    all.sort_by(|a, b| a.1.total_cmp(&b.1));
    Ok(all)
}
/// finders on a skewed lattice
#[cfg(hook_group)]
fn lattice(r: &mut Rng) -> Vec<Fin> {
    let exact = r.chance(1, 3);
    let m = if exact { r.pick(&[1.0, 2.0, 4.0]) } else { 1.5 + r.below(600) as f64 / 100.0 };
    let t: f64 = if exact { 0.0 } else { r.below(6283) as f64 / 1000.0 };
    let crowd = r.chance(1, 25);
    let (n, side) = if crowd || r.chance(1, 12) { (11 + r.below(30), 7) } else { (2 + r.below(9), 4) };
    let d = (7 + r.below(30)) as f64;
    let e = r.pick(&[0, 1, 3, 9]);
    let mut f: Vec<Fin> = vec![];
    for _ in 0..n {
        let (i, j) = (r.below(side) as f64, r.below(side) as f64);
        let (mut u, mut v) = (i * d + r.range(-e, e) as f64, j * d + r.range(-e, e) as f64);
        if crowd {
            // many partners of the first one
            (u, v) = (r.range(-3, 4) as f64, if r.chance(1, 2) { 1.0 } else { -1.0 } * (40.0 + r.range(-6, 6) as f64));
            if f.is_empty() {
                (u, v) = (0.0, 0.0);
            } else if r.chance(1, 2) {
                (u, v) = (v, u);
            }
        }
        let tt = if exact { 0.0 } else { t + r.range(-20, 20) as f64 / 100.0 };
        let (s, c) = t.sin_cos();
        let (o, p) = (3000.0 + m * (u * c - v * s), 3000.0 + m * (u * s + v * c));
        let (s, c) = tt.sin_cos();
        let g = if exact { 0.0 } else { r.range(-15, 15) as f64 / 1000.0 };
        let mut at = |a: f64, b: f64| {
            let k = m / (1.0 + g * a);
            ((o + k * (a * c - b * s)).round() as i32, (p + k * (a * s + b * c)).round() as i32)
        };
        let mut q = [(-3.5, -3.5), (3.5, -3.5), (3.5, 3.5), (-3.5, 3.5)].map(|(a, b)| at(a, b));
        let mid = at(0.0, 0.0);
        if !exact || r.chance(1, 8) {
            q.rotate_left(r.below(4));
        }
        f.push((q, mid));
    }
    f
}
#[cfg(all(hook_image, hook_region, hook_persp, hook_group))]
fn c24_partners(r: &mut Rng, _: u64) -> Case {
    let f = lattice(r);
    let i = if r.chance(1, 3) { 0 } else { r.below(f.len()) };
    let Ok(want) = ref_partners(&f, i) else { return Ok(None) };
    let what = || format!("partners of finder {i} of {f:?}");
    let Some(got) = guard(|| rqrr::verif::prepare::neighbors(&f, i)).map_err(|e| format!("{}: {e}", what()))? else { return Ok(None) };
    let (mut a, mut b): (Vec<_>, Vec<_>) = (got.clone(), want.iter().map(|w| w.0).collect());
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("{}: {got:?}, they are {want:?}", what()));
    }
    let s: Vec<f64> = got.iter().map(|g| want.iter().find(|w| w.0 == *g).unwrap().1).collect();
    if s.windows(2).any(|w| w[0] > w[1] + 1e-9) {
        return Err(format!("{}: {got:?} in this order, by evenness {want:?}", what()));
    }
    Ok(if want.is_empty() { None } else { Some(fp(&f)) })
}
/// symbols next to each other: width, height, pixels, finders of each
#[cfg(hook_group)]
fn tiles(r: &mut Rng, i: u64) -> (usize, usize, Vec<u8>, Vec<[Fin; 3]>) {
    let n = 1 + r.below(3);
    let row = r.chance(1, 2);
    let all: Vec<Scene> = (0..n).map(|k| {
        let v = if k == 0 && r.chance(1, 2) { version(r, i) } else { r.pick(&[1, 1, 2, 3, 5, 7]) };
        scene(r, v, false)
    }).collect();
    let gap = r.below(6);
    let (mut w, mut h) = (0, 0);
    for s in &all {
        if row {
            w += s.w + gap;
            h = h.max(s.h);
        } else {
            h += s.h + gap;
            w = w.max(s.w);
        }
    }
    let mut p = vec![0; w * h];
    let (mut x, mut y) = (0, 0);
    let mut f = vec![];
    for s in &all {
        for k in 0..s.p.len() {
            p[(y + k / s.w) * w + x + k % s.w] = s.p[k];
        }
        let by = |q: (i32, i32)| (q.0 + x as i32, q.1 + y as i32);
        f.push([0, 1, 2].map(|k| {
            let (q, m) = s.finder(k);
            (q.map(by), by(m))
        }));
        if row { x += s.w + gap } else { y += s.h + gap }
    }
    (w, h, p, f)
}
#[cfg(all(hook_image, hook_region, hook_persp, hook_locate, hook_group))]
fn ref_groups(img: &rqrr::verif::prepare::VImg, f: &[Fin]) -> Result<Vec<[Fin; 3]>, ()> {
    let mut used = vec![false; f.len()];
    let mut out = vec![];
    for i in 0..f.len() {
        if used[i] {
            continue;
        }
        let ps = ref_partners(f, i)?;
        if ps.windows(2).any(|w| w[1].1 - w[0].1 < 1e-9) {
            return Err(());
        }
        for ((h, v), _) in ps {
            if used[h] || used[v] {
                continue;
            }
            let g = [f[h], f[i], f[v]];
            let mut copy = img.clone();
            match guard(|| rqrr::verif::grid::locate(&mut copy, g)) {
                Ok(Some(Some(_))) => {
                    out.push(g);
                    for k in [h, i, v] {
                        used[k] = true;
                    }
                }
                Ok(Some(None)) => (),
                _ => return Err(()),
            }
        }
    }
    Ok(out)
}
#[cfg(all(hook_image, hook_region, hook_persp, hook_locate, hook_group))]
fn c24_groups(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::prepare::{self, VImg};
    let (w, h, mut p, sym) = tiles(r, i);
    let mut f: Vec<Fin> = sym.concat();
    let rings: Vec<(i32, i32)> = if r.chance(3, 4) { f.iter().map(|q| ((q.0[0].0 * 13 + q.0[2].0) / 14, (q.0[0].1 * 13 + q.0[2].1) / 14)).collect() } else { vec![] };
    claimed(r, w, h, &mut p, &rings);
    // decoys near the symbols, in line with their finders or anywhere
    for _ in 0..r.pick(&[0, 0, 1, 2, 4]) {
        let mut q = r.pick(&f);
        let g = r.pick(&sym);
        let (a, b) = (r.below(3), r.below(3));
        let e = r.pick(&[0, 2, 30]);
        let k = r.pick(&[1, 1, 2]);
        let d = (k * (g[a].1 .0 - g[b].1 .0) + r.range(-e, e) as i32, k * (g[a].1 .1 - g[b].1 .1) + r.range(-e, e) as i32);
        for c in q.0.iter_mut() {
            *c = (c.0 + d.0, c.1 + d.1);
        }
        q.1 = (q.1 .0 + d.0, q.1 .1 + d.1);
        f.push(q);
    }
    for k in (1..f.len()).rev() {
        f.swap(k, r.below(k + 1));
    }
    for q in f.iter_mut() {
        q.0.rotate_left(r.below(4));
    }
    if r.chance(1, 5) {
        let k = r.below(f.len());
        f.remove(k);
    }
    if f.iter().any(|q| q.1 .0 < 0 || q.1 .1 < 0 || q.1 .0 > 8192 || q.1 .1 > 8192 || q.0.iter().any(|c| c.0.abs() > 8192 || c.1.abs() > 8192)) {
        return Ok(None);
    }
    let mut img = guard(|| VImg::new(w, h, p.clone()))?;
    if r.chance(1, 3) {
        for _ in 0..r.below(60) {
            let k = r.below(p.len());
            if p[k] == 1 {
                guard(|| img.get_region(k % w, k / w))?;
            }
        }
    }
    let before: Vec<u8> = (0..w * h).map(|k| img.pixel(k % w, k / w)).collect();
    let Ok(want) = ref_groups(&img, &f) else { return Ok(None) };
    let what = || format!("groups of {w}x{h} image {} with finders {f:?}", show(&p));
    let Some(got) = guard(|| prepare::groups(&mut img, &f)).map_err(|e| format!("{}: {e}", what()))? else { return Ok(None) };
    if got != want {
        return Err(format!("{}: {got:?}, expected {want:?}", what()));
    }
    if let Some(k) = (0..w * h).find(|k| img.pixel(k % w, k / w) != before[*k]) {
        return Err(format!("{}: pixel ({}, {}) of the image is {} afterwards, it was {}", what(), k % w, k / w, img.pixel(k % w, k / w), before[k]));
    }
    Ok(if want.is_empty() { None } else { Some(fp(&(&p, &f))) })
}
#[cfg(all(hook_image, hook_region, hook_persp, hook_finder, hook_locate, hook_group))]
fn c25_detect(r: &mut Rng, i: u64) -> Case {
    let (w, h, p, _) = tiles(r, i);
    detect(w, h, p.iter().map(|c| (*c != 0) as u8).collect())
}
/// two symbols with one alignment pattern in common, which only one of them can have, and others beside
#[cfg(all(hook_image, hook_region, hook_persp, hook_finder, hook_locate, hook_group))]
fn c25_shared(r: &mut Rng, _: u64) -> Case {
    let sym = |r: &mut Rng, v: usize| {
        let l = r.below(4);
        let d = r.bytes(qr::data_len(v, l));
        qr::encode(v, l, r.below(8), &d)
    };
    let v = 2 + r.below(4);
    let (a, b) = (sym(r, v), sym(r, v));
    let n = qr::size(v);
    let mut all: Vec<(usize, Vec<bool>)> = vec![];
    let t = 2 * n - 13;
    let mut p = vec![false; t * t];
    for y in 0..n {
        for x in 0..n {
            p[(t - 1 - y) * t + t - 1 - x] = b.get(y, x);
        }
    }
    for y in 0..n {
        for x in 0..n {
            p[y * t + x] = a.get(y, x);
        }
    }
    all.push((t, p));
    for _ in 0..1 + r.below(2) {
        let v = 1 + r.below(4);
        let (q, n) = (sym(r, v), qr::size(v));
        let p = (0..n * n).map(|k| q.get(k / n, k % n)).collect();
        all.insert(r.below(all.len() + 1), (n, p));
    }
    let row = r.chance(1, 4);
    let (m, gap) = (2 + r.below(4), 4 + r.below(3));
    let sum: usize = all.iter().map(|s| s.0 + gap).sum();
    let max = all.iter().map(|s| s.0 + gap).max().unwrap();
    let (w, h) = if row { (m * (sum + gap), m * (max + gap)) } else { (m * (max + gap), m * (sum + gap)) };
    let mut img = vec![0u8; w * h];
    let mut at = gap;
    for (n, p) in &all {
        for k in 0..n * n * m * m {
            let (y, x) = (k / (n * m), k % (n * m));
            let (oy, ox) = if row { (gap * m, at * m) } else { (at * m, gap * m) };
            img[(oy + y) * w + ox + x] = p[y / m * n + x / m] as u8;
        }
        at += n + gap;
    }
    detect(w, h, img)
}
#[cfg(all(hook_image, hook_region, hook_persp, hook_finder, hook_locate, hook_group))]
fn detect(w: usize, h: usize, p: Vec<u8>) -> Case {
    use rqrr::verif::{detect, geometry, grid, prepare::{self, VImg}};
    let mut img = guard(|| VImg::new(w, h, p.clone()))?;
    let mut step = img.clone();
    let Ok(f) = guard(|| detect::finders(&mut step)) else { return Ok(None) };
    let Ok(Some(gs)) = guard(|| prepare::groups(&mut step, &f)) else { return Ok(None) };
    let mut want = vec![];
    for g in &gs {
        let Ok(Some(l)) = guard(|| grid::locate(&mut step, *g)) else { return Ok(None) };
        if let Some(l) = l {
            want.push(l);
        }
    }
    let what = || format!("grids of {w}x{h} image {}", show(&p));
    let got = guard(|| prepare::detect(&mut img)).map_err(|e| format!("{}: {e}", what()))?;
    if got.len() != want.len() {
        return Err(format!("{}: {} grids, {} groups can be located", what(), got.len(), want.len()));
    }
    for (k, ((n, c), g)) in want.iter().zip(&got).enumerate() {
        let e = *n as f64 + 1.0;
        let Ok(b) = guard(|| [(0.0, 0.0), (e, 0.0), (e, e), (0.0, e)].map(|(u, v)| geometry::map(*c, u, v))) else { return Ok(None) };
        if g.0 != *n {
            return Err(format!("{}: grid {k} has the size {}, located with size {n}", what(), g.0));
        }
        if g.1 != b {
            return Err(format!("{}: grid {k} has the bounds {:?}, by its perspective {b:?}", what(), g.1));
        }
        for m in 0..n * n {
            let Ok((x, y)) = guard(|| geometry::map(*c, (m % n) as f64 + 0.5, (m / n) as f64 + 0.5)) else { return Ok(None) };
            let (x, y) = (x.clamp(0, w as i32 - 1) as usize, y.clamp(0, h as i32 - 1) as usize);
            if g.2[m] != (p[y * w + x] != 0) {
                return Err(format!("{}: grid {k} has module ({}, {}) {}, the pixel there is {}", what(), m / n, m % n, g.2[m], p[y * w + x]));
            }
        }
    }
    Ok(if got.is_empty() { None } else { Some(fp(&(&p, w))) })
}
#[cfg(all(hook_image, hook_persp, hook_read))]
fn c22_read(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{geometry, grid, prepare::VImg};
    let (v, strong) = (version(r, i), r.chance(1, 2));
    let mut s = scene(r, v, strong);
    for c in s.p.iter_mut() {
        if *c == 1 && r.chance(1, 3) {
            *c = r.pick(&[2, 3, 4, 5, 255]);
        }
    }
    let n = if r.chance(1, 4) { r.below(60) } else { s.size };
    let img = guard(|| VImg::new(s.w, s.h, s.p.clone()))?;
    let mut want = vec![];
    for k in 0..n * n {
        let Ok((x, y)) = guard(|| geometry::map(s.c, (k % n) as f64 + 0.5, (k / n) as f64 + 0.5)) else { return Ok(None) };
        want.push(s.p[y.clamp(0, s.h as i32 - 1) as usize * s.w + x.clamp(0, s.w as i32 - 1) as usize] != 0);
    }
    let what = || format!("{}x{} image {} size {n} perspective {:?}", s.w, s.h, show(&s.p), s.c);
    let got = guard(|| grid::read(&img, s.c, n)).map_err(|e| format!("reading {}: {e}", what()))?;
    if got.0 != n {
        return Err(format!("reading {}: size {}", what(), got.0));
    }
    if let Some(k) = (0..n * n).find(|k| got.1[*k] != want[*k]) {
        return Err(format!("reading {}: module ({}, {}) is {}", what(), k / n, k % n, got.1[k]));
    }
    Ok(if n > 0 { Some(fp(&(&s.p, n))) } else { None })
}
#[cfg(any(hook_measure, hook_locate))]
fn close(p: (i32, i32)) -> bool {
    p.0.abs() <= 8192 && p.1.abs() <= 8192
}
/// grid size by the timing patterns; Err(()): points not determined
#[cfg(all(hook_geo, hook_persp, any(hook_measure, hook_locate)))]
fn ref_measure(w: usize, h: usize, p: &[u8], f: &[[(i32, i32); 4]; 3]) -> Result<Option<usize>, ()> {
    use rqrr::verif::geometry;
    let mut t = [(0, 0); 3];
    for (k, (u, v)) in [(6.5, 0.5), (6.5, 6.5), (0.5, 6.5)].into_iter().enumerate() {
        let Ok(Some(c)) = guard(|| geometry::create(f[k], 7.0, 7.0)) else { return Err(()) };
        let Ok(q) = guard(|| geometry::map(c, u, v)) else { return Err(()) };
        if !close(q) {
            return Err(());
        }
        t[k] = q;
    }
    let mut n = 0;
    for e in [0, 2] {
        let col: Vec<u8> = line_points(t[1], t[e]).map_err(|_| ())?.iter().map(|(x, y)| p[(*y).clamp(0, h as i32 - 1) as usize * w + (*x).clamp(0, w as i32 - 1) as usize]).collect();
        n = n.max(col.windows(2).filter(|c| c[0] != c[1]).count());
    }
    Ok(if n == 0 { None } else { Some(17 + n.saturating_sub(2) / 4 * 4) })
}
#[cfg(all(hook_image, hook_geo, hook_persp, hook_measure))]
fn c22_measure(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{grid, prepare::VImg};
    let (v, strong) = (version(r, i), r.chance(1, 2));
    let mut s = scene(r, v, strong);
    let e = r.pick(&[0, 0, 1, 3]);
    let mut f = [0, 1, 2].map(|k| s.finder(k).0);
    for q in f.iter_mut().flat_map(|q| q.iter_mut()) {
        q.0 += r.range(-e, e) as i32;
        q.1 += r.range(-e, e) as i32;
    }
    if r.chance(1, 6) {
        s.p.iter_mut().for_each(|c| *c = 0);
        for _ in 0..r.below(200) {
            let k = r.below(s.p.len());
            s.p[k] = 1;
        }
    }
    if r.chance(1, 8) {
        // one or two changes of colour on the way
        let (a, b) = (r.range(-3, 3), r.range(-3, 3));
        let (x, y, d) = (r.below(s.w) as i64, r.below(s.h) as i64, if r.chance(1, 2) { i64::MAX } else { 1 + r.below(200) as i64 });
        for k in 0..s.p.len() {
            let t = ((k % s.w) as i64 - x) * a as i64 + ((k / s.w) as i64 - y) * b as i64;
            s.p[k] = (t >= 0 && t < d) as u8;
        }
    }
    let Ok(want) = ref_measure(s.w, s.h, &s.p, &f) else { return Ok(None) };
    let img = guard(|| VImg::new(s.w, s.h, s.p.clone()))?;
    let what = || format!("{}x{} image {} finders {f:?}", s.w, s.h, show(&s.p));
    let Some(got) = guard(|| grid::measure(&img, f)).map_err(|e| format!("size of {}: {e}", what()))? else { return Ok(None) };
    if got != want {
        return Err(format!("size of {}: {got:?}, by the timing patterns it is {want:?}", what()));
    }
    Ok(if got.is_some() { Some(fp(&(&s.p, f))) } else { None })
}
/// corners from the one farthest to the left of the line on
#[cfg(any(hook_rotate, hook_locate))]
fn ref_turn(q: [(i32, i32); 4], h: (i32, i32), d: (i32, i32)) -> [(i32, i32); 4] {
    let key = |k: usize| (q[k].0 as i64 - h.0 as i64) * -(d.1 as i64) + (q[k].1 as i64 - h.1 as i64) * d.0 as i64;
    let b = (0..4).min_by_key(|k| (key(*k), *k)).unwrap();
    [0, 1, 2, 3].map(|k| q[(b + k) % 4])
}
#[cfg(all(hook_persp, hook_rotate))]
fn c22_rotate(r: &mut Rng, _: u64) -> Case {
    let lim = r.pick(&[3, 20, 300, 8192]);
    let pt = |r: &mut Rng| (r.range(-lim, lim) as i32, r.range(-lim, lim) as i32);
    let (h, d) = (pt(r), pt(r));
    let mut q = [0; 4].map(|_| pt(r));
    if r.chance(2, 3) {
        let (o, a, b) = (pt(r), pt(r), pt(r));
        let g = |k: i32, l: i32| ((o.0 + k * a.0 + l * b.0).clamp(-8192, 8192), (o.1 + k * a.1 + l * b.1).clamp(-8192, 8192));
        q = [g(0, 0), g(1, 0), g(1, 1), g(0, 1)];
    }
    let t = ref_turn(q, h, d);
    let want = guard(|| rqrr::verif::geometry::create(t, 7.0, 7.0))?.map(|c| (t, c));
    let Some(got) = guard(|| rqrr::verif::grid::rotate(q, h, d)).map_err(|e| format!("turning {q:?} to the left of {h:?} along {d:?} {e}"))? else { return Ok(None) };
    if got != want {
        return Err(format!("turning {q:?} to the left of {h:?} along {d:?}: {got:?}, expected {want:?}"));
    }
    Ok(if q != t { Some(fp(&(q, h, d))) } else { None })
}
/// Err(()): estimate not determined
#[cfg(all(hook_persp, any(hook_search, hook_locate)))]
fn ref_search(w: usize, h: usize, p: &[u8], lab: &[usize], sizes: &[usize], seed: (i32, i32), f: &[[(i32, i32); 4]; 2]) -> Result<Option<(i32, i32)>, ()> {
    use rqrr::verif::geometry;
    let c = [0, 1].map(|k| guard(|| geometry::create(f[k], 7.0, 7.0)).ok().flatten());
    let (Some(a), Some(c)) = (c[0], c[1]) else { return Err(()) };
    let (u, v) = geometry::unmap(a, seed.0, seed.1);
    let Ok(a) = guard(|| geometry::map(a, u, v + 1.0)) else { return Err(()) };
    let (u, v) = geometry::unmap(c, seed.0, seed.1);
    let Ok(c) = guard(|| geometry::map(c, u + 1.0, v)) else { return Err(()) };
    let s = (seed.0 as i64, seed.1 as i64);
    let (ax, ay, cx, cy) = (a.0 as i64 - s.0, a.1 as i64 - s.1, c.0 as i64 - s.0, c.1 as i64 - s.1);
    if s.0.abs() > 8192 || s.1.abs() > 8192 || [ax, ay, cx, cy].iter().any(|x| x.abs() > 1000) {
        return Err(());
    }
    let est = (ay * cx - ax * cy).unsigned_abs() as usize;
    let (mut x, mut y) = s;
    let mut leg = 0;
    loop {
        let len = leg / 2 + 1;
        if len * len >= 100 * est {
            return Ok(None);
        }
        for _ in 0..len {
            if x >= 0 && y >= 0 && (x as usize) < w && (y as usize) < h {
                let k = y as usize * w + x as usize;
                if p[k] == 1 {
                    let n = sizes[lab[k]];
                    if n >= est / 2 && n <= est * 2 {
                        return Ok(Some((x as i32, y as i32)));
                    }
                } else if p[k] != 0 {
                    return Ok(None);
                }
            }
            let (dx, dy) = [(1, 0), (0, -1), (-1, 0), (0, 1)][leg % 4];
            x += dx;
            y += dy;
        }
        leg += 1;
    }
}
#[cfg(any(hook_search, hook_locate))]
fn regions(w: usize, h: usize, p: &[u8]) -> (Vec<usize>, Vec<usize>) {
    let lab = components(w, h, |a, b| p[a] == p[b], |k| p[k] != 0);
    let mut n = vec![0; w * h];
    lab.iter().filter(|l| **l != usize::MAX).for_each(|l| n[*l] += 1);
    (lab, n)
}
#[cfg(any(hook_search, hook_locate))]
fn claimed(r: &mut Rng, w: usize, h: usize, p: &mut [u8], at: &[(i32, i32)]) {
    let (lab, _) = regions(w, h, p);
    let mut new = vec![];
    for (x, y) in at {
        if *x >= 0 && *y >= 0 && (*x as usize) < w && (*y as usize) < h {
            new.push((lab[*y as usize * w + *x as usize], 2));
        }
    }
    if r.chance(1, 4) {
        for _ in 0..1 + r.below(8) {
            let k = r.below(w * h);
            new.push((lab[k], 2 + r.below(2) as u8));
        }
    }
    for (k, l) in lab.iter().enumerate() {
        if *l != usize::MAX {
            if let Some((_, c)) = new.iter().find(|(n, _)| n == l) {
                p[k] = *c;
            }
        }
    }
}
#[cfg(all(hook_image, hook_region, hook_persp, hook_search))]
fn c22_search(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{grid, prepare::VImg};
    let v = version(r, i);
    let mut s = scene(r, v.max(2), false);
    let f = [0, 2].map(|k| s.finder(k).0);
    let n = s.size as f64;
    let e = r.pick(&[0, 3, 20]);
    let q = if r.chance(3, 4) { (n - 7.0, n - 7.0) } else { (r.below(s.size) as f64, r.below(s.size) as f64) };
    let mut seed = s.point(q.0, q.1);
    seed.0 += r.range(-e, e) as i32;
    seed.1 += r.range(-e, e) as i32;
    let near: Vec<(i32, i32)> = if r.chance(1, 2) { (0..4).map(|_| (seed.0 + r.range(-5, 5) as i32, seed.1 + r.range(-5, 5) as i32)).collect() } else { vec![] };
    claimed(r, s.w, s.h, &mut s.p, &near);
    let (lab, sizes) = regions(s.w, s.h, &s.p);
    let Ok(want) = ref_search(s.w, s.h, &s.p, &lab, &sizes, seed, &f) else { return Ok(None) };
    let mut img = guard(|| VImg::new(s.w, s.h, s.p.clone()))?;
    let asks: Vec<usize> = if r.chance(1, 3) { (0..r.below(60)).map(|_| r.below(s.p.len())).filter(|k| s.p[*k] == 1).collect() } else { vec![] };
    for k in &asks {
        guard(|| img.get_region(k % s.w, k / s.w))?;
    }
    let what = || format!("{}x{} image {} finders {f:?} from {seed:?}, queried {asks:?}", s.w, s.h, show(&s.p));
    let Some(got) = guard(|| grid::search(&mut img, seed, f)).map_err(|e| format!("alignment pattern of {}: {e}", what()))? else { return Ok(None) };
    if got != want {
        return Err(format!("alignment pattern of {}: {got:?}, the first fitting region is at {want:?}", what()));
    }
    for k in 0..s.p.len() {
        let g = img.pixel(k % s.w, k / s.w);
        if !(g == s.p[k] || s.p[k] == 1 && g >= 5) {
            return Err(format!("alignment pattern of {}: pixel ({}, {}) is {g} afterwards", what(), k % s.w, k / s.w));
        }
    }
    Ok(if want.is_some() { Some(fp(&(&s.p, seed))) } else { None })
}
/// modules of more pixels than fit into 16 bits
#[cfg(all(hook_image, hook_region, hook_persp, hook_search))]
fn c22_large(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{grid, prepare::VImg};
    let (w, h) = (1500, 1500);
    let m = r.range(250, 420);
    let at = |x: i64, y: i64| [(x, y), (x + 7 * m, y), (x + 7 * m, y + 7 * m), (x, y + 7 * m)].map(|(x, y)| (x as i32, y as i32));
    let f = [at(r.range(-900, 900), r.range(-900, 900)), at(r.range(-900, 900), r.range(-900, 900))];
    let seed = (r.range(500, 1000) as i32, r.range(500, 1000) as i32);
    let mut p = vec![0u8; w * h];
    let share = [30, 49, 51, 60, 100, 190, 199, 201, 230][i as usize % 9] as f64 / 100.0;
    let a = (share.sqrt() * m as f64) as usize;
    let b = (share * (m * m) as f64 / a as f64).round() as usize;
    let (x0, y0) = ((seed.0 as i64 + r.range(-400, 100)).max(0) as usize, (seed.1 as i64 + r.range(-400, 100)).max(0) as usize);
    for y in y0..(y0 + b).min(h) {
        p[y * w + x0..y * w + (x0 + a).min(w)].fill(1);
    }
    let (lab, sizes) = regions(w, h, &p);
    let Ok(want) = ref_search(w, h, &p, &lab, &sizes, seed, &f) else { return Ok(None) };
    let mut img = guard(|| VImg::new(w, h, p.clone()))?;
    let what = || format!("alignment pattern of {w}x{h} image with one dark region {x0},{y0} to {},{} finders {f:?} from {seed:?}", (x0 + a).min(w), (y0 + b).min(h));
    let Some(got) = guard(|| grid::search(&mut img, seed, f)).map_err(|e| format!("{}: {e}", what()))? else { return Ok(None) };
    if got != want {
        return Err(format!("{}: {got:?}, the first fitting region is at {want:?}", what()));
    }
    Ok(if want.is_some() { Some(fp(&(&p, seed))) } else { None })
}
#[cfg(all(hook_image, hook_region, hook_geo, hook_persp, hook_locate))]
fn c22_locate(r: &mut Rng, i: u64) -> Case {
    use rqrr::verif::{geometry, grid, prepare::VImg};
    let (v, strong) = (version(r, i), r.chance(1, 4));
    let mut s = scene(r, v, strong);
    let n = s.size as f64;
    let e = r.pick(&[0, 0, 1, 2]);
    let mut f = [0, 1, 2].map(|k| s.finder(k));
    for q in f.iter_mut().flat_map(|q| q.0.iter_mut()) {
        q.0 += r.range(-e, e) as i32;
        q.1 += r.range(-e, e) as i32;
    }
    if r.chance(1, 20) {
        // parallel edges
        let d = (f[0].0[1].0 - f[0].0[0].0, f[0].0[1].1 - f[0].0[0].1);
        f[2].0[3] = (f[2].0[0].0 + d.0, f[2].0[0].1 + d.1);
    }
    // the rings claimed as after detection
    let mut rings: Vec<(i32, i32)> = if r.chance(3, 4) { [(0.5, 0.5), (n - 6.5, 0.5), (0.5, n - 6.5)].iter().map(|(u, v)| s.point(*u, *v)).collect() } else { vec![] };
    if r.chance(1, 5) {
        rings.push(s.point(n - 6.5, n - 6.5));
    }
    claimed(r, s.w, s.h, &mut s.p, &rings);
    // any order of the outer finders, any first corner
    if r.chance(1, 2) {
        f.swap(0, 2);
    }
    for q in f.iter_mut() {
        let k = r.below(4);
        q.0.rotate_left(k);
    }
    if f.iter().any(|q| q.1 .0 < 0 || q.1 .1 < 0 || !close(q.1) || q.0.iter().any(|c| !close(*c))) {
        return Ok(None);
    }
    let what = || format!("{}x{} image {} finders {f:?}", s.w, s.h, show(&s.p));
    // reference
    let m = f.map(|q| (q.1 .0 as i64, q.1 .1 as i64));
    let cross = (m[1].0 - m[0].0) * -(m[2].1 - m[0].1) + (m[1].1 - m[0].1) * (m[2].0 - m[0].0);
    let g = if cross > 0 { [f[2], f[1], f[0]] } else { f };
    let d = (g[2].1 .0 - g[0].1 .0, g[2].1 .1 - g[0].1 .1);
    let t = [0, 1, 2].map(|k| ref_turn(g[k].0, f[0].1, d));
    let (lab, sizes) = regions(s.w, s.h, &s.p);
    let mut claim = None;
    let mut answers: Vec<(usize, Option<[f64; 8]>)> = vec![];
    let mut bad = false;
    (|| {
        for q in t {
            match guard(|| geometry::create(q, 7.0, 7.0)) {
                Ok(Some(_)) => (),
                Ok(None) => return,
                Err(_) => {
                    bad = true;
                    return;
                }
            }
        }
        let Ok(size) = ref_measure(s.w, s.h, &s.p, &t) else {
            bad = true;
            return;
        };
        let Some(size) = size else { return };
        let Ok(Some(a)) = guard(|| geometry::line_intersect([t[0][0], t[0][1], t[2][0], t[2][3]])) else { return };
        let mut als = vec![a];
        if size > 21 {
            match ref_search(s.w, s.h, &s.p, &lab, &sizes, a, &[t[0], t[2]]) {
                Err(()) => bad = true,
                Ok(None) => return,
                Ok(Some(q)) => {
                    let c = lab[q.1 as usize * s.w + q.0 as usize];
                    claim = Some(c);
                    let left = |k: usize| (k % s.w) as i64 * -(d.1 as i64) + (k / s.w) as i64 * d.0 as i64;
                    let cells: Vec<usize> = (0..lab.len()).filter(|k| lab[*k] == c).collect();
                    let min = cells.iter().map(|k| left(*k)).min().unwrap();
                    als = cells.iter().filter(|k| left(**k) == min).map(|k| ((k % s.w) as i32, (k / s.w) as i32)).collect();
                }
            }
        } else if !close(a) {
            bad = true;
        }
        if bad || size > 177 {
            return;
        }
        for a in als {
            match guard(|| geometry::create([t[1][0], t[2][0], a, t[0][0]], size as f64 - 7.0, size as f64 - 7.0)) {
                Ok(c) => answers.push((size, c)),
                Err(_) => bad = true,
            }
        }
    })();
    if bad || answers.iter().any(|(n, c)| c.is_some_and(|c| !tame(c, *n))) {
        return Ok(None);
    }
    let mut img = guard(|| VImg::new(s.w, s.h, s.p.clone()))?;
    let Some(got) = guard(|| grid::locate(&mut img, f)).map_err(|e| format!("locating in {}: {e}", what()))? else { return Ok(None) };
    if answers.is_empty() {
        if got.is_some() {
            return Err(format!("locating in {}: {got:?}, there is no symbol by these finders", what()));
        }
    } else {
        let why: Vec<String> = answers
            .iter()
            .filter_map(|(n, c)| match got {
                Some((k, _)) if k != *n && c.is_some() => Some(format!("size {k} instead of {n}")),
                _ => fits(&s.p, s.w, s.h, *c, got.map(|g| g.1), *n).err(),
            })
            .collect();
        if why.len() == answers.len() {
            return Err(format!("locating in {}: {}", what(), why[0]));
        }
    }
    for k in 0..s.p.len() {
        let g = img.pixel(k % s.w, k / s.w);
        let ok = if claim.is_some() && Some(lab[k]) == claim { g == 3 } else { g == s.p[k] || s.p[k] == 1 && g >= 5 };
        if !ok {
            return Err(format!("locating in {}: pixel ({}, {}) is {g} afterwards", what(), k % s.w, k / s.w));
        }
    }
    Ok(if got.is_some() { Some(fp(&(&s.p, f))) } else { None })
}

pub fn gens(p: &str) -> Vec<Gen> {
    #[allow(unused_mut)]
    let mut g: Vec<Gen> = vec![];
    macro_rules! add {
        ($n:literal, $t:expr, $q:expr, $f:expr, $rule:literal) => {
            g.push(Gen { name: $n, rule: $rule, total: $t, quick: $q, run: $f })
        };
    }
    match p {
        "C01" => {
            add!("values", Some(11372), 0, c01_values, "every kanji code word, alphanumeric pair and single, digit group of each length");
            add!("segments", None, 12000, c01_segments, "random chains of segments (also cut off by the capacity) encoded into a symbol; non-trivial: outcome specified");
            add!("bits", None, 8000, c01_bits, "random data bits encoded into a symbol; non-trivial: outcome specified");
        }
        "C02" => {
            add!("words", Some(65536), 0, c02_words, "all 2^15 words in the first copy with an uncorrectable second one, and the other way round");
            add!("pairs", None, 8000, c02_pairs, "random pairs of words on random grids of all versions");
            add!("sizes", Some(260), 0, c02_size, "all grid sizes up to 259");
        }
        "C03" => {
            #[cfg(hook_field)]
            add!("field", Some(65536), 0, field_tables, "all pairs of field elements and all exponents below 65536: what the proof assumes about g2p");
            #[cfg(hook_block)]
            add!("block", None, 60000, c03_block, "random blocks with random numbers of damaged bytes; non-trivial: at least one");
            add!("symbols", None, 2500, c03_symbol, "symbols of all versions and levels with up to the correctable number of damaged bytes in every block; non-trivial: at least one damaged");
            add!("beyond", None, 3000, c03_beyond, "symbols with one block damaged beyond the bound; non-trivial: rejected, or accepted with a full payload");
        }
        "C04" => {
            add!("index", Some(1200), 0, c04_index, "all versions, modules coloured by each bit of their index and its complement: identifies every module");
            add!("random", None, 2000, c04_random, "random grids of all versions");
        }
        "C05" => {
            #[cfg(hook_mask)]
            add!("all", Some(8 * 177), 0, c05_all, "all masks and module coordinates");
            add!("symbols", None, 960, c05_symbols, "all versions and masks, every block damaged up to its limit so that a wrong module shows");
        }
        "C06" => {
            add!("clean", Some(160), 0, c06_clean, "undamaged symbols of all versions and levels");
            add!("symbols", None, 960, c06_symbols, "all versions and levels, every block damaged up to its limit");
            add!("fail", None, 480, c06_fail, "all versions and levels with one block beyond repair");
        }
        "C07" => {
            add!("sizes", Some(310), 0, c07_sizes, "grids of sizes 0..300 and near the largest number");
            add!("noise", None, 6000, c07_noise, "random grids of all sizes, mostly with valid format information");
            add!("payload", None, 6000, c07_payload, "symbols with random payload bits, possibly mirrored and damaged");
        }
        "C08" => {
            add!("mirror", None, 3000, c08_mirror, "symbols and their transposes, damaged within the limits, also with erroneous payloads");
            add!("errors", None, 3000, c08_errors, "grids that fail differently in the two orientations");
        }
        "C09" => {
            add!("grid", None, 1200, c09_grid, "grids of all sizes up to 189 and random ones from random functions");
            add!("grid_large", Some(8), 0, c09_grid_large, "grids of sizes beyond 8 bits, more than 2^16 modules");
            add!("bitmap_large", Some(10), 0, c09_bitmap_large, "bitmaps with widths and heights beyond 8 and 16 bits");
            add!("bitmap", None, 1500, c09_bitmap, "bitmaps of random sizes from random functions");
        }
        "C10" => {
            add!("wide", Some(9), 0, c10_wide, "images as wide as 10^6 pixels");
            add!("large", Some(20), 0, c10_large, "images with widths and heights beyond 8 and 16 bits");
            add!("images", None, 4000, c10_image, "random, graded, two-valued, checked images of all kinds of sizes; non-trivial: not empty");
        }
        "C11" => {
            #[cfg(all(hook_image, hook_fill))]
            add!("large", Some(60), 0, c11_large, "full and comb shaped regions in images with widths and heights beyond 8 and 16 bits");
            #[cfg(all(hook_image, hook_fill))]
            add!("small", Some(8192), 0, c11_small, "all binary images of 3x4 and 4x3 pixels with all start pixels");
            #[cfg(all(hook_image, hook_fill))]
            add!("shapes", None, 60000, c11_shapes, "noise, spirals, combs, bricks with stray colours; non-trivial: more than one pixel filled");
            add!("detect", None, 6000, regions_after_detect, "bitmaps with finder-like shapes after detection; non-trivial: several numbered regions");
        }
        "C12" => {
            #[cfg(all(hook_image, hook_region))]
            add!("large", Some(30), 0, c12_large, "one or a few regions in images with widths and heights beyond 8 and 16 bits");
            #[cfg(all(hook_image, hook_region))]
            add!("history", None, 1200, c12_history, "random histories of queries and claims on images with up to 900 regions, against a model of the slots");
            #[cfg(all(hook_image, hook_region))]
            add!("copies", None, 700, c12_copies, "random histories of queries and claims on images with up to 900 regions, and copies of the image made in between, against a model of the slots");
            add!("detect", None, 6000, regions_after_detect, "bitmaps with finder-like shapes after detection; non-trivial: several numbered regions");
        }
        "C13" => {
            #[cfg(hook_line)]
            add!("all", Some(1 << 16), 0, c13_all, "all binary lines of up to 15 pixels; non-trivial: a candidate is reported");
            #[cfg(hook_line)]
            add!("long", Some(130), 0, c13_long, "lines with runs beyond 8 and 16 bits; non-trivial: a candidate is reported");
            #[cfg(hook_line)]
            add!("runs", None, 200000, c13_runs, "lines of runs near the tolerance limits; non-trivial: a candidate is reported");
        }
        "C14" => {
            #[cfg(hook_corner)]
            add!("corners", None, 200000, c14_corners, "random sequences of runs; non-trivial: more than one");
            #[cfg(hook_leftmost)]
            add!("leftmost", None, 200000, c14_leftmost, "random sequences of runs; non-trivial: more than one");
        }
        "C15" => {
            #[cfg(hook_geo)]
            add!("small", Some(2 * 31 * 31), 0, c15_small, "all lines with extents up to 15 from two origins");
            #[cfg(hook_geo)]
            add!("long", Some(60), 0, c15_long, "long lines, also near the limits of the coordinates");
            #[cfg(hook_geo)]
            add!("random", None, 20000, c15_random, "random lines");
            #[cfg(all(hook_geo, hook_timing, hook_image))]
            add!("timing", None, 20000, c15_timing, "random images and lines; non-trivial: at least one change");
        }
        "C16" => {
            #[cfg(hook_geo)]
            add!("lines", None, 400000, c16_lines, "random and parallel lines of four magnitudes; non-trivial: they meet");
        }
        "C17" => {
            #[cfg(hook_persp)]
            add!("corners", None, 100000, c17_corners, "distorted squares and random quadrangles, floating point within 1e-5; non-trivial: all four triangles positive");
        }
        "C18" => {
            add!("points", Some(64), 0, c18_points, "a payload of all modes with a writer that fails after each possible number of bytes");
            add!("output", None, 6000, c18_output, "random payloads, string form and failing, short or interrupted writers");
        }
        "C21" => {
            #[cfg(all(hook_image, hook_region, hook_finder))]
            add!("scenes", None, 8000, c21_scenes, "finders of even and uneven modules in white, noise and shapes, at edges, overlapping, with flipped pixels, claimed or numbered regions beforehand; non-trivial: a finder is there");
            #[cfg(all(hook_image, hook_region, hook_finder))]
            add!("large", Some(160), 0, c21_large, "large finders, and finders far from the origin, beyond 8 and 16 bits; non-trivial: one is there");
            #[cfg(all(hook_image, hook_region, hook_finder))]
            add!("share", Some(160), 0, c21_share, "finders whose stone has 9 to 12 and 68 to 71 percent of the ring");
            #[cfg(all(hook_image, hook_region, hook_finder))]
            add!("refused", None, 400, c21_refused, "candidates whose corners admit no perspective, before and after finders on the same line; non-trivial: one is there");
            add!("many", None, 60, c21_many, "more regions than numbers");
            #[cfg(all(hook_image, hook_region, hook_finder))]
            add!("skewed", None, 1500, c21_skewed, "rotated and sheared finders; non-trivial: one is there");
        }
        "C22" => {
            #[cfg(all(hook_image, hook_region, hook_geo, hook_persp, hook_locate))]
            add!("locate", None, 8000, c22_locate, "symbols of all versions under projective maps, noisy, cut off, with claimed regions, finders in both orders and with any first corner; non-trivial: a grid is located");
            #[cfg(all(hook_image, hook_region, hook_persp, hook_search))]
            add!("large", Some(72), 0, c22_large, "modules of more than 2^16 pixels; non-trivial: a region is found");
            #[cfg(all(hook_image, hook_region, hook_persp, hook_search))]
            add!("search", None, 8000, c22_search, "guesses near the alignment pattern and elsewhere, with claimed regions near; non-trivial: a region is found");
            #[cfg(all(hook_image, hook_geo, hook_persp, hook_measure))]
            add!("measure", None, 3000, c22_measure, "symbols of all versions and scattered pixels; non-trivial: a size is found");
            #[cfg(all(hook_persp, hook_rotate))]
            add!("rotate", None, 60000, c22_rotate, "quadrangles and directions of four magnitudes; non-trivial: the corners are turned");
            #[cfg(all(hook_image, hook_persp, hook_read))]
            add!("read", None, 2000, c22_read, "symbols under projective maps, also cut off and of other sizes; non-trivial: not empty");
        }
        "C23" => {
            #[cfg(all(hook_image, hook_persp, hook_fit))]
            add!("score", None, 6000, c23_score, "symbols of all versions under projective maps, scored with the size of another version or a shaken perspective");
            #[cfg(all(hook_image, hook_persp, hook_jiggle))]
            add!("jiggle", None, 2000, c23_jiggle, "symbols of all versions with shaken perspectives; non-trivial: the perspective is adjusted");
            #[cfg(all(hook_image, hook_persp, hook_setup))]
            add!("setup", None, 2000, c23_setup, "symbols of all versions with shaken corners; non-trivial: a perspective is found");
        }
        "C24" => {
            #[cfg(all(hook_image, hook_region, hook_persp, hook_group))]
            add!("partners", None, 200000, c24_partners, "finders on lattices, skewed, rotated, or exact at the limits; non-trivial: there are partners");
            #[cfg(all(hook_image, hook_region, hook_persp, hook_locate, hook_group))]
            add!("groups", None, 8000, c24_groups, "one to three symbols with their finders in any order, decoys, claimed regions; non-trivial: a group is formed");
            #[cfg(all(hook_image, hook_region))]
            add!("copies", None, 700, c12_copies, "histories of queries and claims on copies of images with up to 900 regions; non-trivial: always");
        }
        "C25" => {
            #[cfg(all(hook_image, hook_region, hook_persp, hook_finder, hook_locate, hook_group))]
            add!("detect", None, 6000, c25_detect, "one to three symbols under projective maps; non-trivial: a grid is found");
            #[cfg(all(hook_image, hook_region, hook_persp, hook_finder, hook_locate, hook_group))]
            add!("shared", None, 1500, c25_shared, "two symbols with an alignment pattern in common and others beside; non-trivial: a grid is found");
        }
        _ => panic!("no such property"),
    }
    g
}
